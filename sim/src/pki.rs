//! DER writer, X.509 generator, PEM writer, civil time.
use crate::crypto::*;
use crate::tape::Rng;

pub fn tlv(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    let n = c.len();
    if n < 128 {
        o.push(n as u8);
    } else {
        let b: Vec<u8> = (n as u32).to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        o.push(0x80 | b.len() as u8);
        o.extend_from_slice(&b);
    }
    o.extend_from_slice(c);
    o
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn der_int(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn der_sig(r: &U, s: &U) -> Vec<u8> {
    seq(&[der_int(&u_to(r)), der_int(&u_to(s))])
}
/// strict DER ECDSA signature
pub fn parse_sig(b: &[u8]) -> Result<(U, U), String> {
    let (t, c, rest) = der_get(b)?;
    if t != 0x30 || !rest.is_empty() {
        return Err("signature: not one SEQUENCE".into());
    }
    let int = |b: &[u8]| -> Result<(U, Vec<u8>), String> {
        let (t, c, rest) = der_get(b)?;
        if t != 2 || c.is_empty() {
            return Err("signature: no INTEGER".into());
        }
        if c.len() > 1 && c[0] == 0 && c[1] & 0x80 == 0 {
            return Err("signature: INTEGER not minimal".into());
        }
        if c[0] & 0x80 != 0 {
            return Err("signature: INTEGER negative".into());
        }
        let v: Vec<u8> = c.iter().copied().skip_while(|x| *x == 0).collect();
        if v.len() > 32 {
            return Err("signature: INTEGER too long".into());
        }
        Ok((u_from(&v), rest.to_vec()))
    };
    let (r, rest) = int(c)?;
    let (s, rest) = int(&rest)?;
    if !rest.is_empty() {
        return Err("signature: trailing data".into());
    }
    Ok((r, s))
}
/// strict DER element: tag, content, rest
pub fn der_get(b: &[u8]) -> Result<(u8, &[u8], &[u8]), String> {
    if b.len() < 2 {
        return Err("der: short".into());
    }
    let (mut n, mut p) = (b[1] as usize, 2);
    if n & 0x80 != 0 {
        let k = n & 0x7f;
        if k == 0 || k > 3 || b.len() < 2 + k {
            return Err("der: length".into());
        }
        n = b[2..2 + k].iter().fold(0, |a, x| a << 8 | *x as usize);
        if n < 128 || (k > 1 && b[2] == 0) {
            return Err("der: length not minimal".into());
        }
        p += k;
    }
    if b.len() < p + n {
        return Err("der: truncated".into());
    }
    Ok((b[0], &b[p..p + n], &b[p + n..]))
}

// ---- civil time (proleptic Gregorian), independent algorithm: Howard Hinnant ----
pub fn civil(t: i64) -> (i64, u32, u32, u32, u32, u32) {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400) as u32;
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + (m <= 2) as i64;
    (y, m, d, s / 3600, s / 60 % 60, s % 60)
}
pub fn unix(y: i64, m: u32, d: u32, h: u32, mi: u32, s: u32) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2.rem_euclid(400);
    let mp = if m > 2 { m - 3 } else { m + 9 } as i64;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    (era * 146097 + doe - 719468) * 86400 + h as i64 * 3600 + mi as i64 * 60 + s as i64
}
pub fn der_time(t: i64, general: bool) -> Vec<u8> {
    let (y, m, d, h, mi, s) = civil(t);
    if general || !(1950..2050).contains(&y) {
        tlv(0x18, format!("{y:04}{m:02}{d:02}{h:02}{mi:02}{s:02}Z").as_bytes())
    } else {
        tlv(0x17, format!("{:02}{m:02}{d:02}{h:02}{mi:02}{s:02}Z", y % 100).as_bytes())
    }
}

// ---- keys ----
#[derive(Clone, Debug)]
pub struct Key {
    pub d: U,
    pub q: (U, U),
}
impl Key {
    pub fn new(rng: &mut Rng) -> Key {
        loop {
            let d = p256().n.reduce(&u_from(&rng.bytes(32)));
            if let Some(q) = p256().base(&d) {
                return Key { d, q };
            }
        }
    }
    /// key whose private scalar / public point have special shapes
    pub fn shaped(rng: &mut Rng, shape: u64) -> Key {
        loop {
            let mut b = rng.bytes(32);
            match shape {
                1 => b[0] = 0,
                2 => b[..3].fill(0),
                3 => {
                    b[..31].fill(0);
                    b[31] |= 1
                }
                _ => {}
            }
            let d = p256().n.reduce(&u_from(&b));
            if u_zero(&d) {
                continue;
            }
            let q = p256().base(&d).unwrap();
            let (x, y) = (u_to(&q.0), u_to(&q.1));
            if shape == 4 && x[0] != 0 {
                continue;
            }
            if shape == 5 && y[0] != 0 {
                continue;
            }
            return Key { d, q };
        }
    }
    pub fn point(&self) -> Vec<u8> {
        [vec![4], u_to(&self.q.0).to_vec(), u_to(&self.q.1).to_vec()].concat()
    }
    pub fn sign(&self, rng: &mut Rng, hash: &[u8]) -> (U, U) {
        loop {
            let k = p256().n.reduce(&u_from(&rng.bytes(32)));
            if u_zero(&k) {
                continue;
            }
            if let Some(x) = p256().sign_k(&self.d, hash, &k) {
                return x;
            }
        }
    }
    pub fn sec1(&self) -> Vec<u8> {
        seq(&[
            tlv(2, &[1]),
            tlv(4, &u_to(&self.d)),
            tlv(0xa0, &tlv(6, &OID_P256)),
            tlv(0xa1, &tlv(3, &[vec![0], self.point()].concat())),
        ])
    }
}
pub const OID_P256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
pub const OID_EC: [u8; 7] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01];
pub const OID_ES256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02];
pub const OID_ES384: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x03];

#[derive(Clone, Debug)]
pub struct CertSpec {
    pub v3: bool,
    pub serial: Vec<u8>,
    pub issuer: String,
    pub subject: String,
    pub long_subject: usize, // extra organisation bytes
    pub min_names: bool,     // only a CN in both names (tiny certificate)
    pub nb: i64,
    pub na: i64,
    pub general: (bool, bool),
    pub ext_pad: usize, // bytes of an opaque extension (v3)
    pub raw_validity: Option<Vec<u8>>, // in place of the two dates
}
impl CertSpec {
    pub fn plain(subject: &str, issuer: &str) -> CertSpec {
        CertSpec {
            v3: true,
            serial: vec![0x12, 0x34],
            issuer: issuer.into(),
            subject: subject.into(),
            long_subject: 0,
            min_names: false,
            nb: 1_700_000_000,
            na: 2_000_000_000,
            general: (false, false),
            ext_pad: 0,
            raw_validity: None,
        }
    }
}
fn rdn(oid: &[u8], tag: u8, v: &str) -> Vec<u8> {
    tlv(0x31, &seq(&[tlv(6, oid), tlv(tag, v.as_bytes())]))
}
pub fn name(cn: &str, extra: usize, min: bool) -> Vec<u8> {
    let mut p = vec![];
    if !min {
        p.push(rdn(&[0x55, 4, 6], 0x13, "DE"));
        let mut o = "AnotherOrg".to_string();
        for i in 0..extra {
            o.push((b'a' + (i % 26) as u8) as char);
        }
        p.push(rdn(&[0x55, 4, 10], 0x0c, &o));
    }
    p.push(rdn(&[0x55, 4, 3], 0x0c, cn));
    seq(&p)
}
pub fn spki(point: &[u8]) -> Vec<u8> {
    seq(&[seq(&[tlv(6, &OID_EC), tlv(6, &OID_P256)]), tlv(3, &[vec![0], point.to_vec()].concat())])
}
pub fn tbs(s: &CertSpec, point: &[u8]) -> Vec<u8> {
    let mut p = vec![];
    if s.v3 {
        p.push(tlv(0xa0, &tlv(2, &[2])));
    }
    p.push(der_int(&s.serial));
    p.push(seq(&[tlv(6, &OID_ES256)]));
    p.push(name(&s.issuer, 0, s.min_names));
    p.push(s.raw_validity.clone().unwrap_or_else(|| seq(&[der_time(s.nb, s.general.0), der_time(s.na, s.general.1)])));
    p.push(name(&s.subject, s.long_subject, s.min_names));
    p.push(spki(point));
    if s.v3 {
        // subjectKeyIdentifier, basicConstraints, optionally padding (netscape comment)
        let mut e = vec![
            seq(&[tlv(6, &[0x55, 0x1d, 0x0e]), tlv(4, &tlv(4, &sha256(point)[..20]))]),
            seq(&[tlv(6, &[0x55, 0x1d, 0x13]), tlv(1, &[0xff]), tlv(4, &seq(&[tlv(1, &[0xff])]))]),
        ];
        if s.ext_pad > 0 {
            let txt: Vec<u8> = (0..s.ext_pad).map(|i| b'A' + (i % 26) as u8).collect();
            e.push(seq(&[
                tlv(6, &[0x60, 0x86, 0x48, 0x01, 0x86, 0xf8, 0x42, 0x01, 0x0d]),
                tlv(4, &tlv(0x16, &txt)),
            ]));
        }
        p.push(tlv(0xa3, &seq(&e)));
    }
    seq(&p)
}
pub fn wrap(tbs: &[u8], sig: &[u8]) -> Vec<u8> {
    seq(&[tbs.to_vec(), seq(&[tlv(6, &OID_ES256)]), tlv(3, &[vec![0], sig.to_vec()].concat())])
}
pub fn cert(s: &CertSpec, key: &Key, ca: &Key, rng: &mut Rng) -> Vec<u8> {
    let t = tbs(s, &key.point());
    let (r, ss) = ca.sign(rng, &sha256(&t));
    wrap(&t, &der_sig(&r, &ss))
}

// ---- PEM ----
pub fn b64(b: &[u8]) -> String {
    const C: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(C[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
pub fn pem(title: &str, b: &[u8]) -> String {
    let e = b64(b);
    let mut o = format!("-----BEGIN {title}-----\n");
    for l in e.as_bytes().chunks(64) {
        o.push_str(std::str::from_utf8(l).unwrap());
        o.push('\n');
    }
    o.push_str(&format!("-----END {title}-----\n"));
    o
}
pub fn key_pem(k: &Key, with_params: bool) -> String {
    let mut o = String::new();
    if with_params {
        o.push_str(&pem("EC PARAMETERS", &tlv(6, &OID_P256)));
    }
    o.push_str(&pem("EC PRIVATE KEY", &k.sec1()));
    o
}

/// the certificate with another serial number (its signature does not fit any more)
pub fn other_serial(cert: &[u8], rng: &mut Rng) -> Vec<u8> {
    let f = || -> Result<usize, String> {
        let (_, c, _) = der_get(cert)?;
        let (_, tbs, _) = der_get(c)?;
        let (t, _, rest) = der_get(tbs)?;
        let (_, s, _) = if t == 0xa0 { der_get(rest)? } else { der_get(tbs)? };
        Ok(s.as_ptr() as usize + s.len() - 1 - cert.as_ptr() as usize)
    };
    let mut v = cert.to_vec();
    if let Ok(i) = f() {
        v[i] = rng.below(256) as u8;
        if v[i - 2] != 2 {
            v[i - 1] = rng.below(256) as u8;
        }
    }
    v
}
