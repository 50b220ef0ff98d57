//! Passive observer: decodes what an endpoint put on the wire and judges it.
use crate::crypto::*;
use crate::pki;
use crate::reftls::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Secrets {
    pub suite: Option<Suite>,
    pub c_hs: Option<Vec<u8>>,
    pub s_hs: Option<Vec<u8>>,
    pub c_ap: Option<Vec<u8>>,
    pub s_ap: Option<Vec<u8>>,
}
impl Secrets {
    pub fn from_ks(k: &Ks) -> Secrets {
        let o = |v: &Vec<u8>| if v.is_empty() { None } else { Some(v.clone()) };
        Secrets { suite: Some(k.suite), c_hs: o(&k.c_hs), s_hs: o(&k.s_hs), c_ap: o(&k.c_ap), s_ap: o(&k.s_ap) }
    }
}
pub const LABELS: [&str; 4] = [
    "SERVER_HANDSHAKE_TRAFFIC_SECRET",
    "CLIENT_HANDSHAKE_TRAFFIC_SECRET",
    "SERVER_TRAFFIC_SECRET_0",
    "CLIENT_TRAFFIC_SECRET_0",
];
pub type KeyLog = BTreeMap<String, BTreeMap<String, Vec<String>>>;
/// strict NSS key log parse: random -> label -> secrets; plus malformed lines
pub fn parse_keylog(b: &[u8]) -> (KeyLog, Vec<String>) {
    let mut m: KeyLog = BTreeMap::new();
    let mut bad = vec![];
    let txt = String::from_utf8_lossy(b).to_string();
    if !b.is_empty() && !b.ends_with(b"\n") {
        bad.push("file does not end with a newline".to_string());
    }
    for l in txt.lines() {
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let p: Vec<&str> = l.split(' ').collect();
        let hexok = |s: &str| s.len() % 2 == 0 && s.chars().all(|c| c.is_ascii_hexdigit());
        if p.len() != 3 || !LABELS.contains(&p[0]) || p[1].len() != 64 || !hexok(p[1]) || !(p[2].len() == 64 || p[2].len() == 96) || !hexok(p[2]) {
            bad.push(l.chars().take(200).collect());
            continue;
        }
        m.entry(p[1].to_lowercase()).or_default().entry(p[0].to_string()).or_default().push(p[2].to_lowercase());
    }
    (m, bad)
}
pub fn keylog_secrets(m: &KeyLog, random: &[u8], suite: Option<Suite>) -> Secrets {
    let g = |l: &str| m.get(&hex(random)).and_then(|x| x.get(l)).and_then(|v| v.last()).map(|s| unhex(s));
    Secrets { suite, s_hs: g(LABELS[0]), c_hs: g(LABELS[1]), s_ap: g(LABELS[2]), c_ap: g(LABELS[3]) }
}

#[derive(Clone, Debug)]
pub struct RecInfo {
    pub outer: u8,
    pub inner: u8, // 0 when not decoded
    pub epoch: u8,
    pub len: usize, // content length
    pub pad: usize,
    pub start: usize,
    pub end: usize,
    pub opened: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Decoded {
    pub recs: Vec<RecInfo>,
    pub msgs: Vec<(u8, Vec<u8>, usize)>, // epoch, message, index of the record it ends in
    pub app: Vec<u8>,
    pub alerts: Vec<(u8, u8, u8, usize)>, // level, description, epoch, record index
    pub ccs: Vec<usize>,
    pub problems: Vec<String>, // ill-formed (C14)
    pub sealed: Vec<String>,   // protection problems (C11)
    pub partial: usize,        // trailing bytes that are no full record
    pub partial_hs: usize,
    pub complete: bool, // Finished seen
    pub opaque: usize,  // encrypted records that could not be judged (no secrets)
}
impl Decoded {
    pub fn types(&self) -> Vec<u8> {
        self.msgs.iter().map(|m| m.1[0]).collect()
    }
    pub fn hello(&self) -> Option<&[u8]> {
        self.msgs.first().map(|m| &m.1[..])
    }
}
/// `lenient`: the stream is hostile input, skip what can not be read
pub fn decode(tx: &[u8], from_server: bool, sec: &Secrets, lenient: bool) -> Decoded {
    let mut d = Decoded::default();
    let mut pos = 0;
    let mut epoch = 0u8;
    let mut dir: Option<Dir> = None;
    let mut hsb: Vec<u8> = vec![];
    let mk = |ep: u8| -> Option<Dir> {
        let s = match (from_server, ep) {
            (true, 1) => &sec.s_hs,
            (true, _) => &sec.s_ap,
            (false, 1) => &sec.c_hs,
            (false, _) => &sec.c_ap,
        };
        match (sec.suite, s) {
            (Some(su), Some(s)) if s.len() == su.hash().len() => Some(Dir::new(su, s)),
            _ => None,
        }
    };
    let mut lost = false; // an encrypted record could not be opened: stop judging
    while pos < tx.len() {
        let rest = &tx[pos..];
        if rest.len() < 5 {
            d.partial = rest.len();
            break;
        }
        let len = (rest[3] as usize) << 8 | rest[4] as usize;
        if rest.len() < 5 + len {
            d.partial = rest.len();
            if len > 16640 {
                d.problems.push(format!("record header announces {len} bytes"));
            }
            break;
        }
        let r = &rest[..5 + len];
        let idx = d.recs.len();
        let mut ri = RecInfo { outer: r[0], inner: 0, epoch, len, pad: 0, start: pos, end: pos + 5 + len, opened: false };
        pos += 5 + len;
        let ver = (r[1], r[2]);
        if !(ver == (3, 3) || (ver == (3, 1) && idx == 0 && !from_server)) {
            d.problems.push(format!("record {idx} has version {:02x}{:02x}", r[1], r[2]));
        }
        if !hsb.is_empty() && !(r[0] == 22 && epoch == 0) && r[0] != 23 {
            d.problems.push(format!("record {idx} of type {} inside a handshake message", r[0]));
        }
        match r[0] {
            20 => {
                ri.inner = 20;
                d.ccs.push(idx);
                if r[5..] != [1] {
                    d.problems.push("change_cipher_spec content is not 01".into());
                }
            }
            21 => {
                ri.inner = 21;
                if len != 2 {
                    d.problems.push(format!("clear alert of length {len}"));
                } else {
                    d.alerts.push((r[5], r[6], 0, idx));
                }
            }
            22 => {
                ri.inner = 22;
                if len > MAX_PLAIN {
                    d.problems.push(format!("plaintext record of {len} bytes"));
                }
                if len == 0 {
                    d.problems.push("empty handshake record".into());
                }
                if epoch > 0 {
                    d.sealed.push(format!("record {idx}: clear handshake record after keys are in use"));
                } else {
                    hsb.extend_from_slice(&r[5..]);
                    take_msgs(&mut hsb, 0, idx, &mut d);
                    if from_server && d.msgs.iter().any(|m| m.1[0] == SH) {
                        epoch = 1;
                        dir = mk(1);
                        if !hsb.is_empty() {
                            d.problems.push("bytes follow ServerHello in the clear".into());
                            hsb.clear();
                        }
                    }
                    if !from_server && !lenient && d.msgs.len() > 1 {
                        d.sealed.push("client sent a second handshake message in the clear".into());
                    }
                }
            }
            23 => {
                if len > MAX_PLAIN + 256 {
                    d.problems.push(format!("ciphertext record of {len} bytes"));
                }
                if epoch == 0 {
                    if d.msgs.is_empty() {
                        d.sealed.push("encrypted record before any hello".into());
                    }
                    if !hsb.is_empty() {
                        d.problems.push("incomplete clear handshake message".into());
                        hsb.clear();
                    }
                    epoch = 1;
                    dir = mk(1);
                }
                ri.epoch = epoch;
                if lost || dir.is_none() {
                    d.opaque += 1;
                } else {
                    let dd = dir.as_mut().unwrap();
                    let seq = dd.seq;
                    let before = dd.clone();
                    match dd.open(r) {
                        Err(e) => {
                            if lenient {
                                *dd = before;
                                d.opaque += 1;
                            } else {
                                let mut why = format!("record {idx} (epoch {epoch}) does not open: {e}");
                                for s in 0..seq {
                                    let mut t = before.clone();
                                    t.seq = s;
                                    if t.open(r).is_ok() {
                                        why = format!("record {idx}: nonce of record number {s} is used again");
                                    }
                                }
                                for ep in 1..3u8 {
                                    if ep != epoch {
                                        if let Some(mut t) = mk(ep) {
                                            for s in 0..20 {
                                                t.seq = s;
                                                if t.open(r).is_ok() {
                                                    why = format!("record {idx}: protected with the keys of epoch {ep} (sequence {s}) in epoch {epoch}");
                                                    break;
                                                }
                                            }
                                        }
                                    }
                                }
                                d.sealed.push(why);
                                lost = true;
                            }
                        }
                        Ok((ct, m, pad)) => {
                            ri.inner = ct;
                            ri.len = m.len();
                            ri.pad = pad;
                            ri.opened = true;
                            if m.len() + pad > MAX_PLAIN {
                                d.problems.push(format!("inner plaintext of {} bytes", m.len() + pad));
                            }
                            if !hsb.is_empty() && ct != 22 {
                                d.problems.push(format!("record {idx} (type {ct}) inside a handshake message"));
                            }
                            match ct {
                                22 => {
                                    if m.is_empty() {
                                        d.problems.push("empty encrypted handshake record".into());
                                    }
                                    hsb.extend_from_slice(&m);
                                    take_msgs(&mut hsb, epoch, idx, &mut d);
                                    if epoch == 1 && d.msgs.iter().any(|m| m.0 == 1 && m.1[0] == FIN) {
                                        if !hsb.is_empty() {
                                            d.problems.push("bytes follow Finished under handshake keys".into());
                                            hsb.clear();
                                        }
                                        d.complete = true;
                                        epoch = 2;
                                        dir = mk(2);
                                    }
                                }
                                21 => {
                                    if m.len() != 2 {
                                        d.problems.push(format!("alert of length {}", m.len()));
                                    } else {
                                        d.alerts.push((m[0], m[1], epoch, idx));
                                    }
                                }
                                23 => {
                                    if epoch < 2 {
                                        d.sealed.push("application data under handshake keys".into());
                                    }
                                    d.app.extend_from_slice(&m);
                                }
                                t => d.problems.push(format!("inner content type {t}")),
                            }
                        }
                    }
                }
            }
            t => {
                d.problems.push(format!("record type {t}"));
            }
        }
        d.recs.push(ri);
    }
    d.partial_hs = hsb.len();
    d
}
fn take_msgs(b: &mut Vec<u8>, epoch: u8, idx: usize, d: &mut Decoded) {
    while b.len() >= 4 {
        let n = 4 + ((b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize);
        if b.len() < n {
            return;
        }
        let m: Vec<u8> = b.drain(..n).collect();
        d.msgs.push((epoch, m, idx));
    }
}

/// What the configuration says the endpoint should be sending.
#[derive(Clone, Default)]
pub struct Expect {
    pub server: bool,
    pub cert: Vec<u8>, // DER, empty: none configured
    pub point: Option<(U, U)>,
    pub client_auth: bool,
    pub sni: Option<String>,
}
/// Strict judgement of one endpoint's emitted stream.
/// `other`: the messages the other side sent (as delivered to this endpoint).
pub fn judge(d: &Decoded, e: &Expect, other: &Decoded, sec: &Secrets, success: bool) -> Vec<String> {
    let mut p = d.problems.clone();
    let types = d.types();
    if d.opaque > 0 || !d.sealed.is_empty() {
        // can not be read completely: only what is certain
        return p;
    }
    let mut tr: Vec<u8> = vec![];
    let hash = sec.suite.map(|s| s.hash()).unwrap_or(Hash::S256);
    if e.server {
        let ch = other.hello().filter(|m| m[0] == CH);
        let full: Vec<u8> = if e.client_auth { vec![SH, EE, CREQ, CERT, CV, FIN] } else { vec![SH, EE, CERT, CV, FIN] };
        if types.len() > full.len() || full[..types.len()] != types[..] {
            p.push(format!("server handshake messages are {types:?}"));
            return p;
        }
        if success && types != full {
            p.push(format!("server succeeded but sent only {types:?}"));
        }
        // change_cipher_spec: at most one, directly after ServerHello
        if d.ccs.len() > 1 {
            p.push(format!("{} change_cipher_spec records", d.ccs.len()));
        }
        if let Some(i) = d.ccs.first() {
            let sh_end = d.msgs.first().map(|m| m.2);
            if sh_end.map(|x| x + 1) != Some(*i) {
                p.push("change_cipher_spec is not directly after ServerHello".into());
            }
        }
        if types.is_empty() {
            return p;
        }
        let ch = match ch {
            Some(c) => c,
            None => {
                p.push("server answered without a ClientHello".into());
                return p;
            }
        };
        tr.extend_from_slice(ch);
        let chp = Ch::parse(&ch[4..]);
        for (_, m, _) in &d.msgs {
            let b = &m[4..];
            let r: Result<(), String> = (|| {
                match m[0] {
                    SH => {
                        let s = Sh::parse(b)?;
                        if let Ok(c) = &chp {
                            s.check(c)?;
                            if !c.sid.is_empty() && d.ccs.is_empty() && (types.len() > 1 || success) {
                                return Err("no change_cipher_spec although the client is in compatibility mode".into());
                            }
                        }
                    }
                    EE => {
                        let mut r = Rd(b);
                        let l = parse_exts(r.v16()?)?;
                        r.end("EncryptedExtensions")?;
                        for (t, v) in l {
                            let offered = chp.as_ref().map(|c| c.ext(t).is_some()).unwrap_or(true);
                            if !offered || !matches!(t, 0 | 10 | 16 | 28 | 1) {
                                return Err(format!("extension {t} in EncryptedExtensions"));
                            }
                            if t == 0 && !v.is_empty() {
                                return Err("server_name acknowledgement not empty".into());
                            }
                        }
                    }
                    CREQ => {
                        let (_, s) = parse_creq(b)?;
                        if !s.contains(&0x0403) {
                            return Err("CertificateRequest does not allow the only supported scheme".into());
                        }
                    }
                    CERT => {
                        let c = CertMsg::parse(b)?;
                        if !c.ctx.is_empty() {
                            return Err("server Certificate has a request context".into());
                        }
                        if c.chain.is_empty() {
                            return Err("server Certificate is empty".into());
                        }
                        if c.chain[0].0 != e.cert {
                            return Err("server Certificate is not the configured one".into());
                        }
                    }
                    CV => check_cv(b, e, &hash.h(&tr), true, chp.as_ref().ok().and_then(|c| c.list(13).ok()))?,
                    FIN => check_fin(b, sec, sec.s_hs.as_ref(), &tr)?,
                    _ => {}
                }
                Ok(())
            })();
            if let Err(x) = r {
                p.push(format!("{} message: {x}", name(m[0])));
            }
            tr.extend_from_slice(m);
        }
    } else {
        let creq = other.msgs.iter().find(|m| m.0 == 1 && m.1[0] == CREQ).map(|m| m.1.clone());
        if types.is_empty() {
            if !d.recs.is_empty() || success {
                p.push("client sent no ClientHello".into());
            }
            return p;
        }
        let full: Vec<u8> = match (&creq, e.cert.is_empty()) {
            (None, _) => vec![CH, FIN],
            (Some(_), true) => vec![CH, CERT, FIN],
            (Some(_), false) => vec![CH, CERT, CV, FIN],
        };
        if types.len() > full.len() || full[..types.len()] != types[..] {
            p.push(format!("client handshake messages are {types:?}, expected a prefix of {full:?}"));
            return p;
        }
        if success && types != full {
            p.push(format!("client succeeded but sent only {types:?}"));
        }
        if d.ccs.len() > 1 {
            p.push(format!("{} change_cipher_spec records", d.ccs.len()));
        }
        for i in &d.ccs {
            let fin = d.msgs.iter().find(|m| m.1[0] == FIN).map(|m| m.2).unwrap_or(usize::MAX);
            if *i == 0 || *i > fin {
                p.push("change_cipher_spec outside the handshake".into());
            }
        }
        let server_flight: Vec<u8> = {
            let mut v = vec![];
            for m in &other.msgs {
                v.extend_from_slice(&m.1);
                if m.1[0] == FIN {
                    break;
                }
            }
            v
        };
        let mut first = true;
        for (_, m, _) in &d.msgs {
            let b = &m[4..];
            let r: Result<(), String> = (|| {
                match m[0] {
                    CH => {
                        let c = Ch::parse(b)?;
                        c.check()?;
                        let n = c.sni()?;
                        if n.as_deref() != e.sni.as_ref().map(|s| s.as_bytes()) {
                            return Err("server_name differs from the configuration".into());
                        }
                    }
                    CERT => {
                        let c = CertMsg::parse(b)?;
                        // a request that is itself no valid one is not this side's fault
                        let ctx = Rd(&creq.as_ref().unwrap()[4..]).v8()?.to_vec();
                        if c.ctx != ctx {
                            return Err("request context not echoed".into());
                        }
                        if e.cert.is_empty() != c.chain.is_empty() {
                            return Err("presence of the client certificate".into());
                        }
                        if !e.cert.is_empty() && c.chain[0].0 != e.cert {
                            return Err("client Certificate is not the configured one".into());
                        }
                    }
                    CV => {
                        let l = parse_creq(&creq.as_ref().unwrap()[4..]).ok().map(|x| x.1);
                        check_cv(b, e, &hash.h(&tr), false, l)?
                    }
                    FIN => check_fin(b, sec, sec.c_hs.as_ref(), &tr)?,
                    _ => {}
                }
                Ok(())
            })();
            if let Err(x) = r {
                p.push(format!("{} message: {x}", name(m[0])));
            }
            tr.extend_from_slice(m);
            if first {
                tr.extend_from_slice(&server_flight);
                first = false;
            }
        }
    }
    if success && d.partial_hs > 0 {
        p.push("incomplete handshake message sent".into());
    }
    if !success && d.app.len() > 0 {
        p.push("application data sent although the handshake failed".into());
    }
    p
}
fn check_cv(b: &[u8], e: &Expect, th: &[u8], server: bool, allowed: Option<Vec<u16>>) -> Result<(), String> {
    let (scheme, sig) = parse_cv(b)?;
    if scheme != 0x0403 {
        return Err(format!("scheme {scheme:04x}"));
    }
    if let Some(a) = allowed {
        if !a.contains(&scheme) {
            return Err("scheme was not offered by the peer".into());
        }
    }
    let (r, s) = pki::parse_sig(&sig)?;
    if let Some(q) = &e.point {
        if !p256().verify(q, &sha256(&cv_input(server, th)), &r, &s) {
            return Err("signature does not verify".into());
        }
    }
    Ok(())
}
fn check_fin(b: &[u8], sec: &Secrets, secret: Option<&Vec<u8>>, tr: &[u8]) -> Result<(), String> {
    if let (Some(su), Some(s)) = (sec.suite, secret) {
        if finished(su, s, tr) != b {
            return Err("verify_data is wrong".into());
        }
    }
    Ok(())
}
pub fn name(t: u8) -> &'static str {
    match t {
        CH => "ClientHello",
        SH => "ServerHello",
        EE => "EncryptedExtensions",
        CREQ => "CertificateRequest",
        CERT => "Certificate",
        CV => "CertificateVerify",
        FIN => "Finished",
        NST => "NewSessionTicket",
        24 => "KeyUpdate",
        _ => "unknown",
    }
}

/// 16-byte windows of secrets/plaintext searched in a byte stream
/// shortest run of secret bytes that is recognised
const NEEDLE: usize = 12;
fn word(w: &[u8]) -> u128 {
    let mut b = [0u8; 16];
    b[..NEEDLE].copy_from_slice(w);
    u128::from_le_bytes(b)
}
#[derive(Default)]
pub struct Needles {
    set: HashSet<u128>,
}
impl Needles {
    pub fn add(&mut self, b: &[u8]) {
        for w in b.windows(NEEDLE) {
            // constant runs are no evidence
            if w.iter().any(|x| *x != w[0]) {
                self.set.insert(word(w));
            }
        }
    }
    pub fn find(&self, hay: &[u8]) -> Option<usize> {
        if self.set.is_empty() {
            return None;
        }
        hay.windows(NEEDLE).position(|w| self.set.contains(&word(w)))
    }
}

// ---------------------------------------------------------------- error names
pub fn rfc_code(e: &str) -> Option<u8> {
    if let Some(x) = e.strip_prefix("GotAlert(") {
        return x.trim_end_matches(')').parse().ok();
    }
    Some(match e {
        "CloseNotify" => 0,
        "UnexpectedMessage" => 10,
        "BadRecordMac" => 20,
        "RecordOverflow" => 22,
        "HandshakeFailure" => 40,
        "BadCertificate" => 42,
        "UnsupportedCertificate" => 43,
        "CertificateRevoked" => 44,
        "CertificateExpired" => 45,
        "CertificateUnknown" => 46,
        "IllegalParameter" => 47,
        "UnknownCa" => 48,
        "AccessDenied" => 49,
        "DecodeError" => 50,
        "DecryptError" => 51,
        "ProtocolVersion" => 70,
        "InsufficientSecurity" => 71,
        "InternalError" => 80,
        "InappropriateFallback" => 86,
        "UserCanceled" => 90,
        "MissingExtension" => 109,
        "UnsupportedExtension" => 110,
        "UnrecognizedName" => 112,
        "BadCertificateStatusResponse" => 113,
        "UnknownPskIdentity" => 115,
        "CertificateRequired" => 116,
        "NoApplicationProtocol" => 120,
        _ => return None,
    })
}
