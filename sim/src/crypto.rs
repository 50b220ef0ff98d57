//! Independent reference cryptography (written from the standards; shares no
//! code with the library under test). Self-tested by `sim selftest`.
#![allow(clippy::needless_range_loop, clippy::many_single_char_names)]

// ---------------- SHA-2 ----------------
const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01,
    0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc,
    0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
    0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08,
    0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
    0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
pub fn sha256(m: &[u8]) -> Vec<u8> {
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for c in d.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
const K512: [u64; 80] = [
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538, 0x59f111f1b605d019,
    0x923f82a4af194f9b, 0xab1c5ed5da6d8118, 0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2,
    0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694, 0xe49b69c19ef14ad2, 0xefbe4786384f25e3,
    0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65, 0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725,
    0x06ca6351e003826f, 0x142929670a0e6e70, 0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df,
    0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b, 0xa2bfe8a14cf10364, 0xa81a664bbc423001,
    0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb,
    0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3, 0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
    0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b, 0xca273eceea26619c, 0xd186b8c721c0c207,
    0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a,
    0x5fcb6fab3ad6faec, 0x6c44198c4a475817,
];
pub fn sha384(m: &[u8]) -> Vec<u8> {
    let mut h: [u64; 8] = [
        0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511,
        0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4,
    ];
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 128 != 112 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u128) * 8).to_be_bytes());
    for c in d.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            w[i] = u64::from_be_bytes(c[8 * i..8 * i + 8].try_into().unwrap());
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().take(6).flat_map(|x| x.to_be_bytes()).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hash {
    S256,
    S384,
}
impl Hash {
    pub fn len(self) -> usize {
        match self {
            Hash::S256 => 32,
            Hash::S384 => 48,
        }
    }
    pub fn h(self, m: &[u8]) -> Vec<u8> {
        match self {
            Hash::S256 => sha256(m),
            Hash::S384 => sha384(m),
        }
    }
    pub fn hmac(self, key: &[u8], m: &[u8]) -> Vec<u8> {
        let bs = match self {
            Hash::S256 => 64,
            Hash::S384 => 128,
        };
        let mut k = if key.len() > bs { self.h(key) } else { key.to_vec() };
        k.resize(bs, 0);
        let mut a: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        a.extend_from_slice(m);
        let mut b: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        b.extend_from_slice(&self.h(&a));
        self.h(&b)
    }
    pub fn extract(self, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
        self.hmac(salt, ikm)
    }
    pub fn expand_label(self, secret: &[u8], label: &str, ctx: &[u8], len: usize) -> Vec<u8> {
        let mut info = vec![(len >> 8) as u8, len as u8, 6 + label.len() as u8];
        info.extend_from_slice(b"tls13 ");
        info.extend_from_slice(label.as_bytes());
        info.push(ctx.len() as u8);
        info.extend_from_slice(ctx);
        let mut out = vec![];
        let mut t = vec![];
        let mut i = 1u8;
        while out.len() < len {
            let mut m = t.clone();
            m.extend_from_slice(&info);
            m.push(i);
            t = self.hmac(secret, &m);
            out.extend_from_slice(&t);
            i += 1;
        }
        out.truncate(len);
        out
    }
}

// ---------------- AES-GCM ----------------
fn sbox() -> &'static [u8; 256] {
    use std::sync::OnceLock;
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        let (mut p, mut q) = (1u8, 1u8);
        loop {
            p = p ^ (p << 1) ^ if p & 0x80 != 0 { 0x1b } else { 0 };
            q ^= q << 1;
            q ^= q << 2;
            q ^= q << 4;
            if q & 0x80 != 0 {
                q ^= 0x09;
            }
            s[p as usize] = (q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4)) ^ 0x63;
            if p == 1 {
                break;
            }
        }
        s[0] = 0x63;
        s
    })
}
pub struct Aes {
    rk: Vec<[u8; 16]>,
}
fn xt(x: u8) -> u8 {
    (x << 1) ^ if x & 0x80 != 0 { 0x1b } else { 0 }
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let s = sbox();
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 {
                t = [s[t[0] as usize], s[t[1] as usize], s[t[2] as usize], s[t[3] as usize]];
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut x = *b;
        for i in 0..16 {
            x[i] ^= self.rk[0][i];
        }
        let n = self.rk.len();
        for r in 1..n {
            let mut y = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    y[4 * c + row] = s[x[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r < n - 1 {
                for c in 0..4 {
                    let a: [u8; 4] = y[4 * c..4 * c + 4].try_into().unwrap();
                    let t = a[0] ^ a[1] ^ a[2] ^ a[3];
                    for i in 0..4 {
                        y[4 * c + i] = a[i] ^ t ^ xt(a[i] ^ a[(i + 1) % 4]);
                    }
                }
            }
            for i in 0..16 {
                x[i] = y[i] ^ self.rk[r][i];
            }
        }
        x
    }
}
fn ghash_table(h: u128) -> [u128; 16] {
    // table for 4-bit right-shifting multiplication
    let mut t = [0u128; 16];
    t[8] = h;
    let mut v = h;
    for i in [4usize, 2, 1] {
        v = (v >> 1) ^ if v & 1 != 0 { 0xe1u128 << 120 } else { 0 };
        t[i] = v;
    }
    for i in 1..16usize {
        if !i.is_power_of_two() {
            let hi = 1 << (usize::BITS - 1 - i.leading_zeros());
            t[i] = t[hi] ^ t[i ^ hi];
        }
    }
    t
}
fn red4() -> &'static [u128; 16] {
    use std::sync::OnceLock;
    static R: OnceLock<[u128; 16]> = OnceLock::new();
    R.get_or_init(|| {
        let mut r = [0u128; 16];
        for (i, x) in r.iter_mut().enumerate() {
            let mut v = i as u128;
            for _ in 0..4 {
                v = (v >> 1) ^ if v & 1 != 0 { 0xe1u128 << 120 } else { 0 };
            }
            *x = v;
        }
        r
    })
}
fn gmul(t: &[u128; 16], x: u128) -> u128 {
    let r = red4();
    let mut z = 0u128;
    for i in 0..32 {
        let nib = ((x >> (4 * i)) & 15) as usize;
        z = (z >> 4) ^ r[(z & 15) as usize];
        z ^= t[nib];
    }
    z
}
fn ghash(h: u128, aad: &[u8], ct: &[u8]) -> u128 {
    let t = ghash_table(h);
    let mut y = 0u128;
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = gmul(&t, y ^ u128::from_be_bytes(b));
        }
    }
    gmul(&t, y ^ (((aad.len() as u128) * 8) << 64 | (ct.len() as u128) * 8))
}
fn gcm_ctr(a: &Aes, iv: &[u8], m: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(m.len());
    let mut ctr = 2u32;
    for c in m.chunks(16) {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(iv);
        b[12..].copy_from_slice(&ctr.to_be_bytes());
        let k = a.enc(&b);
        out.extend(c.iter().zip(k.iter()).map(|(x, y)| x ^ y));
        ctr = ctr.wrapping_add(1);
    }
    out
}
fn gcm_tag(a: &Aes, iv: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let h = u128::from_be_bytes(a.enc(&[0; 16]));
    let mut b = [0u8; 16];
    b[..12].copy_from_slice(iv);
    b[15] = 1;
    let e = u128::from_be_bytes(a.enc(&b));
    (ghash(h, aad, ct) ^ e).to_be_bytes().to_vec()
}

// ---------------- ChaCha20-Poly1305 ----------------
fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut x = s;
    fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    }
    for _ in 0..10 {
        qr(&mut x, 0, 4, 8, 12);
        qr(&mut x, 1, 5, 9, 13);
        qr(&mut x, 2, 6, 10, 14);
        qr(&mut x, 3, 7, 11, 15);
        qr(&mut x, 0, 5, 10, 15);
        qr(&mut x, 1, 6, 11, 12);
        qr(&mut x, 2, 7, 8, 13);
        qr(&mut x, 3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    o
}
fn chacha_xor(key: &[u8], nonce: &[u8], m: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(m.len());
    for (i, c) in m.chunks(64).enumerate() {
        let k = chacha_block(key, 1 + i as u32, nonce);
        out.extend(c.iter().zip(k.iter()).map(|(a, b)| a ^ b));
    }
    out
}
fn poly1305(key: &[u8], m: &[u8]) -> [u8; 16] {
    // 26-bit limbs
    let le = |b: &[u8], i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as u64;
    let r = [
        le(key, 0) & 0x3ffffff,
        (le(key, 3) >> 2) & 0x3ffff03,
        (le(key, 6) >> 4) & 0x3ffc0ff,
        (le(key, 9) >> 6) & 0x3f03fff,
        (le(key, 12) >> 8) & 0x00fffff,
    ];
    let mut h = [0u64; 5];
    for c in m.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        h[0] += le(&b, 0) & 0x3ffffff;
        h[1] += (le(&b, 3) >> 2) & 0x3ffffff;
        h[2] += (le(&b, 6) >> 4) & 0x3ffffff;
        h[3] += (le(&b, 9) >> 6) & 0x3ffffff;
        h[4] += (le(&b, 12) >> 8) | ((b[16] as u64) << 24);
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let k = (i + j) % 5;
                let f = if i + j >= 5 { 5 } else { 1 };
                d[k] += h[i] * r[j] * f;
            }
        }
        let mut cr = 0;
        for i in 0..5 {
            d[i] += cr;
            cr = d[i] >> 26;
            h[i] = d[i] & 0x3ffffff;
        }
        h[0] += cr * 5;
        cr = h[0] >> 26;
        h[0] &= 0x3ffffff;
        h[1] += cr;
    }
    // full carry
    let mut cr = 0;
    for _ in 0..2 {
        for i in 0..5 {
            h[i] += cr;
            cr = h[i] >> 26;
            h[i] &= 0x3ffffff;
        }
        cr *= 5;
    }
    h[0] += cr;
    let mut g = [0u64; 5];
    let mut c = 5u64;
    for i in 0..5 {
        g[i] = h[i] + c;
        c = g[i] >> 26;
        g[i] &= 0x3ffffff;
    }
    let hh = if c > 0 { g } else { h };
    let v: u128 = (hh[0] as u128) | (hh[1] as u128) << 26 | (hh[2] as u128) << 52 | (hh[3] as u128) << 78 | (hh[4] as u128) << 104;
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    v.wrapping_add(s).to_le_bytes()
}
fn cc_tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let pk = chacha_block(key, 0, nonce);
    let mut m = aad.to_vec();
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(ct);
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&pk[..32], &m).to_vec()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Suite {
    Aes128,
    Aes256,
    ChaCha,
}
pub const SUITES: [Suite; 3] = [Suite::Aes128, Suite::Aes256, Suite::ChaCha];
impl Suite {
    pub fn code(self) -> u16 {
        match self {
            Suite::Aes128 => 0x1301,
            Suite::Aes256 => 0x1302,
            Suite::ChaCha => 0x1303,
        }
    }
    pub fn from(c: u16) -> Option<Suite> {
        SUITES.iter().copied().find(|s| s.code() == c)
    }
    pub fn hash(self) -> Hash {
        match self {
            Suite::Aes256 => Hash::S384,
            _ => Hash::S256,
        }
    }
    pub fn keylen(self) -> usize {
        match self {
            Suite::Aes128 => 16,
            _ => 32,
        }
    }
    pub fn seal(self, key: &[u8], nonce: &[u8], aad: &[u8], m: &[u8]) -> Vec<u8> {
        let mut ct;
        match self {
            Suite::ChaCha => {
                ct = chacha_xor(key, nonce, m);
                let t = cc_tag(key, nonce, aad, &ct);
                ct.extend_from_slice(&t);
            }
            _ => {
                let a = Aes::new(key);
                ct = gcm_ctr(&a, nonce, m);
                let t = gcm_tag(&a, nonce, aad, &ct);
                ct.extend_from_slice(&t);
            }
        }
        ct
    }
    pub fn open(self, key: &[u8], nonce: &[u8], aad: &[u8], c: &[u8]) -> Option<Vec<u8>> {
        if c.len() < 16 {
            return None;
        }
        let (ct, tag) = c.split_at(c.len() - 16);
        match self {
            Suite::ChaCha => {
                if cc_tag(key, nonce, aad, ct) != tag {
                    return None;
                }
                Some(chacha_xor(key, nonce, ct))
            }
            _ => {
                let a = Aes::new(key);
                if gcm_tag(&a, nonce, aad, ct) != tag {
                    return None;
                }
                Some(gcm_ctr(&a, nonce, ct))
            }
        }
    }
}

// ---------------- X25519 ----------------
type Fe = [u64; 5];
const M51: u64 = (1 << 51) - 1;
fn fe_from(b: &[u8; 32]) -> Fe {
    let l = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    [l(0) & M51, (l(6) >> 3) & M51, (l(12) >> 6) & M51, (l(19) >> 1) & M51, (l(24) >> 12) & M51]
}
fn fe_mul(a: &Fe, b: &Fe) -> Fe {
    let m = |x: u64, y: u64| x as u128 * y as u128;
    let b19 = [b[0], b[1] * 19, b[2] * 19, b[3] * 19, b[4] * 19];
    let mut r = [
        m(a[0], b[0]) + m(a[1], b19[4]) + m(a[2], b19[3]) + m(a[3], b19[2]) + m(a[4], b19[1]),
        m(a[0], b[1]) + m(a[1], b[0]) + m(a[2], b19[4]) + m(a[3], b19[3]) + m(a[4], b19[2]),
        m(a[0], b[2]) + m(a[1], b[1]) + m(a[2], b[0]) + m(a[3], b19[4]) + m(a[4], b19[3]),
        m(a[0], b[3]) + m(a[1], b[2]) + m(a[2], b[1]) + m(a[3], b[0]) + m(a[4], b19[4]),
        m(a[0], b[4]) + m(a[1], b[3]) + m(a[2], b[2]) + m(a[3], b[1]) + m(a[4], b[0]),
    ];
    let mut o = [0u64; 5];
    let mut c = 0u128;
    for i in 0..5 {
        r[i] += c;
        o[i] = (r[i] as u64) & M51;
        c = r[i] >> 51;
    }
    let c = c as u64 * 19 + o[0];
    o[0] = c & M51;
    o[1] += c >> 51;
    o
}
fn fe_add(a: &Fe, b: &Fe) -> Fe {
    let mut o = [0; 5];
    for i in 0..5 {
        o[i] = a[i] + b[i];
    }
    o
}
fn fe_carry(mut o: Fe) -> Fe {
    let mut c = 0;
    for x in o.iter_mut() {
        *x += c;
        c = *x >> 51;
        *x &= M51;
    }
    o[0] += c * 19;
    o
}
fn fe_sub(a: &Fe, b: &Fe) -> Fe {
    // a + 4p - b
    let p4 = [0x1fffffffffffb4u64, 0x1ffffffffffffc, 0x1ffffffffffffc, 0x1ffffffffffffc, 0x1ffffffffffffc];
    let mut o = [0; 5];
    for i in 0..5 {
        o[i] = a[i] + p4[i] - b[i];
    }
    fe_carry(o)
}
fn fe_to(a: Fe) -> [u8; 32] {
    let mut a = fe_carry(fe_carry(a));
    // subtract p if >= p
    let mut t = a;
    t[0] += 19;
    for i in 0..4 {
        t[i + 1] += t[i] >> 51;
        t[i] &= M51;
    }
    if t[4] >> 51 != 0 {
        t[4] &= M51;
        a = t;
    }
    let mut o = [0u8; 32];
    let mut acc: u128 = 0;
    let mut bits = 0;
    let mut k = 0;
    for x in a {
        acc |= (x as u128) << bits;
        bits += 51;
        while bits >= 8 && k < 32 {
            o[k] = acc as u8;
            acc >>= 8;
            bits -= 8;
            k += 1;
        }
    }
    if k < 32 {
        o[k] = acc as u8;
    }
    o
}
fn fe_inv(z: &Fe) -> Fe {
    // z^(p-2), p-2 = 2^255-21
    let mut r = [1, 0, 0, 0, 0];
    for i in (0..255).rev() {
        r = fe_mul(&r, &r);
        let bit = if i >= 5 { 1 } else { (0b01011 >> i) & 1 };
        if bit == 1 {
            r = fe_mul(&r, z);
        }
    }
    r
}
pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut e = *k;
    e[0] &= 248;
    e[31] &= 127;
    e[31] |= 64;
    let x1 = fe_from(u);
    let (mut x2, mut z2, mut x3, mut z3): (Fe, Fe, Fe, Fe) = ([1, 0, 0, 0, 0], [0; 5], x1, [1, 0, 0, 0, 0]);
    let mut swap = 0;
    for t in (0..255).rev() {
        let b = (e[t / 8] >> (t % 8)) & 1;
        if swap != b {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = b;
        let a = fe_add(&x2, &z2);
        let aa = fe_mul(&a, &a);
        let bb_ = fe_sub(&x2, &z2);
        let bb = fe_mul(&bb_, &bb_);
        let ee = fe_sub(&aa, &bb);
        let c = fe_add(&x3, &z3);
        let d = fe_sub(&x3, &z3);
        let da = fe_mul(&d, &a);
        let cb = fe_mul(&c, &bb_);
        let s = fe_add(&da, &cb);
        x3 = fe_mul(&s, &s);
        let s = fe_sub(&da, &cb);
        z3 = fe_mul(&x1, &fe_mul(&s, &s));
        x2 = fe_mul(&aa, &bb);
        z2 = fe_mul(&ee, &fe_add(&aa, &fe_mul(&[121665, 0, 0, 0, 0], &ee)));
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    fe_to(fe_mul(&x2, &fe_inv(&z2)))
}
pub fn x25519_base(k: &[u8; 32]) -> [u8; 32] {
    let mut u = [0u8; 32];
    u[0] = 9;
    x25519(k, &u)
}

// ---------------- P-256 / ECDSA ----------------
pub type U = [u64; 4];
#[derive(Clone, Copy)]
pub struct Mod {
    pub m: U,
    inv: u64, // -m^-1 mod 2^64
    r2: U,
}
fn cmp(a: &U, b: &U) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
fn addc(a: &U, b: &U) -> (U, bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
fn subb(a: &U, b: &U) -> (U, bool) {
    let mut o = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br as u64);
        o[i] = y;
        br = b1 || b2;
    }
    (o, br)
}
pub fn u_from(b: &[u8]) -> U {
    // big endian, up to 32 bytes
    let mut f = [0u8; 32];
    f[32 - b.len()..].copy_from_slice(b);
    let mut o = [0; 4];
    for i in 0..4 {
        o[3 - i] = u64::from_be_bytes(f[8 * i..8 * i + 8].try_into().unwrap());
    }
    o
}
pub fn u_to(a: &U) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&a[3 - i].to_be_bytes());
    }
    o
}
pub fn u_zero(a: &U) -> bool {
    *a == [0; 4]
}
impl Mod {
    pub fn new(m: U) -> Mod {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let mut md = Mod { m, inv: inv.wrapping_neg(), r2: [0; 4] };
        // r2 = 2^512 mod m by doubling
        let mut x: U = [1, 0, 0, 0];
        for _ in 0..512 {
            x = md.add(&x, &x);
        }
        md.r2 = x;
        md
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, c) = addc(a, b);
        if c || cmp(&s, &self.m) != std::cmp::Ordering::Less {
            subb(&s, &self.m).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (s, br) = subb(a, b);
        if br {
            addc(&s, &self.m).0
        } else {
            s
        }
    }
    pub fn reduce(&self, a: &U) -> U {
        if cmp(a, &self.m) != std::cmp::Ordering::Less {
            subb(a, &self.m).0
        } else {
            *a
        }
    }
    /// Montgomery product
    pub fn mm(&self, a: &U, b: &U) -> U {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let q = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + q as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + q as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || cmp(&r, &self.m) != std::cmp::Ordering::Less {
            subb(&r, &self.m).0
        } else {
            r
        }
    }
    pub fn to(&self, a: &U) -> U {
        self.mm(a, &self.r2)
    }
    pub fn from(&self, a: &U) -> U {
        self.mm(a, &[1, 0, 0, 0])
    }
    /// plain product
    pub fn mul(&self, a: &U, b: &U) -> U {
        self.mm(&self.to(a), b)
    }
    /// plain inverse (m prime)
    pub fn inv(&self, a: &U) -> U {
        let e = subb(&self.m, &[2, 0, 0, 0]).0;
        let b = self.to(a);
        let mut r = self.to(&[1, 0, 0, 0]);
        for i in (0..256).rev() {
            r = self.mm(&r, &r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.mm(&r, &b);
            }
        }
        self.from(&r)
    }
}
pub struct P256 {
    pub p: Mod,
    pub n: Mod,
    pub g: (U, U),
    b: U,
    table: Vec<J>, // 1..15 * G
}
type J = (U, U, U); // Jacobian, Montgomery form; z=0 infinity
pub fn p256() -> &'static P256 {
    use std::sync::OnceLock;
    static C: OnceLock<P256> = OnceLock::new();
    C.get_or_init(|| {
        let h = |s: &str| u_from(&unhex(s));
        let mut c = P256 {
            p: Mod::new(h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff")),
            n: Mod::new(h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")),
            g: (
                h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
                h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            ),
            b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            table: vec![],
        };
        let g = (c.p.to(&c.g.0), c.p.to(&c.g.1), c.p.to(&[1, 0, 0, 0]));
        let mut t = vec![([0; 4], [0; 4], [0; 4]), g];
        for i in 2..16 {
            let x = c.jadd(&t[i - 1], &g);
            t.push(x);
        }
        c.table = t;
        c
    })
}
impl P256 {
    fn dbl(&self, a: &J) -> J {
        if u_zero(&a.2) {
            return *a;
        }
        let p = &self.p;
        let delta = p.mm(&a.2, &a.2);
        let gamma = p.mm(&a.1, &a.1);
        let beta = p.mm(&a.0, &gamma);
        let t = p.mm(&p.sub(&a.0, &delta), &p.add(&a.0, &delta));
        let alpha = p.add(&p.add(&t, &t), &t);
        let b2 = p.add(&beta, &beta);
        let b4 = p.add(&b2, &b2);
        let b8 = p.add(&b4, &b4);
        let x = p.sub(&p.mm(&alpha, &alpha), &b8);
        let yz = p.add(&a.1, &a.2);
        let z = p.sub(&p.sub(&p.mm(&yz, &yz), &gamma), &delta);
        let g2 = p.mm(&gamma, &gamma);
        let g2 = p.add(&g2, &g2);
        let g4 = p.add(&g2, &g2);
        let g8 = p.add(&g4, &g4);
        let y = p.sub(&p.mm(&alpha, &p.sub(&b4, &x)), &g8);
        (x, y, z)
    }
    fn jadd(&self, a: &J, b: &J) -> J {
        if u_zero(&a.2) {
            return *b;
        }
        if u_zero(&b.2) {
            return *a;
        }
        let p = &self.p;
        let z1z1 = p.mm(&a.2, &a.2);
        let z2z2 = p.mm(&b.2, &b.2);
        let u1 = p.mm(&a.0, &z2z2);
        let u2 = p.mm(&b.0, &z1z1);
        let s1 = p.mm(&p.mm(&a.1, &b.2), &z2z2);
        let s2 = p.mm(&p.mm(&b.1, &a.2), &z1z1);
        if u1 == u2 {
            if s1 == s2 {
                return self.dbl(a);
            }
            return ([0; 4], [0; 4], [0; 4]);
        }
        let h = p.sub(&u2, &u1);
        let r = p.sub(&s2, &s1);
        let hh = p.mm(&h, &h);
        let hhh = p.mm(&h, &hh);
        let v = p.mm(&u1, &hh);
        let x = p.sub(&p.sub(&p.mm(&r, &r), &hhh), &p.add(&v, &v));
        let y = p.sub(&p.mm(&r, &p.sub(&v, &x)), &p.mm(&s1, &hhh));
        let z = p.mm(&p.mm(&a.2, &b.2), &h);
        (x, y, z)
    }
    fn mulj(&self, k: &U, t: &[J]) -> J {
        let mut r = ([0; 4], [0; 4], [0; 4]);
        for i in (0..64).rev() {
            for _ in 0..4 {
                r = self.dbl(&r);
            }
            let nib = (k[i / 16] >> (4 * (i % 16))) & 15;
            if nib != 0 {
                r = self.jadd(&r, &t[nib as usize]);
            }
        }
        r
    }
    fn affine(&self, a: &J) -> Option<(U, U)> {
        if u_zero(&a.2) {
            return None;
        }
        let p = &self.p;
        let zi = p.to(&p.inv(&p.from(&a.2)));
        let z2 = p.mm(&zi, &zi);
        Some((p.from(&p.mm(&a.0, &z2)), p.from(&p.mm(&p.mm(&a.1, &z2), &zi))))
    }
    pub fn base(&self, k: &U) -> Option<(U, U)> {
        self.affine(&self.mulj(k, &self.table))
    }
    fn mktable(&self, q: &(U, U)) -> Vec<J> {
        let g = (self.p.to(&q.0), self.p.to(&q.1), self.p.to(&[1, 0, 0, 0]));
        let mut t = vec![([0; 4], [0; 4], [0; 4]), g];
        for i in 2..16 {
            let x = self.jadd(&t[i - 1], &g);
            t.push(x);
        }
        t
    }
    pub fn on_curve(&self, q: &(U, U)) -> bool {
        let p = &self.p;
        if cmp(&q.0, &p.m) != std::cmp::Ordering::Less || cmp(&q.1, &p.m) != std::cmp::Ordering::Less {
            return false;
        }
        let x2 = p.mul(&q.0, &q.0);
        let x3 = p.mul(&x2, &q.0);
        let t = p.add(&p.add(&q.0, &q.0), &q.0);
        p.mul(&q.1, &q.1) == p.add(&p.sub(&x3, &t), &self.b)
    }
    pub fn e(&self, hash: &[u8]) -> U {
        self.n.reduce(&u_from(&hash[..hash.len().min(32)]))
    }
    pub fn sign_k(&self, d: &U, hash: &[u8], k: &U) -> Option<(U, U)> {
        let r = self.n.reduce(&self.base(k)?.0);
        if u_zero(&r) {
            return None;
        }
        let n = &self.n;
        let s = n.mul(&n.inv(k), &n.add(&self.e(hash), &n.mul(&r, d)));
        if u_zero(&s) {
            return None;
        }
        Some((r, s))
    }
    pub fn verify(&self, q: &(U, U), hash: &[u8], r: &U, s: &U) -> bool {
        let n = &self.n;
        for x in [r, s] {
            if u_zero(x) || cmp(x, &n.m) != std::cmp::Ordering::Less {
                return false;
            }
        }
        if !self.on_curve(q) {
            return false;
        }
        let w = n.inv(s);
        let u1 = n.mul(&self.e(hash), &w);
        let u2 = n.mul(r, &w);
        let a = self.mulj(&u1, &self.table);
        let b = self.mulj(&u2, &self.mktable(q));
        match self.affine(&self.jadd(&a, &b)) {
            None => false,
            Some((x, _)) => n.reduce(&x) == *r,
        }
    }
    /// nonce used for a signature, given the private key
    pub fn nonce(&self, d: &U, hash: &[u8], r: &U, s: &U) -> U {
        let n = &self.n;
        n.mul(&n.inv(s), &n.add(&self.e(hash), &n.mul(r, d)))
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    b.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn selftest() -> Result<(), String> {
    let chk = |n: &str, a: String, b: &str| if a == b { Ok(()) } else { Err(format!("{n}: {a} != {b}")) };
    chk("sha256", hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    chk("sha384", hex(&sha384(b"abc")), "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7")?;
    chk("hmac", hex(&Hash::S256.hmac(b"Jefe", b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")?;
    chk("hmac384", hex(&Hash::S384.hmac(b"Jefe", b"what do ya want for nothing?")), "af45d2e376484031617f78d2b58a6b1b9c7ef464f5a01b47e42ec3736322445e8e2240ca5e69e2c78b3239ecfab21649")?;
    let k = unhex("feffe9928665731c6d6a8f9467308308");
    let iv = unhex("cafebabefacedbaddecaf888");
    let pt = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
    let aad = unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2");
    let ct = Suite::Aes128.seal(&k, &iv, &aad, &pt);
    chk("gcm", hex(&ct[60..]), "5bc94fbc3221a5db94fae95ae7121a47")?;
    chk("gcm open", hex(&Suite::Aes128.open(&k, &iv, &aad, &ct).unwrap()), &hex(&pt))?;
    let k2 = unhex("feffe9928665731c6d6a8f9467308308feffe9928665731c6d6a8f9467308308");
    let ct = Suite::Aes256.seal(&k2, &iv, &aad, &pt);
    chk("gcm256", hex(&ct[60..]), "76fc6ece0f4e1768cddf8853bb2d551b")?;
    let key = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f");
    let nonce = unhex("070000004041424344454647");
    let aad = unhex("50515253c0c1c2c3c4c5c6c7");
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = Suite::ChaCha.seal(&key, &nonce, &aad, pt);
    chk("chacha", hex(&ct[114..]), "1ae10b594f09e26a7e902ecbd0600691")?;
    let a: [u8; 32] = unhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4").try_into().unwrap();
    let u: [u8; 32] = unhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c").try_into().unwrap();
    chk("x25519", hex(&x25519(&a, &u)), "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")?;
    let mut k = [0u8; 32];
    k[0] = 9;
    let mut uu = k;
    for i in 0..1000 {
        let r = x25519(&k, &uu);
        uu = k;
        k = r;
        if i == 0 {
            chk("x25519 1", hex(&k), "422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079")?;
        }
    }
    chk("x25519 1000", hex(&k), "684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51")?;
    // RFC 6979 A.2.5 P-256 SHA-256 "sample"
    let c = p256();
    let d = u_from(&unhex("C9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721"));
    let q = c.base(&d).unwrap();
    chk("p256 pub", hex(&u_to(&q.0)), "60fed4ba255a9d31c961eb74c6356d68c049b8923b61fa6ce669622e60f29fb6")?;
    let k = u_from(&unhex("A6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60"));
    let h = sha256(b"sample");
    let (r, s) = c.sign_k(&d, &h, &k).unwrap();
    chk("ecdsa r", hex(&u_to(&r)), "efd48b2aacb6a8fd1140dd9cd45e81d69d2c877b56aaf991c34d0ea84eaf3716")?;
    chk("ecdsa s", hex(&u_to(&s)), "f7cb1c942d657c41d436c7a1b6e29f65f3e900dbb9aff4064dc4ab2f843acda8")?;
    if !c.verify(&q, &h, &r, &s) || c.verify(&q, &sha256(b"x"), &r, &s) {
        return Err("ecdsa verify".into());
    }
    if c.nonce(&d, &h, &r, &s) != k {
        return Err("nonce".into());
    }
    Ok(())
}
