//! Independent TLS 1.3 record layer, key schedule, message codecs and scriptable peers.
use crate::crypto::*;
use crate::pki::{self, Key};
use crate::tape::{mix, Rng};
use crate::world::*;
use std::any::Any;

pub const CH: u8 = 1;
pub const SH: u8 = 2;
pub const NST: u8 = 4;
pub const EE: u8 = 8;
pub const CERT: u8 = 11;
pub const CREQ: u8 = 13;
pub const CV: u8 = 15;
pub const FIN: u8 = 20;
pub const MAX_PLAIN: usize = 16384;

// ---------------------------------------------------------------- reading
pub struct Rd<'a>(pub &'a [u8]);
pub type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return Err(format!("need {n} bytes, have {}", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok((b[0] as u16) << 8 | b[1] as u16)
    }
    pub fn u24(&mut self) -> R<usize> {
        let b = self.take(3)?;
        Ok((b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize)
    }
    pub fn v8(&mut self) -> R<&'a [u8]> {
        let n = self.u8()? as usize;
        self.take(n)
    }
    pub fn v16(&mut self) -> R<&'a [u8]> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    pub fn v24(&mut self) -> R<&'a [u8]> {
        let n = self.u24()?;
        self.take(n)
    }
    pub fn end(&self, what: &str) -> R<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} trailing bytes in {what}", self.0.len()))
        }
    }
    pub fn done(&self) -> bool {
        self.0.is_empty()
    }
}
pub fn be16(n: usize) -> Vec<u8> {
    vec![(n >> 8) as u8, n as u8]
}
pub fn v8(b: &[u8]) -> Vec<u8> {
    [&[b.len() as u8][..], b].concat()
}
pub fn v16(b: &[u8]) -> Vec<u8> {
    [&be16(b.len())[..], b].concat()
}
pub fn v24(b: &[u8]) -> Vec<u8> {
    let n = b.len();
    [&[(n >> 16) as u8, (n >> 8) as u8, n as u8][..], b].concat()
}
pub fn hs(t: u8, body: &[u8]) -> Vec<u8> {
    [vec![t], v24(body)].concat()
}
pub fn rec(t: u8, body: &[u8]) -> Vec<u8> {
    [vec![t, 3, 3], v16(body)].concat()
}
pub fn ext(t: u16, body: &[u8]) -> (u16, Vec<u8>) {
    (t, body.to_vec())
}
pub fn exts(l: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (t, b) in l {
        o.extend_from_slice(&t.to_be_bytes());
        o.extend_from_slice(&v16(b));
    }
    v16(&o)
}
pub fn parse_exts(b: &[u8]) -> R<Vec<(u16, Vec<u8>)>> {
    let mut r = Rd(b);
    let mut o: Vec<(u16, Vec<u8>)> = vec![];
    while !r.done() {
        let t = r.u16()?;
        let d = r.v16()?;
        if o.iter().any(|x| x.0 == t) {
            return Err(format!("duplicate extension {t}"));
        }
        o.push((t, d.to_vec()));
    }
    Ok(o)
}
fn list16(b: &[u8]) -> R<Vec<u16>> {
    let mut r = Rd(b);
    let mut o = vec![];
    while !r.done() {
        o.push(r.u16()?);
    }
    Ok(o)
}

// ---------------------------------------------------------------- messages
#[derive(Clone, Debug, Default)]
pub struct Ch {
    pub ver: u16,
    pub random: Vec<u8>,
    pub sid: Vec<u8>,
    pub suites: Vec<u16>,
    pub comp: Vec<u8>,
    pub exts: Vec<(u16, Vec<u8>)>,
}
impl Ch {
    pub fn parse(body: &[u8]) -> R<Ch> {
        let mut r = Rd(body);
        let ver = r.u16()?;
        let random = r.take(32)?.to_vec();
        let sid = r.v8()?.to_vec();
        if sid.len() > 32 {
            return Err("session id longer than 32".into());
        }
        let suites = list16(r.v16()?)?;
        let comp = r.v8()?.to_vec();
        let e = if r.done() { vec![] } else { parse_exts(r.v16()?)? };
        r.end("ClientHello")?;
        Ok(Ch { ver, random, sid, suites, comp, exts: e })
    }
    pub fn build(&self) -> Vec<u8> {
        let mut b = self.ver.to_be_bytes().to_vec();
        b.extend_from_slice(&self.random);
        b.extend_from_slice(&v8(&self.sid));
        let s: Vec<u8> = self.suites.iter().flat_map(|x| x.to_be_bytes()).collect();
        b.extend_from_slice(&v16(&s));
        b.extend_from_slice(&v8(&self.comp));
        b.extend_from_slice(&exts(&self.exts));
        hs(CH, &b)
    }
    pub fn ext(&self, t: u16) -> Option<&[u8]> {
        self.exts.iter().find(|x| x.0 == t).map(|x| &x.1[..])
    }
    pub fn shares(&self) -> R<Vec<(u16, Vec<u8>)>> {
        let e = self.ext(51).ok_or("no key_share")?;
        let mut r = Rd(e);
        let mut l = Rd(r.v16()?);
        r.end("key_share")?;
        let mut o = vec![];
        while !l.done() {
            let g = l.u16()?;
            o.push((g, l.v16()?.to_vec()));
        }
        Ok(o)
    }
    pub fn share(&self) -> Option<[u8; 32]> {
        self.shares().ok()?.into_iter().find(|x| x.0 == 29).and_then(|x| x.1.try_into().ok())
    }
    pub fn list(&self, t: u16) -> R<Vec<u16>> {
        let e = self.ext(t).ok_or(format!("no extension {t}"))?;
        let mut r = Rd(e);
        let l = if t == 43 { r.v8()? } else { r.v16()? };
        r.end("extension list")?;
        list16(l)
    }
    pub fn sni(&self) -> R<Option<Vec<u8>>> {
        match self.ext(0) {
            None => Ok(None),
            Some(e) => {
                let mut r = Rd(e);
                let mut l = Rd(r.v16()?);
                r.end("server_name")?;
                if l.u8()? != 0 {
                    return Err("server name type".into());
                }
                let n = l.v16()?.to_vec();
                l.end("server_name list")?;
                if n.is_empty() {
                    return Err("empty server name".into());
                }
                Ok(Some(n))
            }
        }
    }
    /// strict well-formedness of an offer
    pub fn check(&self) -> R<()> {
        if self.ver != 0x0303 {
            return Err("legacy_version is not 0x0303".into());
        }
        if self.comp != [0] {
            return Err("compression methods are not exactly [null]".into());
        }
        if self.suites.is_empty() {
            return Err("no cipher suites".into());
        }
        for s in &self.suites {
            if Suite::from(*s).is_none() {
                return Err(format!("offers a cipher suite it can not support: {s:04x}"));
            }
        }
        let v = self.list(43)?;
        if !v.contains(&0x0304) {
            return Err("TLS 1.3 not offered".into());
        }
        let sigs = self.list(13)?;
        if sigs.is_empty() {
            return Err("empty signature_algorithms".into());
        }
        let groups = self.list(10)?;
        let sh = self.shares()?;
        if sh.is_empty() {
            return Err("no key share".into());
        }
        for (g, k) in &sh {
            if !groups.contains(g) {
                return Err(format!("key share for group {g} not in supported_groups"));
            }
            if *g == 29 && k.len() != 32 {
                return Err("X25519 share is not 32 bytes".into());
            }
        }
        self.sni()?;
        if let Some(x) = self.exts.iter().position(|x| x.0 == 41) {
            if x + 1 != self.exts.len() {
                return Err("pre_shared_key is not last".into());
            }
        }
        Ok(())
    }
}
#[derive(Clone, Debug, Default)]
pub struct Sh {
    pub ver: u16,
    pub random: Vec<u8>,
    pub sid: Vec<u8>,
    pub suite: u16,
    pub comp: u8,
    pub exts: Vec<(u16, Vec<u8>)>,
}
impl Sh {
    pub fn parse(body: &[u8]) -> R<Sh> {
        let mut r = Rd(body);
        let s = Sh {
            ver: r.u16()?,
            random: r.take(32)?.to_vec(),
            sid: r.v8()?.to_vec(),
            suite: r.u16()?,
            comp: r.u8()?,
            exts: parse_exts(r.v16()?)?,
        };
        r.end("ServerHello")?;
        Ok(s)
    }
    pub fn build(&self) -> Vec<u8> {
        let mut b = self.ver.to_be_bytes().to_vec();
        b.extend_from_slice(&self.random);
        b.extend_from_slice(&v8(&self.sid));
        b.extend_from_slice(&self.suite.to_be_bytes());
        b.push(self.comp);
        b.extend_from_slice(&exts(&self.exts));
        hs(SH, &b)
    }
    pub fn ext(&self, t: u16) -> Option<&[u8]> {
        self.exts.iter().find(|x| x.0 == t).map(|x| &x.1[..])
    }
    pub fn share(&self) -> R<(u16, Vec<u8>)> {
        let mut r = Rd(self.ext(51).ok_or("no key_share in ServerHello")?);
        let g = r.u16()?;
        let k = r.v16()?.to_vec();
        r.end("ServerHello key_share")?;
        Ok((g, k))
    }
    /// strict check against the offer
    pub fn check(&self, ch: &Ch) -> R<()> {
        if self.ver != 0x0303 {
            return Err("ServerHello legacy_version is not 0x0303".into());
        }
        if self.sid != ch.sid {
            return Err("ServerHello does not echo the session id".into());
        }
        if !ch.suites.contains(&self.suite) || Suite::from(self.suite).is_none() {
            return Err(format!("selected suite {:04x} was not offered", self.suite));
        }
        if self.comp != 0 {
            return Err("compression selected".into());
        }
        if self.ext(43) != Some(&[3, 4][..]) {
            return Err("supported_versions in ServerHello is not 0x0304".into());
        }
        let (g, k) = self.share()?;
        if g != 29 || k.len() != 32 {
            return Err(format!("ServerHello key share group {g} length {}", k.len()));
        }
        if !ch.shares()?.iter().any(|x| x.0 == g) {
            return Err("ServerHello share for a group without a client share".into());
        }
        for (t, _) in &self.exts {
            if *t != 43 && *t != 51 {
                return Err(format!("extension {t} in ServerHello"));
            }
        }
        if self.random[24..].starts_with(b"DOWNGRD") {
            return Err("downgrade sentinel in ServerHello.random".into());
        }
        Ok(())
    }
}
#[derive(Clone, Debug, Default)]
pub struct CertMsg {
    pub ctx: Vec<u8>,
    pub chain: Vec<(Vec<u8>, Vec<u8>)>,
}
impl CertMsg {
    pub fn parse(b: &[u8]) -> R<CertMsg> {
        let mut r = Rd(b);
        let ctx = r.v8()?.to_vec();
        let mut l = Rd(r.v24()?);
        r.end("Certificate")?;
        let mut chain = vec![];
        while !l.done() {
            let c = l.v24()?.to_vec();
            if c.is_empty() {
                return Err("empty certificate entry".into());
            }
            let e = l.v16()?;
            parse_exts(e)?;
            chain.push((c, e.to_vec()));
        }
        Ok(CertMsg { ctx, chain })
    }
    pub fn build(&self) -> Vec<u8> {
        let mut l = vec![];
        for (c, e) in &self.chain {
            l.extend_from_slice(&v24(c));
            l.extend_from_slice(&v16(e));
        }
        hs(CERT, &[v8(&self.ctx), v24(&l)].concat())
    }
}
pub fn parse_creq(b: &[u8]) -> R<(Vec<u8>, Vec<u16>)> {
    let mut r = Rd(b);
    let ctx = r.v8()?.to_vec();
    let e = parse_exts(r.v16()?)?;
    r.end("CertificateRequest")?;
    let s = e.iter().find(|x| x.0 == 13).ok_or("CertificateRequest without signature_algorithms")?;
    let mut q = Rd(&s.1);
    let l = list16(q.v16()?)?;
    q.end("signature_algorithms")?;
    if l.is_empty() {
        return Err("empty signature_algorithms".into());
    }
    Ok((ctx, l))
}
pub fn parse_cv(b: &[u8]) -> R<(u16, Vec<u8>)> {
    let mut r = Rd(b);
    let s = r.u16()?;
    let v = r.v16()?.to_vec();
    r.end("CertificateVerify")?;
    Ok((s, v))
}
pub fn cv_input(server: bool, th: &[u8]) -> Vec<u8> {
    let mut m = vec![0x20; 64];
    m.extend_from_slice(if server { b"TLS 1.3, server CertificateVerify" } else { b"TLS 1.3, client CertificateVerify" });
    m.push(0);
    m.extend_from_slice(th);
    m
}

// ---------------------------------------------------------------- keys
#[derive(Clone, Debug)]
pub struct Dir {
    pub suite: Suite,
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}
impl Dir {
    pub fn new(suite: Suite, secret: &[u8]) -> Dir {
        let h = suite.hash();
        Dir {
            suite,
            secret: secret.to_vec(),
            key: h.expand_label(secret, "key", &[], suite.keylen()),
            iv: h.expand_label(secret, "iv", &[], 12),
            seq: 0,
        }
    }
    fn nonce(&self) -> Vec<u8> {
        let mut n = self.iv.clone();
        for i in 0..8 {
            n[11 - i] ^= (self.seq >> (8 * i)) as u8;
        }
        n
    }
    pub fn seal(&mut self, ct: u8, data: &[u8], pad: usize) -> Vec<u8> {
        self.seal_as(23, ct, data, pad)
    }
    pub fn seal_as(&mut self, outer: u8, ct: u8, data: &[u8], pad: usize) -> Vec<u8> {
        let mut m = data.to_vec();
        m.push(ct);
        m.resize(m.len() + pad, 0);
        let mut hd = vec![outer, 3, 3];
        hd.extend_from_slice(&be16(m.len() + 16));
        let c = self.suite.seal(&self.key, &self.nonce(), &hd, &m);
        self.seq += 1;
        hd.extend_from_slice(&c);
        hd
    }
    /// full record -> (content type, content, padding)
    pub fn open(&mut self, rec: &[u8]) -> R<(u8, Vec<u8>, usize)> {
        let m = self
            .suite
            .open(&self.key, &self.nonce(), &rec[..5], &rec[5..])
            .ok_or_else(|| format!("record does not open with sequence number {}", self.seq))?;
        self.seq += 1;
        let n = m.iter().rposition(|x| *x != 0).ok_or("record of zeros")?;
        Ok((m[n], m[..n].to_vec(), m.len() - n - 1))
    }
}
#[derive(Clone, Debug)]
pub struct Ks {
    pub suite: Suite,
    pub hs: Vec<u8>,
    pub c_hs: Vec<u8>,
    pub s_hs: Vec<u8>,
    pub c_ap: Vec<u8>,
    pub s_ap: Vec<u8>,
}
impl Ks {
    pub fn new(suite: Suite, shared: &[u8], transcript: &[u8]) -> Ks {
        let h = suite.hash();
        let z = vec![0u8; h.len()];
        let early = h.extract(&z, &z);
        let d = h.expand_label(&early, "derived", &h.h(b""), h.len());
        let hsx = h.extract(&d, shared);
        let th = h.h(transcript);
        Ks {
            suite,
            c_hs: h.expand_label(&hsx, "c hs traffic", &th, h.len()),
            s_hs: h.expand_label(&hsx, "s hs traffic", &th, h.len()),
            hs: hsx,
            c_ap: vec![],
            s_ap: vec![],
        }
    }
    pub fn app(&mut self, transcript: &[u8]) {
        let h = self.suite.hash();
        let d = h.expand_label(&self.hs, "derived", &h.h(b""), h.len());
        let m = h.extract(&d, &vec![0u8; h.len()]);
        let th = h.h(transcript);
        self.c_ap = h.expand_label(&m, "c ap traffic", &th, h.len());
        self.s_ap = h.expand_label(&m, "s ap traffic", &th, h.len());
    }
}
pub fn finished(suite: Suite, secret: &[u8], transcript: &[u8]) -> Vec<u8> {
    let h = suite.hash();
    let fk = h.expand_label(secret, "finished", &[], h.len());
    h.hmac(&fk, &h.h(transcript))
}

// ---------------------------------------------------------------- application script
#[derive(Clone, Debug)]
pub struct Round {
    pub len: [usize; 2], // bytes written by the client / by the server in this round
}
#[derive(Clone, Debug)]
pub struct Script {
    pub rounds: Vec<Round>,
    pub seed: u64,
    pub wmode: [u64; 2],
    pub rmode: [u64; 2],
    /// side (0 client, 1 server) that performs one extra read at the end and must get an error
    pub extra: Option<usize>,
}
impl Script {
    pub fn none() -> Script {
        Script { rounds: vec![], seed: 0, wmode: [0; 2], rmode: [0; 2], extra: None }
    }
    pub fn total(&self, side: usize) -> usize {
        self.rounds.iter().map(|r| r.len[side]).sum()
    }
    /// content of the stream written by `side`
    pub fn content(&self, side: usize, off: usize, len: usize) -> Vec<u8> {
        stream_bytes(mix(self.seed ^ (side as u64 + 1)), off, len)
    }
}
pub fn stream_bytes(seed: u64, off: usize, len: usize) -> Vec<u8> {
    let mut o = Vec::with_capacity(len + 8);
    let mut w = off / 8;
    while o.len() < len + off % 8 {
        o.extend_from_slice(&mix(seed.wrapping_add(w as u64 * 0x9E37_79B9)).to_le_bytes());
        w += 1;
    }
    o[off % 8..off % 8 + len].to_vec()
}
/// write mode: as many records as possible
pub const TINY: u64 = 100;
/// how big the next write of a script is
pub fn write_size(mode: u64, r: &mut Rng, left: usize) -> usize {
    let n = match mode {
        0 => left,
        1 => 1 + r.below(64) as usize,
        2 => [0, 1, 15, 16, 17, 63, 64, 65, 127, 128][r.below(10) as usize],
        3 => 1 + r.below(5000) as usize,
        4 => 16384 - 2 + r.below(5) as usize,
        5 => 4096 - 25 + r.below(50) as usize,
        TINY => 1 + (r.below(64) == 0) as usize,
        _ => 20_000 + r.below(40_000) as usize,
    };
    n.min(left)
}
pub fn read_size(mode: u64, r: &mut Rng) -> usize {
    match mode {
        0 => 65536,
        1 => 1 + r.below(16) as usize,
        2 => 1 + r.below(300) as usize,
        3 => 4096,
        4 => 1 + r.below(20_000) as usize,
        5 => 16384,
        7 => [65_535usize, 65_536, 65_537, 131_072, 1 << 20][r.below(5) as usize],
        _ => 1,
    }
}

// ---------------------------------------------------------------- peers
#[derive(Clone, Debug)]
pub struct Frame {
    pub mode: u64, // 0 one message per record, 1 coalesced, 2 random chop, 3 fixed small pieces
    pub piece: usize,
    pub pad: u64, // 0 none, 1 small, 2 large, 3 up to the maximum
    pub ccs: bool,
    pub app_empty: bool,
    pub app_max: usize,
    pub split_send: bool,
    /// further change_cipher_spec records, one bit per place
    pub ccs_more: u64,
}
impl Frame {
    pub fn plain() -> Frame {
        Frame { mode: 0, piece: 1, pad: 0, ccs: true, app_empty: false, app_max: MAX_PLAIN, split_send: false, ccs_more: 0 }
    }
}
pub type Mk = Box<dyn FnOnce(&mut Peer) -> Vec<u8>>;
pub enum Step {
    Msg(&'static str, Mk),
    /// a message that is sent but not made part of the transcript
    Ghost(&'static str, Mk),
    Ccs,
    KeyHs,
    KeyAp,
    KeyNone,
    KeyRand,
    Alert(u8, u8),
    Enc(u8, Vec<u8>),
    Raw(Vec<u8>),
    Flush,
    Close,
    Reset,
    Go,
    /// everything that follows is sent only after more data arrived / the delay passed
    Sleep(u64),
    Fun(Box<dyn FnOnce(&mut Peer, &mut World)>),
}
impl Step {
    pub fn label(&self) -> &'static str {
        match self {
            Step::Msg(l, _) | Step::Ghost(l, _) => l,
            Step::Ccs => "ccs",
            Step::KeyHs => "keyhs",
            Step::KeyAp => "keyap",
            Step::KeyNone => "keynone",
            Step::KeyRand => "keyrand",
            Step::Alert(..) => "alert",
            Step::Enc(..) => "enc",
            Step::Raw(..) => "raw",
            Step::Flush => "flush",
            Step::Close => "close",
            Step::Reset => "reset",
            Step::Go => "go",
            Step::Sleep(_) => "sleep",
            Step::Fun(_) => "fun",
        }
    }
}
pub fn msg(l: &'static str, f: impl FnOnce(&mut Peer) -> Vec<u8> + 'static) -> Step {
    Step::Msg(l, Box::new(f))
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PeerEnd {
    Close,
    NotifyClose,
    Alert(u8),
    Linger,
    Reset,
}

pub struct Peer {
    pub server: bool,
    pub conn: usize,
    pub side: usize,
    pub rng: Rng,
    // keys and identity
    pub xk: [u8; 32],
    pub share_override: Option<Vec<u8>>, // share bytes actually sent
    pub shared_override: Option<Vec<u8>>,
    pub key: Option<Key>,
    pub chain: Vec<Vec<u8>>,
    // parameters
    pub ch: Ch,       // client role: what is offered; server role: what was received
    pub sh: Option<Sh>,
    pub suite: Option<Suite>, // server role: suite to select
    pub creq: Option<(Vec<u8>, Vec<u8>)>, // server: context, extension block body; client: as received
    pub ee: Vec<(u16, Vec<u8>)>,
    pub frame: Frame,
    pub script: Script,
    pub end: PeerEnd,
    pub half_rtt: bool,
    // expectations about the other side
    pub expect_cert: Option<Vec<u8>>,
    pub expect_point: Option<(U, U)>,
    pub need_client_cert: bool,
    pub refuse_empty: bool,
    /// signatures with a short encoding
    pub sig_short: bool,
    // steps
    pub on_start: Vec<Step>,
    pub flight: Option<Box<dyn FnOnce(&mut Peer) -> Vec<Step>>>,
    pub start_delay: u64,
    // state
    pub rxbuf: Vec<u8>,
    pub hsbuf: Vec<u8>,
    pub rx: Option<Dir>,
    pub tx: Option<Dir>,
    pub ks: Option<Ks>,
    pub transcript: Vec<u8>,
    pub th_server_fin: Option<Vec<u8>>,
    pub stage: &'static str,
    pub done: bool,
    pub fail: Option<String>,
    pub alert: Option<(u8, u8, bool)>, // level, description, was in clear
    pub alerts_seen: usize,
    pub after_alert: usize,
    pub eof: Option<bool>,
    pub peer_chain: Vec<Vec<u8>>,
    pub got: Vec<u8>,
    pub sent: usize,
    pub round: usize,
    pub running: bool,
    pub wrote_round: bool,
    pub finished_script: bool,
    pub pend: Vec<Vec<u8>>, // handshake messages waiting for framing
    pub out: Vec<u8>,
    pub queue: std::collections::VecDeque<Step>,
    pub sleeping: bool,
    pub sent_msgs: Vec<(&'static str, Vec<u8>)>,
    pub got_msgs: Vec<Vec<u8>>,
    pub stop: bool, // ignore everything from now on
    pub close_on_fail: bool,
    pub ignore_bad: bool,
    pub lax: bool,           // go on with a ServerHello that breaks the rules
    pub saved: Vec<Vec<u8>>, // free use by scenarios
    pub pad_budget: usize,   // bytes of padding this peer may still send
}

impl Peer {
    pub fn new(server: bool, seed: u64) -> Peer {
        let mut rng = Rng::new(mix(seed ^ 0x0bee_0000 ^ server as u64));
        let mut xk = [0u8; 32];
        xk.copy_from_slice(&rng.bytes(32));
        Peer {
            server,
            conn: 0,
            side: 0,
            rng,
            xk,
            share_override: None,
            shared_override: None,
            key: None,
            chain: vec![],
            ch: Ch::default(),
            sh: None,
            suite: None,
            creq: None,
            ee: vec![],
            frame: Frame::plain(),
            script: Script::none(),
            end: PeerEnd::Close,
            half_rtt: false,
            expect_cert: None,
            expect_point: None,
            need_client_cert: false,
            refuse_empty: false,
            sig_short: false,
            on_start: vec![],
            flight: None,
            start_delay: 0,
            rxbuf: vec![],
            hsbuf: vec![],
            rx: None,
            tx: None,
            ks: None,
            transcript: vec![],
            th_server_fin: None,
            stage: "start",
            done: false,
            fail: None,
            alert: None,
            alerts_seen: 0,
            after_alert: 0,
            eof: None,
            peer_chain: vec![],
            got: vec![],
            sent: 0,
            round: 0,
            running: false,
            wrote_round: false,
            finished_script: false,
            pend: vec![],
            out: vec![],
            queue: Default::default(),
            sleeping: false,
            sent_msgs: vec![],
            got_msgs: vec![],
            stop: false,
            close_on_fail: true,
            ignore_bad: false,
            lax: false,
            saved: vec![],
            pad_budget: 60_000,
        }
    }
    pub fn hash(&self) -> Hash {
        self.ks.as_ref().map(|k| k.suite.hash()).unwrap_or(Hash::S256)
    }
    pub fn th(&self) -> Vec<u8> {
        self.hash().h(&self.transcript)
    }
    pub fn my_hs(&self) -> Vec<u8> {
        let k = self.ks.as_ref().expect("keys");
        if self.server {
            k.s_hs.clone()
        } else {
            k.c_hs.clone()
        }
    }
    pub fn dirs(&self, app: bool) -> (Dir, Dir) {
        // (tx, rx)
        let k = self.ks.as_ref().unwrap();
        let (c, s) = if app { (&k.c_ap, &k.s_ap) } else { (&k.c_hs, &k.s_hs) };
        let (c, s) = (Dir::new(k.suite, c), Dir::new(k.suite, s));
        if self.server {
            (s, c)
        } else {
            (c, s)
        }
    }
    pub fn pubshare(&self) -> Vec<u8> {
        self.share_override.clone().unwrap_or_else(|| x25519_base(&self.xk).to_vec())
    }
    // ------------------------------------------------------------ builders
    pub fn mk_sh(&mut self) -> Vec<u8> {
        let suite = self.suite.expect("suite");
        let mut e = vec![ext(43, &[3, 4]), ext(51, &[vec![0, 29], v16(&self.pubshare())].concat())];
        if self.rng.below(2) == 1 {
            e.reverse();
        }
        let sh = Sh { ver: 0x0303, random: self.rng.bytes(32), sid: self.ch.sid.clone(), suite: suite.code(), comp: 0, exts: e };
        let b = sh.build();
        self.sh = Some(sh);
        b
    }
    pub fn mk_ee(&mut self) -> Vec<u8> {
        hs(EE, &exts(&self.ee))
    }
    pub fn mk_creq(&mut self) -> Vec<u8> {
        let (c, e) = self.creq.clone().unwrap_or_default();
        hs(CREQ, &[v8(&c), v16(&e)].concat())
    }
    pub fn mk_cert(&mut self) -> Vec<u8> {
        let ctx = if self.server { vec![] } else { self.creq.as_ref().map(|x| x.0.clone()).unwrap_or_default() };
        CertMsg { ctx, chain: self.chain.iter().map(|c| (c.clone(), vec![])).collect() }.build()
    }
    pub fn sign_cv(&mut self, key: &Key, server_ctx: bool, th: &[u8]) -> Vec<u8> {
        let d = sha256(&cv_input(server_ctx, th));
        let (mut r, mut s) = key.sign(&mut self.rng, &d);
        if self.sig_short {
            // of many valid signatures the one with the shortest encoding
            let mut best = pki::der_sig(&r, &s).len();
            for k in crate::env::short_nonces() {
                let Some((r1, s1)) = p256().sign_k(&key.d, &d, k) else { continue };
                for s2 in [s1, p256().n.sub(&[0; 4], &s1)] {
                    let l = pki::der_sig(&r1, &s2).len();
                    if l < best {
                        (best, r, s) = (l, r1, s2);
                    }
                }
            }
        }
        pki::der_sig(&r, &s)
    }
    pub fn cv_bytes(scheme: u16, sig: &[u8]) -> Vec<u8> {
        hs(CV, &[scheme.to_be_bytes().to_vec(), v16(sig)].concat())
    }
    pub fn mk_cv(&mut self) -> Vec<u8> {
        let th = self.th();
        let k = self.key.clone().expect("signing key");
        let s = self.sign_cv(&k, self.server, &th);
        Self::cv_bytes(0x0403, &s)
    }
    pub fn mk_fin(&mut self) -> Vec<u8> {
        let v = finished(self.ks.as_ref().unwrap().suite, &self.my_hs(), &self.transcript);
        hs(FIN, &v)
    }
    // ------------------------------------------------------------ default flights
    pub fn server_steps(&self) -> Vec<Step> {
        let mut v = vec![msg("sh", |p| p.mk_sh())];
        if self.frame.ccs {
            v.push(Step::Ccs);
        }
        v.push(Step::KeyHs);
        v.push(msg("ee", |p| p.mk_ee()));
        if self.creq.is_some() {
            v.push(msg("creq", |p| p.mk_creq()));
        }
        v.push(msg("cert", |p| p.mk_cert()));
        v.push(msg("cv", |p| p.mk_cv()));
        v.push(msg("fin", |p| p.mk_fin()));
        v.push(Step::KeyAp);
        if self.half_rtt {
            v.push(Step::Go);
        }
        self.more_ccs(v, 1)
    }
    /// change_cipher_spec may come at any time before the Finished message
    fn more_ccs(&self, v: Vec<Step>, from: usize) -> Vec<Step> {
        let (mut o, mut open) = (vec![], true);
        for (i, s) in v.into_iter().enumerate() {
            if i >= from && open && self.frame.ccs_more >> (i % 60) & 1 == 1 {
                o.push(Step::Ccs);
            }
            open &= s.label() != "fin";
            o.push(s);
        }
        o
    }
    pub fn client_steps(&self) -> Vec<Step> {
        let mut v = vec![];
        if self.frame.ccs {
            v.push(Step::Ccs);
        }
        v.push(Step::KeyHs);
        if self.creq.is_some() {
            v.push(msg("cert", |p| p.mk_cert()));
            if !self.chain.is_empty() {
                v.push(msg("cv", |p| p.mk_cv()));
            }
        }
        v.push(msg("fin", |p| p.mk_fin()));
        v.push(Step::KeyAp);
        v.push(Step::Go);
        self.more_ccs(v, 0)
    }
    // ------------------------------------------------------------ sending
    fn pad(&mut self, w: &mut World, room: usize) -> usize {
        let n = match self.frame.pad {
            0 => 0,
            1 => w.tape.choose("pad", self.conn as u32, 40) as usize,
            2 => w.tape.choose("pad", self.conn as u32, 1000) as usize,
            _ => {
                if w.tape.chance("pad", self.conn as u32, 1, 3) {
                    room
                } else {
                    0
                }
            }
        };
        let n = n.min(room).min(self.pad_budget);
        self.pad_budget -= n;
        n
    }
    pub fn put(&mut self, w: &mut World, ct: u8, data: &[u8]) {
        match self.tx.is_some() {
            true => {
                let p = self.pad(w, MAX_PLAIN.saturating_sub(data.len()));
                let r = self.tx.as_mut().unwrap().seal(ct, data, p);
                self.out.extend_from_slice(&r);
            }
            false => {
                let mut r = rec(ct, data);
                if ct == 22 && !self.server && self.frame.pad > 0 {
                    r[2] = 1; // initial ClientHello may carry 0x0301
                }
                self.out.extend_from_slice(&r);
            }
        }
    }
    pub fn frame_out(&mut self, w: &mut World) {
        let pend = std::mem::take(&mut self.pend);
        if pend.is_empty() {
            return;
        }
        let key = self.conn as u32;
        match self.frame.mode {
            0 => {
                for m in pend {
                    for c in m.chunks(MAX_PLAIN) {
                        self.put(w, 22, c);
                    }
                }
            }
            1 => {
                let all = pend.concat();
                for c in all.chunks(MAX_PLAIN) {
                    self.put(w, 22, c);
                }
            }
            m => {
                let all = pend.concat();
                let mut rest = &all[..];
                let mut n = 0;
                while !rest.is_empty() {
                    let l = if n > 200 {
                        MAX_PLAIN
                    } else if m == 2 {
                        match w.tape.choose("frag", key, 6) {
                            0 => rest.len(),
                            1 => 1 + w.tape.choose("frag", key, 4) as usize,
                            2 => 4,
                            3 => 1 + w.tape.choose("frag", key, 60) as usize,
                            4 => 1 + w.tape.choose("frag", key, 700) as usize,
                            _ => pend[0].len().max(1),
                        }
                    } else {
                        self.frame.piece.max(1)
                    };
                    let l = l.min(rest.len()).min(MAX_PLAIN);
                    self.put(w, 22, &rest[..l]);
                    rest = &rest[l..];
                    n += 1;
                }
            }
        }
    }
    pub fn flush(&mut self, w: &mut World) {
        self.frame_out(w);
        if !self.out.is_empty() {
            let o = std::mem::take(&mut self.out);
            if self.frame.split_send {
                // separate send calls at record boundaries
                let mut rest = &o[..];
                while !rest.is_empty() {
                    let n = if rest.len() >= 5 { (5 + ((rest[3] as usize) << 8 | rest[4] as usize)).min(rest.len()) } else { rest.len() };
                    w.node_send(self.conn, self.side, &rest[..n]);
                    rest = &rest[n..];
                }
            } else {
                w.node_send(self.conn, self.side, &o);
            }
        }
    }
    pub fn run_steps(&mut self, w: &mut World, me: NodeId, steps: Vec<Step>) {
        self.queue.extend(steps);
        self.pump_steps(w, me);
    }
    pub fn derive_hs(&mut self) {
        let suite = self.suite.expect("suite");
        let shared = match &self.shared_override {
            Some(s) => s.clone(),
            None => {
                let theirs = if self.server {
                    self.ch.share()
                } else {
                    self.sh.as_ref().and_then(|s| s.share().ok()).and_then(|s| s.1.try_into().ok())
                };
                match theirs {
                    Some(t) => x25519(&self.xk, &t).to_vec(),
                    None => vec![0; 32],
                }
            }
        };
        self.ks = Some(Ks::new(suite, &shared, &self.transcript));
    }
    fn pump_steps(&mut self, w: &mut World, me: NodeId) {
        while let Some(s) = self.queue.pop_front() {
            if self.sleeping {
                self.queue.push_front(s);
                return;
            }
            match s {
                Step::Msg(l, f) => {
                    let b = f(self);
                    self.transcript.extend_from_slice(&b);
                    self.sent_msgs.push((l, b.clone()));
                    self.pend.push(b);
                    if l == "sh" {
                        self.derive_hs();
                        let (_, rx) = self.dirs(false);
                        self.rx = Some(rx);
                        self.stage = "second";
                    }
                    if l == "fin" && self.server {
                        self.th_server_fin = Some(self.transcript.clone());
                        let t = self.transcript.clone();
                        self.ks.as_mut().unwrap().app(&t);
                    }
                }
                Step::Ghost(l, f) => {
                    let b = f(self);
                    self.sent_msgs.push((l, b.clone()));
                    self.pend.push(b);
                }
                Step::Ccs => {
                    self.frame_out(w);
                    self.out.extend_from_slice(&rec(20, &[1]));
                }
                Step::KeyHs => {
                    self.frame_out(w);
                    self.tx = Some(self.dirs(false).0);
                }
                Step::KeyAp => {
                    self.frame_out(w);
                    if self.ks.as_ref().map(|k| k.c_ap.is_empty()).unwrap_or(true) {
                        let t = self.th_server_fin.clone().unwrap_or_else(|| self.transcript.clone());
                        if let Some(k) = self.ks.as_mut() {
                            k.app(&t);
                        }
                    }
                    if self.ks.is_some() {
                        self.tx = Some(self.dirs(true).0);
                    }
                    if !self.server {
                        self.rx = Some(self.dirs(true).1);
                        self.done = true;
                        self.stage = "app";
                    }
                }
                Step::KeyNone => {
                    self.frame_out(w);
                    self.tx = None;
                }
                Step::KeyRand => {
                    self.frame_out(w);
                    let s = self.rng.bytes(self.hash().len());
                    self.tx = Some(Dir::new(self.suite.unwrap_or(Suite::Aes128), &s));
                }
                Step::Alert(l, d) => {
                    self.frame_out(w);
                    self.put(w, 21, &[l, d]);
                }
                Step::Enc(ct, d) => {
                    self.frame_out(w);
                    self.put(w, ct, &d);
                }
                Step::Raw(b) => {
                    self.frame_out(w);
                    self.out.extend_from_slice(&b);
                }
                Step::Flush => self.flush(w),
                Step::Close => {
                    self.flush(w);
                    self.stop = true;
                    w.node_close(self.conn, self.side);
                }
                Step::Reset => {
                    self.flush(w);
                    self.stop = true;
                    w.node_reset(self.conn, self.side);
                }
                Step::Go => {
                    self.frame_out(w);
                    self.running = true;
                    self.advance(w, me);
                }
                Step::Sleep(d) => {
                    self.flush(w);
                    self.sleeping = true;
                    w.after(d, Ev::Timer(me, 1));
                    return;
                }
                Step::Fun(f) => f(self, w),
            }
        }
        self.flush(w);
    }
    // ------------------------------------------------------------ receiving
    fn bad(&mut self, w: &mut World, why: impl Into<String>) {
        if self.ignore_bad {
            return;
        }
        if self.fail.is_none() {
            let why = why.into();
            w.note.push(format!("peer({}) fails: {why}", if self.server { "server" } else { "client" }));
            self.fail = Some(why);
        }
        self.stop = true;
        self.flush(w);
        if self.close_on_fail {
            w.node_close(self.conn, self.side);
        }
    }
    fn pump(&mut self, w: &mut World, me: NodeId) {
        while !self.stop && self.rxbuf.len() >= 5 {
            let n = 5 + ((self.rxbuf[3] as usize) << 8 | self.rxbuf[4] as usize);
            if self.rxbuf.len() < n {
                break;
            }
            let r: Vec<u8> = self.rxbuf.drain(..n).collect();
            self.record(w, me, &r);
        }
        self.flush(w);
    }
    fn record(&mut self, w: &mut World, me: NodeId, r: &[u8]) {
        if self.alert.is_some() {
            self.after_alert += 1;
        }
        match r[0] {
            20 => {}
            21 => {
                self.alerts_seen += 1;
                if self.alert.is_none() && r.len() == 7 {
                    self.alert = Some((r[5], r[6], true));
                }
                self.stage = "alerted";
            }
            22 if self.rx.is_none() => {
                self.hsbuf.extend_from_slice(&r[5..]);
                self.messages(w, me);
            }
            23 if self.rx.is_some() => {
                let o = self.rx.as_mut().unwrap().open(r);
                match o {
                    Err(e) => self.bad(w, e),
                    Ok((22, m, _)) => {
                        self.hsbuf.extend_from_slice(&m);
                        self.messages(w, me);
                    }
                    Ok((21, m, _)) => {
                        self.alerts_seen += 1;
                        if self.alert.is_none() && m.len() == 2 {
                            self.alert = Some((m[0], m[1], false));
                        }
                    }
                    Ok((23, m, _)) => {
                        if !self.done {
                            return self.bad(w, "application data before the handshake is complete");
                        }
                        self.got.extend_from_slice(&m);
                        self.advance(w, me);
                    }
                    Ok((t, _, _)) => self.bad(w, format!("inner content type {t}")),
                }
            }
            t => self.bad(w, format!("record of type {t} in stage {}", self.stage)),
        }
    }
    fn messages(&mut self, w: &mut World, me: NodeId) {
        while !self.stop && self.hsbuf.len() >= 4 {
            let n = 4 + ((self.hsbuf[1] as usize) << 16 | (self.hsbuf[2] as usize) << 8 | self.hsbuf[3] as usize);
            if self.hsbuf.len() < n {
                return;
            }
            let m: Vec<u8> = self.hsbuf.drain(..n).collect();
            self.got_msgs.push(m.clone());
            if let Err(e) = self.message(w, me, &m) {
                self.bad(w, e);
            }
        }
    }
    fn message(&mut self, w: &mut World, me: NodeId, m: &[u8]) -> R<()> {
        let body = &m[4..];
        let stage = self.stage;
        match (self.server, stage, m[0]) {
            (true, "start", CH) => {
                self.ch = Ch::parse(body)?;
                self.transcript.extend_from_slice(m);
                if let Some(f) = self.flight.take() {
                    let st = f(self);
                    self.run_steps(w, me, st);
                } else {
                    let st = self.server_steps();
                    self.run_steps(w, me, st);
                }
                Ok(())
            }
            (true, "second", CERT) if self.creq.is_some() && self.peer_chain.is_empty() && !self.saved_flag("empty") => {
                let c = CertMsg::parse(body)?;
                if c.ctx != self.creq.as_ref().unwrap().0 {
                    return Err("certificate context mismatch".into());
                }
                if c.chain.is_empty() {
                    if self.refuse_empty {
                        self.put(w, 21, &[2, 116]);
                        return Err("client sent no certificate".into());
                    }
                    self.saved.push(b"empty".to_vec());
                } else {
                    if let Some(e) = &self.expect_cert {
                        if *e != c.chain[0].0 {
                            return Err("unexpected client certificate".into());
                        }
                    }
                    self.peer_chain = c.chain.into_iter().map(|x| x.0).collect();
                    self.stage = "second_cv";
                }
                self.transcript.extend_from_slice(m);
                Ok(())
            }
            (true, "second_cv", CV) => {
                self.check_cv(body, false)?;
                self.transcript.extend_from_slice(m);
                self.stage = "second";
                Ok(())
            }
            (true, "second", FIN) => {
                if self.creq.is_some() && self.peer_chain.is_empty() && !self.saved_flag("empty") {
                    return Err("client skipped its Certificate".into());
                }
                let k = self.ks.as_ref().unwrap();
                if finished(k.suite, &k.c_hs, &self.transcript) != body {
                    return Err("client Finished is wrong".into());
                }
                self.transcript.extend_from_slice(m);
                if !self.hsbuf.is_empty() {
                    return Err("data follows the client Finished under the same keys".into());
                }
                self.rx = Some(self.dirs(true).1);
                self.done = true;
                self.stage = "app";
                self.running = true;
                self.advance(w, me);
                Ok(())
            }
            (false, "start", SH) => {
                let sh = Sh::parse(body)?;
                if self.lax {
                    self.suite = Suite::from(sh.suite).or(Some(Suite::Aes128));
                } else {
                    sh.check(&self.ch)?;
                    self.suite = Suite::from(sh.suite);
                }
                self.sh = Some(sh);
                self.transcript.extend_from_slice(m);
                self.derive_hs();
                if !self.hsbuf.is_empty() {
                    return Err("data follows the ServerHello in the clear".into());
                }
                self.rx = Some(self.dirs(false).1);
                self.stage = "ee";
                Ok(())
            }
            (false, "ee", EE) => {
                let mut r = Rd(body);
                parse_exts(r.v16()?)?;
                r.end("EncryptedExtensions")?;
                self.transcript.extend_from_slice(m);
                self.stage = "creq";
                Ok(())
            }
            (false, "creq", CREQ) => {
                let (c, _) = parse_creq(body)?;
                self.creq = Some((c, vec![]));
                self.transcript.extend_from_slice(m);
                self.stage = "cert";
                Ok(())
            }
            (false, "creq" | "cert", CERT) => {
                let c = CertMsg::parse(body)?;
                if !c.ctx.is_empty() {
                    return Err("server certificate context not empty".into());
                }
                if c.chain.is_empty() {
                    return Err("server sent no certificate".into());
                }
                if let Some(e) = &self.expect_cert {
                    if *e != c.chain[0].0 {
                        return Err("unexpected server certificate".into());
                    }
                }
                self.peer_chain = c.chain.into_iter().map(|x| x.0).collect();
                self.transcript.extend_from_slice(m);
                self.stage = "cv";
                Ok(())
            }
            (false, "cv", CV) => {
                self.check_cv(body, true)?;
                self.transcript.extend_from_slice(m);
                self.stage = "fin";
                Ok(())
            }
            (false, "fin", FIN) => {
                let k = self.ks.as_ref().unwrap();
                if finished(k.suite, &k.s_hs, &self.transcript) != body {
                    return Err("server Finished is wrong".into());
                }
                self.transcript.extend_from_slice(m);
                if !self.hsbuf.is_empty() {
                    return Err("data follows the server Finished under the same keys".into());
                }
                let t = self.transcript.clone();
                self.ks.as_mut().unwrap().app(&t);
                self.th_server_fin = Some(t);
                // the server may already send under application keys
                self.rx = Some(self.dirs(true).1);
                self.stage = "mine";
                let st = match self.flight.take() {
                    Some(f) => f(self),
                    None => self.client_steps(),
                };
                self.run_steps(w, me, st);
                Ok(())
            }
            (s, st, t) => Err(format!("unexpected message {t} at stage {st} (server={s})")),
        }
    }
    pub fn saved_flag(&self, f: &str) -> bool {
        self.saved.iter().any(|x| x == f.as_bytes())
    }
    fn check_cv(&mut self, body: &[u8], server: bool) -> R<()> {
        let (scheme, sig) = parse_cv(body)?;
        if scheme != 0x0403 {
            return Err(format!("signature scheme {scheme:04x}"));
        }
        let (r, s) = pki::parse_sig(&sig)?;
        if let Some(q) = &self.expect_point {
            let d = sha256(&cv_input(server, &self.th()));
            if !p256().verify(q, &d, &r, &s) {
                return Err("CertificateVerify signature is wrong".into());
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------ application script
    pub fn advance(&mut self, w: &mut World, me: NodeId) {
        if !self.running || self.stop {
            return;
        }
        let my = self.server as usize;
        loop {
            if self.round >= self.script.rounds.len() {
                break;
            }
            let r = self.script.rounds[self.round].clone();
            if !self.wrote_round {
                if self.server && !self.done && self.round > 0 {
                    return;
                }
                self.write_data(w, r.len[my]);
                self.wrote_round = true;
            }
            let need: usize = self.script.rounds[..=self.round].iter().map(|x| x.len[1 - my]).sum();
            if self.got.len() < need || !self.done {
                self.flush(w);
                return;
            }
            self.round += 1;
            self.wrote_round = false;
        }
        if !self.done || self.finished_script {
            return;
        }
        self.finished_script = true;
        self.finish(w, me);
    }
    fn write_data(&mut self, w: &mut World, n: usize) {
        let my = self.server as usize;
        let mut left = n;
        let mode = self.script.wmode[my];
        let mut r = Rng::new(mix(self.script.seed ^ 0x77 ^ self.sent as u64));
        let mut cnt = 0;
        while left > 0 {
            if self.frame.app_empty && w.tape.chance("emptyrec", self.conn as u32, 1, 3) {
                // one, or a long run of them
                let n = if w.tape.chance("emptyrun", self.conn as u32, 1, 30) { 1 << w.tape.choose("emptyrun.n", self.conn as u32, 10) } else { 1 };
                for _ in 0..n {
                    self.put(w, 23, &[]);
                }
            }
            let mut l = if cnt > 200 { left } else { write_size(mode, &mut r, left) };
            l = l.min(if cnt > 200 && self.script.wmode[self.side] != TINY { MAX_PLAIN } else { self.frame.app_max }).min(MAX_PLAIN);
            let d = self.script.content(my, self.sent, l);
            self.put(w, 23, &d);
            self.sent += l;
            left -= l;
            cnt += 1;
        }
        if self.frame.app_empty && w.tape.chance("emptyrec", self.conn as u32, 1, 3) {
            self.put(w, 23, &[]);
        }
    }
    fn finish(&mut self, w: &mut World, _me: NodeId) {
        self.flush(w);
        match self.end {
            PeerEnd::Close => {
                self.stop = true;
                w.node_close(self.conn, self.side)
            }
            PeerEnd::NotifyClose => {
                self.put(w, 21, &[1, 0]);
                self.flush(w);
                self.stop = true;
                w.node_close(self.conn, self.side)
            }
            PeerEnd::Alert(d) => {
                self.put(w, 21, &[2, d]);
                self.flush(w);
                self.stop = true;
                w.node_close(self.conn, self.side)
            }
            PeerEnd::Reset => {
                self.stop = true;
                w.node_reset(self.conn, self.side)
            }
            PeerEnd::Linger => {}
        }
    }
}
impl Node for Peer {
    fn start(&mut self, w: &mut World, me: NodeId) {
        if self.start_delay > 0 {
            let d = self.start_delay;
            w.after(d, Ev::Timer(me, 2));
        } else {
            self.timer(w, me, 2);
        }
    }
    fn data(&mut self, w: &mut World, me: NodeId, _c: usize, _s: usize, bytes: &[u8]) {
        if self.stop {
            // still count what arrives after an alert
            return;
        }
        self.rxbuf.extend_from_slice(bytes);
        self.pump(w, me);
    }
    fn eof(&mut self, w: &mut World, _me: NodeId, _c: usize, _s: usize, rst: bool) {
        self.eof = Some(rst);
        if !rst {
            w.node_close(self.conn, self.side);
        }
    }
    fn timer(&mut self, w: &mut World, me: NodeId, id: u64) {
        match id {
            1 => {
                self.sleeping = false;
                self.pump_steps(w, me);
            }
            2 => {
                if !self.server {
                    let mut st = std::mem::take(&mut self.on_start);
                    if st.is_empty() {
                        st.push(msg("ch", |p| p.ch.build()));
                    }
                    self.run_steps(w, me, st);
                } else {
                    let st = std::mem::take(&mut self.on_start);
                    self.run_steps(w, me, st);
                }
            }
            _ => {}
        }
    }
    fn any(&mut self) -> &mut dyn Any {
        self
    }
}

// ---------------------------------------------------------------- offers
pub fn grease(r: &mut Rng) -> u16 {
    let n = (r.below(16) as u16) << 4 | 0xa;
    n << 8 | n
}
/// a conforming ClientHello; `rich` adds everything real clients send
pub fn offer(r: &mut Rng, share: &[u8], suites: &[Suite], sni: Option<&str>, rich: u64) -> Ch {
    let mut su: Vec<u16> = suites.iter().map(|s| s.code()).collect();
    let sidlen = match r.below(6) {
        0 => 0,
        1 => 1 + r.below(31) as usize,
        _ => 32,
    };
    let mut groups = vec![29u16];
    let mut shares: Vec<(u16, Vec<u8>)> = vec![(29, share.to_vec())];
    let mut vers = vec![0x0304u16];
    let mut sigs = vec![0x0403u16];
    let mut e: Vec<(u16, Vec<u8>)> = vec![];
    if rich > 0 {
        for x in [0xc02bu16, 0xc02f, 0x009c, 0x00ff, 0x1304, 0x1305] {
            if r.below(2) == 1 {
                let at = r.below(su.len() as u64 + 1) as usize;
                su.insert(at, x);
            }
        }
        for x in [23u16, 24, 25, 30, 0x0100, 0x11ec, 0x6399] {
            if r.below(2) == 1 {
                let at = r.below(groups.len() as u64 + 1) as usize;
                groups.insert(at, x);
            }
        }
        for g in groups.clone() {
            if g != 29 && r.below(3) == 0 {
                let n = match g {
                    23 => 65,
                    24 => 97,
                    25 => 133,
                    30 => 56,
                    0x11ec => 1216,
                    _ => 1 + r.below(300) as usize,
                };
                let mut k = r.bytes(n);
                if matches!(g, 23 | 24 | 25) {
                    k[0] = 4;
                }
                shares.push((g, k));
            }
        }
        // share order follows the group order
        let gg = groups.clone();
        shares.sort_by_key(|s| gg.iter().position(|g| g == &s.0).unwrap());
        for x in [0x0303u16, 0x0302, 0x0301] {
            if r.below(2) == 1 {
                vers.push(x);
            }
        }
        for x in [0x0503u16, 0x0603, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601, 0x0807, 0x0201, 0x0203, 0x0904] {
            if r.below(2) == 1 {
                let at = r.below(sigs.len() as u64 + 1) as usize;
                sigs.insert(at, x);
            }
        }
        if rich > 1 {
            // GREASE
            let g = grease(r);
            su.insert(0, g);
            let g = grease(r);
            groups.insert(0, g);
            shares.insert(0, (g, vec![0]));
            vers.insert(0, grease(r));
            sigs.push(grease(r));
            e.push((grease(r), vec![]));
        }
        let opt: Vec<(u16, Vec<u8>)> = vec![
            (23, vec![]),                                       // extended_master_secret
            (0xff01, vec![0]),                                  // renegotiation_info
            (11, vec![1, 0]),                                   // ec_point_formats
            (35, vec![]),                                       // session_ticket
            (16, v16(&[v8(b"h2"), v8(b"http/1.1")].concat())),  // ALPN
            (5, vec![1, 0, 0, 0, 0]),                           // status_request
            (18, vec![]),                                       // SCT
            (45, vec![1, 1]),                                   // psk_key_exchange_modes
            (27, vec![2, 0, 2]),                                // compress_certificate
            (49, vec![]),                                       // post_handshake_auth
            (50, v16(&[4, 3, 8, 4])),                           // signature_algorithms_cert
            (0x4469, vec![0, 3, 2, b'h', b'2']),                // application_settings
        ];
        for o in opt {
            if r.below(2) == 1 {
                e.push(o);
            }
        }
        if r.below(3) == 0 {
            let n = match r.below(12) {
                0 => 4000,
                1 => 17_000,
                _ => r.below(600),
            } as usize;
            e.push((21, vec![0; n]));
        }
    }
    let be = |l: &[u16]| l.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>();
    e.push((43, v8(&be(&vers))));
    e.push((13, v16(&be(&sigs))));
    e.push((10, v16(&be(&groups))));
    let sh: Vec<u8> = shares.iter().flat_map(|(g, k)| [g.to_be_bytes().to_vec(), v16(k)].concat()).collect();
    e.push((51, v16(&sh)));
    if let Some(n) = sni {
        e.push((0, v16(&[vec![0], v16(n.as_bytes())].concat())));
    }
    // shuffle
    for i in (1..e.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        e.swap(i, j);
    }
    let mut seen = std::collections::BTreeSet::new();
    e.retain(|x| seen.insert(x.0));
    let sid = r.bytes(sidlen);
    Ch { ver: 0x0303, random: r.bytes(32), sid, suites: su, comp: vec![0], exts: e }
}
