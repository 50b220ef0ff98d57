//! Shared set-up and oracles of all scenarios.
use crate::crypto::*;
use crate::observer::*;
use crate::pki::{self, CertSpec, Key};
use crate::reftls::*;
use crate::sut::*;
use crate::tape::{mix, Rng};
use crate::world::*;
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::Mutex;

// ---------------------------------------------------------------- choices
pub fn c(label: &'static str, n: u64) -> u64 {
    w().tape.choose(label, 0, n)
}
pub fn pk(label: &'static str, wt: &[u64]) -> usize {
    w().tape.pick(label, 0, wt)
}
pub fn yes(label: &'static str, num: u64, den: u64) -> bool {
    w().tape.chance(label, 0, num, den)
}
pub fn rs(label: &'static str) -> Rng {
    Rng::new(w().tape.with(label, 0, 0, |r| r.next()))
}
pub fn of<T: Clone>(label: &'static str, l: &[T]) -> T {
    l[c(label, l.len() as u64) as usize].clone()
}

// ---------------------------------------------------------------- verdicts
static PID: Mutex<String> = Mutex::new(String::new());
static TAGS: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
pub fn set_pid(p: &str) {
    *PID.lock().unwrap() = p.to_string();
}
pub fn pid() -> String {
    PID.lock().unwrap().clone()
}
/// properties that any failure of this scenario concerns
pub fn scenario_tags(t: &[&'static str]) {
    *TAGS.lock().unwrap() = t.to_vec();
}
pub fn viol(tags: &[&str], class: &str, msg: impl Into<String>) {
    let p = pid();
    // the X identifiers (one scenario each, for development) judge everything
    if tags.contains(&p.as_str()) || p.starts_with('X') {
        w().violate(format!("{p}.{class}"), msg);
    } else {
        w().count("foreign.violations");
        let m: String = msg.into();
        w().note.push(format!("foreign {tags:?} {class}: {m}"));
    }
}
pub fn is_pid(p: &str) -> bool {
    pid() == p
}

// ---------------------------------------------------------------- material
#[derive(Clone)]
pub struct Mat {
    pub skey: Key,
    pub scert: Vec<u8>,
    pub ca: Key,
    pub cacert: Vec<u8>,
    pub ca2: Key,
    pub ckey: Key,
    pub ccert: Vec<u8>,
    pub bkey: Key,
    pub bcert: Vec<u8>, // signed by the CA but the custom function refuses the name
    pub ocert: Vec<u8>, // for ckey, signed by the other CA
    pub stranger: Key,
    pub inter: Vec<u8>, // another certificate to put behind a leaf
}
pub const NMAT: u64 = 30;
static POOL: Mutex<BTreeMap<u64, &'static Mat>> = Mutex::new(BTreeMap::new());
pub fn mat(i: u64) -> &'static Mat {
    if let Some(m) = POOL.lock().unwrap().get(&i) {
        return m;
    }
    let mut r = Rng::new(0xC0FFEE + i);
    let shape = [0, 0, 1, 0, 4, 5, 0, 2, 0, 3, 0, 0][(i % 12) as usize];
    let skey = Key::shaped(&mut r, shape);
    let ckey = Key::shaped(&mut r, [0, 4, 0, 1, 0, 0, 5, 0, 3, 0, 2, 0][(i % 12) as usize]);
    let ca = Key::shaped(&mut r, if i % 5 == 4 { 4 } else { 0 });
    let ca2 = Key::new(&mut r);
    let bkey = Key::new(&mut r);
    let stranger = Key::new(&mut r);
    let mut sp = CertSpec::plain("server.test", "server.test");
    sp.v3 = i % 3 != 1;
    let mut ext = [0usize, 300, 0, 900, 2500, 0, 100, 6000][(i % 8) as usize];
    if i == 23 {
        ext = 15_000;
    }
    if i == 22 {
        ext = 17_500;
    }
    if i == 24 || i == 25 {
        // more than 16 bits can count
        sp.v3 = true;
        ext = [66_000, 90_000][(i % 2) as usize];
    }
    sp.ext_pad = if sp.v3 { ext } else { 0 };
    let scert = if i >= 26 {
        exact([16_384, 32_768, 16_383, 16_385][(i - 26) as usize] - 13, &mut sp, &skey, &skey, &mut r)
    } else {
        pki::cert(&sp, &skey, &skey, &mut r)
    };
    let mut sp = CertSpec::plain("ca.test", "ca.test");
    sp.v3 = i % 2 == 0;
    let cacert = pki::cert(&sp, &ca, &ca, &mut r);
    // client certificate: size around 256 of the signed part is a special case
    let mut sp = CertSpec::plain("good client", "ca.test");
    sp.v3 = i % 4 == 0;
    sp.min_names = i % 4 == 1;
    sp.long_subject = [0usize, 0, 30, 5, 200, 61, 1000, 0][(i % 8) as usize];
    if i == 25 {
        sp.v3 = true;
        sp.ext_pad = 70_000;
    }
    let short = i % 6 == 5;
    let mk = |sp: &CertSpec, k: &Key, ca: &Key, r: &mut Rng| -> Vec<u8> {
        loop {
            let c = pki::cert(sp, k, ca, r);
            // some materials have an unusually short CA signature
            if !short || c.len() < 4 + pki::tbs(sp, &k.point()).len() + 12 + 5 + 69 {
                return c;
            }
        }
    };
    let ccert = if i >= 26 {
        // our server asks with a context of 32 bytes
        exact([32_768, 16_384, 16_385, 16_384][(i - 26) as usize] - 13 - [32, 32, 32, 0][(i - 26) as usize], &mut sp, &ckey, &ca, &mut r)
    } else {
        mk(&sp, &ckey, &ca, &mut r)
    };
    let ocert = pki::cert(&sp, &ckey, &ca2, &mut r);
    sp.subject = "evil client".into();
    let bcert = pki::cert(&sp, &bkey, &ca, &mut r);
    let inter = pki::cert(&CertSpec::plain("intermediate", "root"), &ca2, &stranger, &mut r);
    let m: &'static Mat =
        Box::leak(Box::new(Mat { skey, scert, ca, cacert, ca2, ckey, ccert, bkey, bcert, ocert, stranger, inter }));
    POOL.lock().unwrap().insert(i, m);
    m
}
/// a certificate of exactly this size, for a message that fills its records to the last byte
fn exact(len: usize, sp: &mut CertSpec, k: &Key, by: &Key, r: &mut Rng) -> Vec<u8> {
    sp.v3 = true;
    sp.ext_pad = len - 1000;
    loop {
        let c = pki::cert(sp, k, by, r);
        if c.len() == len {
            return c;
        }
        sp.ext_pad = sp.ext_pad + len - c.len();
    }
}
pub fn pick_mat() -> &'static Mat {
    // the large certificates are rarer
    let i = c("mat", 64);
    mat(if i < 44 { i % 22 } else if i < 46 { 22 + i % 2 } else { i % 4 })
}
pub fn put_server_files(m: &Mat) {
    w().put_file("/sim/server.pem", pki::pem("CERTIFICATE", &m.scert));
    w().put_file("/sim/server.key", pki::key_pem(&m.skey, true));
    w().put_file("/sim/ca.pem", pki::pem("CERTIFICATE", &m.cacert));
}
pub fn put_client_files(cert: &[u8], key: &Key) {
    w().put_file("/sim/client.pem", pki::pem("CERTIFICATE", cert));
    w().put_file("/sim/client.key", pki::key_pem(key, true));
}
/// nonces of P-256 whose r is shorter than 241 bits
const SHORT: [&str; 32] = [
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08e3e212",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a37d05e",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a5a8a4d",
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08f34ca2",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a2be049",
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08a63aea",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a28cfd8",
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08d93c48",
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08f87cc7",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d78579b4",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d78bf520",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d793d632",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7a8fc6b",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7aaf9eb",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7aed3da",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7bbe99a",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a4f7190",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a5c9b7a",
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08a613c6",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7924a16",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7bd7b7a",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7c479d5",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7d1b406",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7d5ac75",
    "015f7e6bc5aeaf483724089e9252cc13b50951a6b69412522765cff4d7d83710",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a24af36",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a33b9b9",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a3747cd",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a4988be",
    "2f5052c9fd15b19a18c584d01363568198613f0c34e84409ef7938709a697c98",
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08a1c888",
    "6ab9f1eb8f7d3388f4f9d586f66e99fd54080df2c446f0e58668b09c08cafcd7",
];
pub fn short_nonces() -> &'static [U] {
    static L: std::sync::OnceLock<Vec<U>> = std::sync::OnceLock::new();
    L.get_or_init(|| SHORT.iter().map(|h| u_from(&unhex(h))).collect())
}

// ---------------------------------------------------------------- knobs
pub fn net_knobs() -> Knobs {
    let seg = [0, 1, 2, 3, 4, 5, 6][pk("k.seg", &[26, 16, 6, 8, 14, 10, 20])];
    let seg_k = 1 + c("k.segk", 40);
    let delay = [0, 1, 2, 3][pk("k.delay", &[50, 20, 10, 20])];
    let rd_short = [0, 250, 900][pk("k.rds", &[60, 25, 15])];
    let wr_short = [0, 200, 800][pk("k.wrs", &[60, 25, 15])];
    let eintr = [0, 60, 300][pk("k.eintr", &[60, 25, 15])];
    let preempt = [0, 150][pk("k.pre", &[60, 40])];
    let sndcap = [usize::MAX, 4096, 600, 33][pk("k.cap", &[70, 15, 10, 5])];
    Knobs { seg, seg_k, delay, rd_short, wr_short, eintr, preempt, alloc_gap: 0, edge_gap: 0, sndcap }
}
pub fn gen_script(cap: usize, big: bool) -> Script {
    let n = c("s.rounds", 4) as usize;
    let mut rounds = vec![];
    for i in 0..n {
        let mut len = [0usize; 2];
        for l in len.iter_mut() {
            let k = if big { 12 } else { 8 };
            *l = match c("s.len", k) {
                0 => 0,
                1 => 1,
                2 => 1 + c("s.n", 200) as usize,
                3 => 64 * (1 + c("s.n", 20) as usize) - c("s.d", 3) as usize,
                4 => 4070 + c("s.n", 60) as usize,
                5 => 1 + c("s.n", 3000) as usize,
                6 => 16 * c("s.n", 40) as usize + 1 - c("s.d", 3).min(1) as usize,
                7 => 500 + c("s.n", 1500) as usize,
                8 => 16_384 - 20 + c("s.n", 40) as usize,
                9 => 32_768 - 3 + c("s.n", 6) as usize,
                10 => 16_384 + c("s.n", 50_000) as usize,
                _ => 8_192 + c("s.n", 9000) as usize,
            };
        }
        if cap < usize::MAX {
            let lim = if cap < 100 { 1500 } else { 6000 };
            len[0] = len[0].min(lim);
            len[1] = len[1].min(lim);
            // both sides write before they read: leave room for only one of them
            len[i % 2] = 0;
        }
        rounds.push(Round { len });
    }
    let seed = c("s.seed", 1 << 40);
    let extra = match c("s.extra", 3) {
        0 => None,
        1 => Some(0),
        _ => Some(1),
    };
    let tot = rounds.iter().map(|r: &Round| r.len[0].max(r.len[1])).max().unwrap_or(0);
    let mut rm = [c("s.rm", 7), c("s.rm", 7)];
    let mut wm = [c("s.wm", 7), c("s.wm", 7)];
    if tot > 3000 {
        // tiny reads of big data cost too many steps
        for x in rm.iter_mut() {
            if *x == 6 || *x == 1 {
                *x = 2
            }
        }
        for x in wm.iter_mut() {
            if *x == 1 || *x == 2 {
                *x = 3
            }
        }
    }
    Script { rounds, seed, wmode: wm, rmode: rm, extra }
}
/// one write of many records, read with buffers of any size
pub fn vast_script(s: &mut Script) {
    let n = 65_536 * [1, 2, 3, 4, 8, 9, 16, 17, 32][c("vast.n", 9) as usize] + [0, 1, 65_535, 16_384][c("vast.d", 4) as usize];
    let dir = c("vast.dir", 2) as usize;
    let mut len = [c("vast.b", 100) as usize; 2];
    len[dir] = n;
    s.rounds = vec![Round { len }, Round { len: [50, 50] }];
    s.wmode = [0; 2];
    s.rmode = [[0, 3, 4, 5, 7][c("vast.r", 5) as usize]; 2];
}
pub fn gen_frame() -> Frame {
    let mode = [0, 1, 2, 3][pk("f.mode", &[30, 25, 30, 15])];
    Frame {
        mode,
        piece: [1, 2, 3, 7, 40, 333][c("f.piece", 6) as usize].max(if mode == 3 { 5 } else { 1 }),
        pad: [0, 1, 2, 3][pk("f.pad", &[50, 25, 15, 10])],
        ccs: !yes("f.noccs", 1, 4),
        app_empty: yes("f.empty", 1, 4),
        app_max: [MAX_PLAIN, 1, 50, 4000, 16384][pk("f.appmax", &[60, 4, 12, 12, 12])],
        split_send: yes("f.split", 1, 2),
        ccs_more: if yes("f.ccsmore", 1, 3) { c("f.ccsbits", 1 << 20) } else { 0 },
    }
}

// ---------------------------------------------------------------- man in the middle
pub enum MEv<'a> {
    /// direction (0 client to server), record number, stream offset, full record
    Rec(usize, usize, usize, &'a [u8]),
    Eof(usize, bool),
    Timer(u64),
}
pub enum MAct {
    Fwd(usize, Vec<u8>),
    /// close towards the receiver of this direction
    Close(usize),
    Reset(usize),
    After(u64, u64),
}
pub type Policy = Box<dyn FnMut(&mut World, MEv) -> Vec<MAct>>;
pub struct Mitm {
    /// (conn, own side): leg 0 faces the client, leg 1 the server
    pub legs: [(usize, usize); 2],
    pub buf: [Vec<u8>; 2],
    pub idx: [usize; 2],
    pub off: [usize; 2],
    pub closed: [bool; 2],
    pub pol: Policy,
}
impl Mitm {
    fn act(&mut self, w: &mut World, me: NodeId, a: Vec<MAct>) {
        for x in a {
            match x {
                MAct::Fwd(d, b) => {
                    if !self.closed[d] {
                        let (cn, s) = self.legs[1 - d];
                        w.node_send(cn, s, &b)
                    }
                }
                MAct::Close(d) => {
                    if !self.closed[d] {
                        self.closed[d] = true;
                        let (cn, s) = self.legs[1 - d];
                        w.node_shut_wr(cn, s);
                    }
                }
                MAct::Reset(d) => {
                    self.closed[d] = true;
                    let (cn, s) = self.legs[1 - d];
                    w.node_reset(cn, s);
                }
                MAct::After(t, id) => w.after(t, Ev::Timer(me, id)),
            }
        }
    }
    fn dir(&self, conn: usize) -> usize {
        if conn == self.legs[0].0 {
            0
        } else {
            1
        }
    }
}
impl Node for Mitm {
    fn data(&mut self, w: &mut World, me: NodeId, conn: usize, _s: usize, bytes: &[u8]) {
        let d = self.dir(conn);
        self.buf[d].extend_from_slice(bytes);
        loop {
            let b = &self.buf[d];
            if b.len() < 5 {
                break;
            }
            let n = 5 + ((b[3] as usize) << 8 | b[4] as usize);
            if b.len() < n {
                break;
            }
            let r: Vec<u8> = self.buf[d].drain(..n).collect();
            let (i, o) = (self.idx[d], self.off[d]);
            self.idx[d] += 1;
            self.off[d] += n;
            let a = (self.pol)(w, MEv::Rec(d, i, o, &r));
            self.act(w, me, a);
        }
    }
    fn eof(&mut self, w: &mut World, me: NodeId, conn: usize, _s: usize, rst: bool) {
        let d = self.dir(conn);
        let rest = std::mem::take(&mut self.buf[d]);
        if !rest.is_empty() && !self.closed[d] {
            let (cn, s) = self.legs[1 - d];
            w.node_send(cn, s, &rest);
        }
        let a = (self.pol)(w, MEv::Eof(d, rst));
        self.act(w, me, a);
    }
    fn timer(&mut self, w: &mut World, me: NodeId, id: u64) {
        let a = (self.pol)(w, MEv::Timer(id));
        self.act(w, me, a);
    }
    fn any(&mut self) -> &mut dyn Any {
        self
    }
}
/// the policy that changes nothing
pub fn forward(ev: MEv) -> Vec<MAct> {
    match ev {
        MEv::Rec(d, _, _, r) => vec![MAct::Fwd(d, r.to_vec())],
        MEv::Eof(d, true) => vec![MAct::Reset(d)],
        MEv::Eof(d, false) => vec![MAct::Close(d)],
        MEv::Timer(_) => vec![],
    }
}

// ---------------------------------------------------------------- one connection
pub struct One {
    /// 0: both real, 1: real client with reference server, 2: real server with reference client
    pub topo: u64,
    pub mat: &'static Mat,
    pub cli: CliOpts,
    pub srv: SrvOpts,
    pub cli_cert: Option<(Vec<u8>, Key)>,
    pub script: Script,
    pub ac: After,
    pub asv: After,
    pub peer: Option<Peer>,
    pub mitm: Option<Policy>,
    pub knobs: Knobs,
    /// refusing the configuration is no failure
    pub may_refuse: bool,
    /// read timeout of the sockets of the endpoints under test, from the start on
    pub early_timeo: u64,
    /// a send of this side fails once at this offset
    pub early_break: Option<(usize, usize)>,
    /// the server object goes on living after this connection
    pub keep: bool,
    /// take the connection from a server object that has served others before
    pub reuse: Option<(usize, Srv)>,
}
impl One {
    pub fn new(topo: u64) -> One {
        One::with(topo, pick_mat())
    }
    pub fn with(topo: u64, m: &'static Mat) -> One {
        One {
            topo,
            mat: m,
            cli: CliOpts { sni: None, cert: None, keylog: Some("/sim/keylog.c".into()), share: false },
            srv: SrvOpts {
                cert: "/sim/server.pem".into(),
                key: "/sim/server.key".into(),
                ca: None,
                verify: 0,
                sni: None,
                keylog: Some("/sim/keylog.s".into()),
                simple: false,
            },
            cli_cert: None,
            script: Script::none(),
            ac: After::default(),
            asv: After::default(),
            peer: None,
            mitm: None,
            knobs: Knobs::plain(),
            may_refuse: false,
            early_timeo: 0,
            early_break: None,
            reuse: None,
            keep: false,
        }
    }
    /// server demands a client certificate
    pub fn auth(&mut self, verify: u8) {
        self.srv.ca = Some("/sim/ca.pem".into());
        self.srv.verify = verify;
    }
    pub fn client_cert(&mut self, cert: &[u8], key: &Key) {
        self.cli_cert = Some((cert.to_vec(), key.clone()));
        self.cli.cert = Some(("/sim/client.pem".into(), "/sim/client.key".into()));
    }
}
pub struct Ep {
    pub server: bool,
    pub o: usize,
    pub tid: Tid,
    pub conn: usize,
    pub side: usize,
    pub keylog: Option<String>,
    pub expect: Expect,
    pub write_script: usize, // bytes the script wants written by this side
}
pub struct Live {
    pub c: Option<Ep>,
    pub s: Option<Ep>,
    pub peer: Option<NodeId>,
    pub mitm: Option<NodeId>,
    pub script: Script,
    pub mat: &'static Mat,
    pub topo: u64,
    /// tasks that could not move before the network was shut down
    pub stuck: Vec<String>,
    pub end: Option<End_>,
    pub fin: Option<String>,
    pub srv: Option<(usize, Srv)>,
}
pub fn launch(mut o: One) -> Live {
    put_server_files(o.mat);
    if let Some((cert, key)) = &o.cli_cert {
        put_client_files(cert, key);
    }
    crate::s_local::override_files();
    for k in [&o.cli.keylog, &o.srv.keylog].into_iter().flatten() {
        w().vfs.files.entry(k.clone()).or_default();
    }
    let sut_c = o.topo != 2;
    let sut_s = o.topo != 1;
    w().cfg_order = c("cfg.order", 64);
    w().log_alias = match pk("cfg.log", &[80, 10, 10]) {
        1 => o.cli.keylog.clone().map(|k| (false, k)),
        2 => o.srv.keylog.clone().map(|k| (true, k)),
        _ => None,
    };
    // connections
    let (cconn, sconn);
    let mut mitm = None;
    if let Some(pol) = o.mitm.take() {
        let id = w().add_node(Box::new(Mitm {
            legs: [(0, 0), (0, 0)],
            buf: [vec![], vec![]],
            idx: [0, 0],
            off: [0, 0],
            closed: [false, false],
            pol,
        }));
        cconn = w().connect(Owner::None, Owner::Node(id));
        sconn = w().connect(Owner::Node(id), Owner::None);
        w().node::<Mitm>(id).legs = [(cconn, 1), (sconn, 0)];
        mitm = Some(id);
    } else {
        cconn = w().connect(Owner::None, Owner::None);
        sconn = cconn;
    }
    let mut ec = None;
    let mut es = None;
    let mut kept = None;
    let mut peer = None;
    if let Some(mut p) = o.peer.take() {
        p.conn = if p.server { sconn } else { cconn };
        p.side = p.server as usize;
        let (cn, sd) = (p.conn, p.side);
        p.script = o.script.clone();
        let id = w().add_node(Box::new(p));
        w().conns[cn].ends[sd].owner = Owner::Node(id);
        peer = Some(id);
    }
    if sut_s {
        let srv = match o.reuse.take() {
            Some(x) => Some(x),
            None => {
                let (l, lfd) = w().listener();
                make_server(lfd, &o.srv).map(|s| (l, s))
            }
        };
        match srv {
            Some((l, srv)) => {
                let oi = new_out("server", true);
                let tid = spawn_server("server", &srv, &[oi], &o.script, &o.asv);
                upd(oi, |x| x.conn = Some(sconn));
                if o.keep {
                    kept = Some((l, srv));
                } else {
                    drop(srv);
                }
                w().dial(l, sconn, 1, 0);
                es = Some(Ep {
                    server: true,
                    o: oi,
                    tid,
                    conn: sconn,
                    side: 1,
                    keylog: o.srv.keylog.clone(),
                    expect: Expect {
                        server: true,
                        cert: o.mat.scert.clone(),
                        point: Some(o.mat.skey.q),
                        client_auth: o.srv.ca.is_some(),
                        sni: o.srv.sni.clone(),
                    },
                    write_script: o.script.total(1),
                });
            }
            None => {
                let p = w().tasks.last().and_then(|t| t.panic.clone());
                if !o.may_refuse {
                    viol(&["C01", "C16"], "config", format!("server configuration refused: {p:?}"));
                }
            }
        }
    }
    if sut_c {
        let fd = w().sock_fd(cconn, 0);
        let oi = new_out("client", false);
        let tid = spawn_client("client", fd, oi, &o.cli, &o.script, &o.ac);
        ec = Some(Ep {
            server: false,
            o: oi,
            tid,
            conn: cconn,
            side: 0,
            keylog: o.cli.keylog.clone(),
            expect: Expect {
                server: false,
                cert: o.cli_cert.as_ref().map(|x| x.0.clone()).unwrap_or_default(),
                point: o.cli_cert.as_ref().map(|x| x.1.q),
                client_auth: false,
                sni: o.cli.sni.clone(),
            },
            write_script: o.script.total(0),
        });
    }
    w().k = o.knobs.clone();
    for e in [&ec, &es].into_iter().flatten() {
        w().conns[e.conn].ends[e.side].rcvtimeo = o.early_timeo;
        if let Some((s, at)) = o.early_break {
            if s == e.server as usize {
                w().conns[e.conn].ends[e.side].tx_break.push_back(at);
            }
        }
    }
    if let Some(p) = peer {
        w().start_node(p);
    }
    Live {
        c: ec,
        s: es,
        peer,
        mitm,
        script: o.script,
        mat: o.mat,
        topo: o.topo,
        stuck: vec![],
        end: None,
        fin: None,
        srv: kept,
    }
}
/// every remaining transport end is closed: nothing may be left running afterwards
pub fn quiesce() {
    let wd = w();
    for cn in 0..wd.conns.len() {
        for s in 0..2 {
            if matches!(wd.conns[cn].ends[s].owner, Owner::Node(_)) && !wd.conns[cn].ends[s].closed {
                wd.conns[cn].hold = [false, false];
                wd.node_close(cn, s);
                if wd.conns[cn].ends[s].wr_shut {
                    // already half closed, nothing more to tell
                }
            }
        }
    }
}
pub fn stuck_tasks() -> Vec<String> {
    w().tasks.iter().filter(|t| t.state != TState::Done).map(|t| format!("{}:{:?}", t.name, t.state)).collect()
}
pub fn settle(l: &mut Live) {
    let e = drive();
    l.end = Some(e.clone());
    if e == End_::Stuck && w().viol.is_none() {
        l.stuck = stuck_tasks();
        let wd = w();
        wd.stuck_rx = wd
            .tasks
            .iter()
            .filter_map(|t| match t.state {
                TState::Blocked(Wait::Rx(c, s)) => Some((c, s, wd.conns[c].ends[s].tx.len())),
                _ => None,
            })
            .collect();
        quiesce();
        let mut e2 = drive();
        if e2 == End_::Stuck && w().viol.is_none() {
            // two real endpoints waiting for each other
            for cn in 0..w().conns.len() {
                for s in 0..2 {
                    w().conns[cn].ends[s].fin = true;
                    w().wake(&Wait::Rx(cn, s));
                }
            }
            e2 = drive();
        }
        l.fin = Some(format!("{e2:?}"));
        if e2 != End_::AllDone && w().viol.is_none() {
            if e2 == End_::Steps {
                l.end = Some(End_::Steps);
            } else {
                let st = stuck_tasks();
                viol(&["C08", "C09"], "hang", format!("tasks still running after every transport was closed: {st:?}"));
            }
        }
    }
    if l.end == Some(End_::Steps) {
        let st: Vec<String> = w().tasks.iter().map(|t| format!("{}:{:?}:{}", t.name, t.state, t.syscalls)).collect();
        viol(&["C08"], "steps", format!("step limit reached: {st:?}"));
    }
}
pub fn panics(tags: &[&str]) -> bool {
    let mut t: Vec<&str> = tags.to_vec();
    t.push("C08");
    let mut any = false;
    for i in 0..w().tasks.len() {
        if let Some(p) = w().tasks[i].panic.clone() {
            any = true;
            let n = w().tasks[i].name.clone();
            viol(&t, "panic", format!("{n} panicked: {p}"));
        }
    }
    any
}
pub fn rx_bytes(conn: usize, side: usize) -> Vec<u8> {
    let cn = &w().conns[conn];
    let n = (cn.ends[side].rcv_total as usize).min(cn.ends[1 - side].tx.len());
    cn.ends[1 - side].tx[..n].to_vec()
}
pub fn describe(l: &Live) -> String {
    let f = |e: &Option<Ep>| {
        e.as_ref().map(|e| {
            let o = out(e.o);
            format!("hs={:?} err={:?} wrote={} rx={} done={}", o.hs, o.err, o.wrote, o.rx.len(), o.done)
        })
    };
    let p = l.peer.map(|p| {
        let p = w().node::<Peer>(p);
        format!("done={} fail={:?} alert={:?} stage={} got={}", p.done, p.fail, p.alert, p.stage, p.got.len())
    });
    let pan: Vec<_> = w().tasks.iter().filter_map(|t| t.panic.clone()).collect();
    format!("client[{:?}] server[{:?}] peer[{:?}] stuck={:?} panics={:?}", f(&l.c), f(&l.s), p, l.stuck, pan)
}
pub fn sh_of(stream: &[u8]) -> Option<Sh> {
    let d = decode(stream, true, &Secrets::default(), true);
    d.hello().filter(|m| m[0] == SH).and_then(|m| Sh::parse(&m[4..]).ok())
}
pub fn ch_of(stream: &[u8]) -> Option<Ch> {
    let d = decode(stream, false, &Secrets::default(), true);
    d.hello().filter(|m| m[0] == CH).and_then(|m| Ch::parse(&m[4..]).ok())
}

pub struct Audit {
    pub own: Decoded,
    pub other: Decoded,
    pub sec: Secrets,
    pub ok: bool,
}
pub struct AuditOpts {
    /// reference key schedule known to be the right one for this connection
    pub ks: Option<Ks>,
    /// the log file had faults: do not demand completeness
    pub log_faults: bool,
    /// skip the alert rule (for instance after local faults)
    pub no_alert_rule: bool,
    /// require the alert to be readable under the keys in force
    pub extra_tags: Vec<&'static str>,
    pub needles: Vec<Vec<u8>>,
}
impl Default for AuditOpts {
    fn default() -> Self {
        AuditOpts { ks: None, log_faults: false, no_alert_rule: false, extra_tags: vec![], needles: vec![] }
    }
}
/// everything that must hold for a real endpoint whatever its peer did
pub fn audit(e: &Ep, op: &AuditOpts) -> Audit {
    let o = out(e.o);
    let tx = w().conns[e.conn].ends[e.side].tx.clone();
    let rx = rx_bytes(e.conn, e.side);
    let (cs, ss) = if e.server { (&rx, &tx) } else { (&tx, &rx) };
    let ch = ch_of(cs);
    let sh = sh_of(ss);
    let suite = sh.as_ref().and_then(|s| Suite::from(s.suite));
    let ok = matches!(o.hs, Some(Ok(())));
    let who = if e.server { "server" } else { "client" };
    let mut sec = Secrets { suite, ..Default::default() };
    let mut logged_hs = false;
    if let (Some(path), Some(ch)) = (&e.keylog, &ch) {
        let txt = w().vfs.files.get(path).cloned().unwrap_or_default();
        let (m, bad) = parse_keylog(&txt);
        if !op.log_faults {
            if let Some(b) = bad.first() {
                viol(&["C12"], "malformed", format!("{who}: key log line {b:?}"));
            }
        }
        let ks = keylog_secrets(&m, &ch.random, suite);
        if ok && !op.log_faults {
            let n: Vec<usize> = LABELS
                .iter()
                .map(|l| m.get(&hex(&ch.random)).and_then(|x| x.get(*l)).map(|v| v.len()).unwrap_or(0))
                .collect();
            if n != [1, 1, 1, 1] {
                viol(&["C12"], "incomplete", format!("{who}: key log has {n:?} lines for the labels {LABELS:?}"));
            }
        }
        if let Some(r) = &op.ks {
            for (nm, a, b) in [
                ("SERVER_HANDSHAKE", &ks.s_hs, &r.s_hs),
                ("CLIENT_HANDSHAKE", &ks.c_hs, &r.c_hs),
                ("SERVER", &ks.s_ap, &r.s_ap),
                ("CLIENT", &ks.c_ap, &r.c_ap),
            ] {
                if let Some(a) = a {
                    if !b.is_empty() && a != b {
                        let mut t = vec!["C12", "C01"];
                        t.extend(op.extra_tags.iter());
                        viol(&t, "secret", format!("{who}: logged {nm} secret {} differs from the reference {}", hex(a), hex(b)));
                    }
                }
            }
        }
        logged_hs = ks.c_hs.is_some();
        sec = ks;
    }
    if let Some(r) = &op.ks {
        let f = |a: &Vec<u8>| if a.is_empty() { None } else { Some(a.clone()) };
        sec.c_hs = f(&r.c_hs).or(sec.c_hs);
        sec.s_hs = f(&r.s_hs).or(sec.s_hs);
        sec.c_ap = f(&r.c_ap).or(sec.c_ap);
        sec.s_ap = f(&r.s_ap).or(sec.s_ap);
        sec.suite = Some(r.suite);
    }
    let own = decode(&tx, e.server, &sec, false);
    let other = decode(&rx, !e.server, &sec, true);
    if let Some(x) = own.sealed.first() {
        viol(&["C11"], "sealed", format!("{who}: {x}"));
    }
    // a connection that was cut by the transport may end in the middle of a record
    let cut = w().conns[e.conn].ends[e.side].rst;
    let mut pr = judge(&own, &e.expect, &other, &sec, ok);
    if own.partial > 0 && !cut && o.done {
        pr.push(format!("{} bytes of an incomplete record at the end of the stream", own.partial));
    }
    if let Some(x) = pr.first() {
        viol(&["C14"], "form", format!("{who}: {x}"));
    }
    if is_pid("C11") {
        let mut n = Needles::default();
        for x in &op.needles {
            n.add(x);
        }
        let mut pos = 0;
        for (i, r) in own.recs.iter().enumerate() {
            // the hello itself is public
            if !(i == 0 && r.outer == 22) {
                if let Some(k) = n.find(&tx[pos.max(r.start)..r.end]) {
                    viol(&["C11"], "leak", format!("{who}: secret bytes in clear at offset {} of record {i}", k));
                }
            }
            pos = r.end;
        }
        if pos < tx.len() {
            if let Some(k) = n.find(&tx[pos..]) {
                viol(&["C11"], "leak", format!("{who}: secret bytes in clear at offset {}", pos + k));
            }
        }
    }
    if !own.alerts.is_empty() && w().stuck_rx.contains(&(e.conn, e.side, tx.len())) {
        viol(&["C13", "C09"], "lingers", format!("{who} sent its alert {:?} and goes on waiting for its peer", own.alerts));
    }
    if !op.no_alert_rule {
        alert_rule(e, &o, &own, &other, logged_hs);
    }
    Audit { own, other, sec, ok }
}
/// C13: a failed handshake is announced once and correctly
pub fn alert_rule(e: &Ep, o: &Out, own: &Decoded, other: &Decoded, keys: bool) {
    let who = if e.server { "server" } else { "client" };
    let end = &w().conns[e.conn].ends[e.side];
    let err = match &o.hs {
        Some(Err(x)) => x.clone(),
        Some(Ok(())) => {
            // nothing but data may follow
            if !own.alerts.is_empty() {
                viol(&["C13"], "alert_on_success", format!("{who} sent alert {:?} although the handshake succeeded", own.alerts));
            }
            return;
        }
        None => return,
    };
    if end.rst {
        return; // what was sent may not have been written completely
    }
    if err == "BrokenPipe" {
        if !own.alerts.is_empty() {
            viol(&["C13"], "alert_on_transport", format!("{who} answered a transport error with alert {:?}", own.alerts));
        }
        if !end.fin {
            viol(&["C13"], "phantom_transport", format!("{who} reports BrokenPipe but the transport was not ended"));
        }
        return;
    }
    let code = match rfc_code(&err) {
        Some(c) => c,
        None => {
            viol(&["C13"], "unknown_error", format!("{who} returned {err}"));
            return;
        }
    };
    // an alert received?
    let got: Vec<u8> = other.alerts.iter().map(|a| a.1).collect();
    if own.alerts.is_empty() {
        if own.opaque > 0 {
            return; // encrypted tail that can not be judged
        }
        if got.contains(&code) {
            return;
        }
        viol(&["C13"], "silent", format!("{who} failed with {err} but sent no alert (received alerts {got:?})"));
        return;
    }
    if own.alerts.len() > 1 {
        viol(&["C13"], "alerts", format!("{who} sent {} alerts", own.alerts.len()));
    }
    let a = own.alerts[0];
    if a.3 + 1 != own.recs.len() || own.partial > 0 {
        viol(&["C13"], "after_alert", format!("{who} sent more after its alert"));
    }
    if a.0 != 2 {
        viol(&["C13"], "level", format!("{who} sent an error alert with level {}", a.0));
    }
    if a.1 != code {
        viol(&["C13"], "code", format!("{who} returned {err} ({code}) but announced {}", a.1));
    }
    if (own.msgs.iter().any(|m| e.server && m.1[0] == SH) || keys) && a.2 == 0 {
        viol(&["C13", "C11"], "clear_alert", format!("{who} sent its alert in clear although keys are in use"));
    }
}
pub fn peer_ks(l: &Live) -> Option<Ks> {
    l.peer.and_then(|p| w().node::<Peer>(p).ks.clone())
}
pub fn needles(l: &Live) -> Vec<Vec<u8>> {
    let m = l.mat;
    let mut v = vec![m.scert.clone(), m.ccert.clone(), u_to(&m.skey.d).to_vec(), u_to(&m.ckey.d).to_vec()];
    for s in 0..2 {
        v.push(l.script.content(s, 0, l.script.total(s)));
    }
    for p in ["/sim/keylog.c", "/sim/keylog.s"] {
        let (k, _) = parse_keylog(w().vfs.files.get(p).map(|x| &x[..]).unwrap_or(&[]));
        for (_, x) in k {
            for (_, y) in x {
                for z in y {
                    v.push(unhex(&z));
                }
            }
        }
    }
    v
}
pub fn audit_all(l: &Live, op: impl Fn(&Ep) -> AuditOpts) -> (Option<Audit>, Option<Audit>) {
    let a = l.c.as_ref().map(|e| audit(e, &op(e)));
    let b = l.s.as_ref().map(|e| audit(e, &op(e)));
    (a, b)
}
/// the outcome an undisturbed pair of conforming endpoints must reach
pub fn must_succeed(l: &Live, hs_tags: &[&str], data_tags: &[&str]) -> bool {
    if panics(hs_tags) {
        return false;
    }
    let mut hs_ok = true;
    for e in [&l.c, &l.s].into_iter().flatten() {
        let o = out(e.o);
        if o.hs != Some(Ok(())) {
            hs_ok = false;
        }
    }
    if l.topo != 0 && l.peer.is_none() {
        hs_ok = false;
    }
    if let Some(p) = l.peer {
        let p = w().node::<Peer>(p);
        if !p.done || (p.fail.is_some() && !p.done) {
            hs_ok = false;
        }
    }
    if (l.topo != 2 && l.c.is_none()) || (l.topo != 1 && l.s.is_none()) {
        return false; // configuration problem already reported
    }
    if !hs_ok {
        viol(hs_tags, "handshake", format!("honest handshake failed: {}", describe(l)));
        return false;
    }
    data_ok(l, data_tags)
}
pub fn data_ok(l: &Live, tags: &[&str]) -> bool {
    let sc = &l.script;
    for e in [&l.c, &l.s].into_iter().flatten() {
        let o = out(e.o);
        let my = e.server as usize;
        let want = sc.content(1 - my, 0, sc.total(1 - my));
        let who = &o.name;
        if o.rx.len() > want.len() || o.rx[..] != want[..o.rx.len()] {
            let at = o.rx.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(want.len());
            viol(tags, "data", format!("{who} received wrong data at offset {at} of {}: {}", want.len(), describe(l)));
            return false;
        }
        if !o.script_done || o.wrote != sc.total(my) || o.rx.len() != want.len() {
            viol(
                tags,
                "incomplete",
                format!("{who} got {} of {} bytes and wrote {} of {}: {}", o.rx.len(), want.len(), o.wrote, sc.total(my), describe(l)),
            );
            return false;
        }
    }
    if let Some(p) = l.peer {
        let pd = w().node::<Peer>(p);
        let my = pd.server as usize;
        let want = sc.content(1 - my, 0, sc.total(1 - my));
        if pd.got != want || pd.fail.is_some() {
            let (n, f) = (pd.got.len(), pd.fail.clone());
            viol(tags, "data_at_peer", format!("the peer received {n} of {} bytes, or wrong ones; fail={f:?}", want.len()));
            return false;
        }
    }
    true
}
pub fn mixseed(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b))
}
