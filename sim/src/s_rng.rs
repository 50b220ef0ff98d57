//! S9 rng: what the secrets of a connection depend on, and what happens when the device fails.
use crate::crypto::*;
use crate::env::*;
use crate::observer::*;
use crate::reftls::*;
use crate::scen::*;
use crate::sut::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

/// the messages a CertificateVerify of this endpoint signs
fn signed(e: &Ep, own: &Decoded, other: &Decoded) -> Option<Vec<u8>> {
    let mut t = vec![];
    if e.server {
        t.extend_from_slice(other.hello()?);
    } else {
        t.extend_from_slice(own.hello()?);
        for m in &other.msgs {
            t.extend_from_slice(&m.1);
            if m.1[0] == FIN {
                break;
            }
        }
    }
    for m in own.msgs.iter().skip(!e.server as usize) {
        if m.1[0] == CV {
            return Some(t);
        }
        t.extend_from_slice(&m.1);
    }
    None
}
/// the nonce of the signature in the CertificateVerify of this endpoint
pub fn cv_nonce(e: &Ep, own: &Decoded, other: &Decoded, suite: Option<Suite>, d: &U) -> Option<Vec<u8>> {
    let t = signed(e, own, other)?;
    let cv = own.msgs.iter().find(|m| m.1[0] == CV)?;
    let (scheme, sig) = parse_cv(&cv.1[4..]).ok()?;
    let (r, s) = crate::pki::parse_sig(&sig).ok()?;
    if scheme != 0x0403 {
        return None;
    }
    let h = sha256(&cv_input(e.server, &suite?.hash().h(&t)));
    let k = p256().nonce(d, &h, &r, &s);
    Some(u_to(&k).to_vec())
}
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Fields {
    pub random: Option<Vec<u8>>,
    pub share: Option<Vec<u8>>,
    pub ctx: Option<Vec<u8>>,
    pub nonce: Option<Vec<u8>>,
}
impl Fields {
    fn all(&self) -> [(&'static str, &Option<Vec<u8>>); 4] {
        [("hello random", &self.random), ("key share", &self.share), ("request context", &self.ctx), ("signature nonce", &self.nonce)]
    }
}
pub fn fields(e: &Ep, own: &Decoded, other: &Decoded, suite: Option<Suite>, d: Option<&U>) -> Fields {
    let mut f = Fields::default();
    let Some(m) = own.hello() else { return f };
    if e.server && m[0] == SH {
        if let Ok(s) = Sh::parse(&m[4..]) {
            f.random = Some(s.random.to_vec());
            f.share = s.share().ok().map(|x| x.1);
        }
    } else if !e.server && m[0] == CH {
        if let Ok(c) = Ch::parse(&m[4..]) {
            f.random = Some(c.random.to_vec());
            f.share = c.shares().ok().and_then(|l| l.first().map(|x| x.1.clone()));
        }
    }
    if e.server {
        f.ctx = own.msgs.iter().find(|m| m.1[0] == CREQ).and_then(|m| Rd(&m.1[4..]).v8().map(|x| x.to_vec()).ok());
    }
    if let Some(d) = d {
        f.nonce = cv_nonce(e, own, other, suite, d);
    }
    f
}
/// no value is ever used twice
pub fn unique(seen: &mut BTreeMap<Vec<u8>, String>, who: &str, e: &Ep, a: &Audit, d: Option<&U>) {
    let f = fields(e, &a.own, &a.other, a.sec.suite, d);
    for (n, v) in f.all() {
        let Some(v) = v else { continue };
        if n == "request context" && v.is_empty() {
            viol(&["C10"], "empty", format!("{who} requests a certificate with an empty context"));
            continue;
        }
        let me = format!("{n} of {who}");
        w().count("rng.values");
        if n == "signature nonce" {
            // a uniform nonce is this small (or large) with probability 2^-39
            let small = |b: &[u8]| b[..5] == [0; 5];
            let neg = u_to(&p256().n.sub(&[0; 4], &u_from(v)));
            if small(v) || small(&neg) {
                viol(&["C10"], "small", format!("{me} is only {}", hex(v)));
            }
        }
        if let Some(o) = seen.insert(v.clone(), me.clone()) {
            viol(&["C10"], "repeat", format!("{me} equals the {o}: {}", hex(v)));
        }
    }
}

struct Plan {
    server: bool,
    m: &'static Mat,
    auth: bool,
    key: u64,
    full: bool,
    seed: u64,
    rich: u64,
    faults: bool,
}
struct Try {
    f: Fields,
    /// bytes read by the configuring and the running task
    used: [u64; 2],
    /// operations on the device by either
    ops: [u64; 2],
    panic: Option<String>,
    hit: Vec<&'static str>,
}
/// one connection with the given changes of what the device delivers
fn attempt(p: &Plan, add: &[(usize, u64, u8)]) -> Option<Try> {
    let t0 = w().tasks.len();
    // configuration and connection of a server are two tasks, a client does both in one
    for i in 0..2 {
        w().rnd.key.insert(t0 + i, p.key + i as u64);
    }
    w().rnd.flips.clear();
    for (t, o, x) in add {
        w().rnd.flips.insert((t0 + t, *o), *x);
    }
    let a0 = w().accepted.len();
    let conn = w().connect(Owner::None, Owner::None);
    let m = p.m;
    let mut pe = Peer::new(!p.server, p.seed);
    pe.conn = conn;
    pe.end = PeerEnd::Close;
    let full = p.full;
    let e;
    if p.server {
        let share = x25519_base(&pe.xk);
        let mut r = crate::tape::Rng::new(p.seed ^ 0x99);
        pe.ch = offer(&mut r, &share, &SUITES[(p.seed % 3) as usize..], None, p.rich);
        pe.side = 0;
        pe.flight = Some(Box::new(|_| vec![Step::Reset]));
        let opts = SrvOpts {
            cert: "/sim/server.pem".into(),
            key: "/sim/server.key".into(),
            ca: if p.auth { Some("/sim/ca.pem".into()) } else { None },
            keylog: Some("/sim/keylog.s".into()),
            ..Default::default()
        };
        let (l, lfd) = w().listener();
        let srv = make_server(lfd, &opts)?;
        let o = new_out("server", true);
        let tid = spawn_server("server", &srv, &[o], &Script::none(), &After::default());
        drop(srv);
        w().dial(l, conn, 1, 0);
        e = Ep { server: true, o, tid, conn, side: 1, keylog: opts.keylog.clone(), expect: Expect::default(), write_script: 0 };
    } else {
        pe.side = 1;
        pe.suite = Some(SUITES[(p.seed % 3) as usize]);
        pe.key = Some(m.skey.clone());
        pe.chain = vec![m.scert.clone()];
        if full {
            pe.creq = Some((vec![], exts(&[ext(13, &[0, 2, 4, 3])])[2..].to_vec()));
        } else {
            pe.flight = Some(Box::new(|_| vec![Step::Reset]));
        }
        let co = CliOpts {
            sni: None,
            cert: if full { Some(("/sim/client.pem".into(), "/sim/client.key".into())) } else { None },
            keylog: Some("/sim/keylog.c".into()),
            share: false,
        };
        let fd = w().sock_fd(conn, 0);
        let o = new_out("client", false);
        let tid = spawn_client("client", fd, o, &co, &Script::none(), &After::default());
        e = Ep { server: false, o, tid, conn, side: 0, keylog: co.keylog.clone(), expect: Expect::default(), write_script: 0 };
    }
    let ps = pe.side;
    let id = w().add_node(Box::new(pe));
    w().conns[conn].ends[ps].owner = Owner::Node(id);
    w().start_node(id);
    let mut end = drive();
    if end == End_::Stuck {
        w().node_close(conn, ps);
        end = drive();
    }
    if end == End_::Steps || (end != End_::AllDone && w().viol.is_none()) {
        viol(&["C10", "C08"], "hang", format!("{end:?}: {:?}", stuck_tasks()));
        return None;
    }
    let _ = a0;
    let panic = w().tasks[t0..].iter().find_map(|t| t.panic.clone());
    let ks = w().node::<Peer>(id).ks.clone();
    let used = [0, 1].map(|i| w().rnd.consumed.get(&(t0 + i)).copied().unwrap_or(0));
    let ops = [0, 1].map(|i| w().rnd.ops.get(&(t0 + i)).copied().unwrap_or(0));
    let hit: Vec<&'static str> = (t0..w().tasks.len()).flat_map(|t| w().rnd.hit.get(&t).cloned().unwrap_or_default()).collect();
    let sec = ks.as_ref().map(Secrets::from_ks).unwrap_or_default();
    let own = decode(&w().conns[conn].ends[e.side].tx.clone(), e.server, &sec, true);
    let other = decode(&rx_bytes(conn, e.side), !e.server, &sec, true);
    let d = if p.server { &m.skey.d } else { &m.ckey.d };
    let f = fields(&e, &own, &other, sec.suite, Some(d));
    // forget the bulk of it
    w().conns[conn].ends.iter_mut().for_each(|e| e.tx.clear());
    Some(Try { f, used, ops, panic, hit })
}
pub fn rng() {
    let server = yes("rng.server", 1, 2);
    let target = if server { c("rng.field", 4) as usize } else { [0usize, 1, 3][c("rng.field", 3) as usize] };
    let m = pick_mat();
    put_server_files(m);
    put_client_files(&m.ccert, &m.ckey);
    let faults = yes("rng.faulty", 4, 5);
    // the device may return anything
    w().rnd.shape = pk("rng.shape", &[80, 8, 12]) as u8;
    let p = Plan {
        server,
        m,
        auth: target == 2 || yes("auth", 1, 3),
        key: 1 + c("rng.key", 1 << 40),
        full: !server && target == 3,
        seed: c("rng.seed", 1 << 40),
        rich: c("rng.rich", 2),
        faults,
    };
    w().k = Knobs::plain();
    w().max_steps = 20_000_000;
    let mut clean = None;
    if faults {
        // how often is the device used when nothing goes wrong?
        let Some(x) = attempt(&p, &[]) else { return };
        let n = x.ops[0].max(x.ops[1]).clamp(1, 64);
        clean = Some(x);
        for _ in 0..1 + c("rng.nf", 3) {
            let at = c("rng.at", n);
            let f = match c("rng.fault", 7) {
                0 => RndFault::Err(of("rng.errno", &[EAGAIN, EAGAIN, EIO, EMFILE, EACCES, ENOENT, ENOMEM, EPERM, EBADF, ETIMEDOUT])),
                1 => RndFault::Err(of("rng.errno", &[EINTR, EINTR, EAGAIN, EIO])),
                2..=4 => {
                    let f = RndFault::Short(of("rng.shortn", &[1usize, 8, 16, 31, 50, 64, 99]));
                    // and what comes after it
                    match c("rng.then", 6) {
                        0 | 4 => drop(w().rnd.faults.insert(at + 1, RndFault::Eof)),
                        1 | 5 => drop(w().rnd.faults.insert(at + 1, RndFault::Err(of("rng.errno", &[EAGAIN, EIO])))),
                        _ => (),
                    }
                    f
                }
                5 => RndFault::Eof,
                _ => RndFault::Dead,
            };
            w().rnd.faults.insert(at, f);
        }
    }
    let Some(base) = attempt(&p, &[]) else { return };
    let Some(again) = attempt(&p, &[]) else { return };
    if !p.faults {
        if let Some(x) = &base.panic {
            viol(&["C10", "C08"], "panic", x.clone());
            return;
        }
    }
    if let Some(x) = &clean {
        if w().rnd.shape == 0 && regardless(&p, x, &base) {
            return;
        }
    }
    let (name, v0) = base.f.all()[target];
    let who = if server { "server" } else { "client" };
    let h = base.hit.first().copied().unwrap_or("none");
    w().probe(format!("rng.{who}.{name}.fault.{h}.sent{}", v0.is_some() as u8));
    let Some(v0) = v0.clone() else {
        if !p.faults {
            viol(&["C10"], "missing", format!("{who} sent no {name}: {:?} {:?}", base.f, base.panic));
        }
        return;
    };
    if p.faults && !yes("rng.analyse", 1, 3) {
        return;
    }
    // the same bytes of the device must lead to the same values, or nothing can be concluded
    if again.f != base.f {
        w().probe(format!("rng.{who}.not_reproducible"));
        w().count("rng.not_reproducible");
        return;
    }
    w().schedhash = crate::tape::mix(w().schedhash ^ p.key);
    // which bytes matter?
    let mut leaves: Vec<((usize, u64), Fields)> = vec![];
    let mut todo: Vec<(usize, u64, u64)> = vec![];
    for t in 0..2 {
        let n = base.used[t].min(16_384);
        if n > 0 {
            todo.push((t, 0, n));
        }
    }
    let mut tries = 0;
    while let Some((t, a, b)) = todo.pop() {
        let mv: Vec<(usize, u64, u8)> = (a..b).map(|o| (t, o, plus8(&p, t, o))).collect();
        let Some(x) = attempt(&p, &mv) else { return };
        tries += 1;
        if w().viol.is_some() {
            return;
        }
        let v = x.f.all()[target].1.clone();
        if v.as_ref() == Some(&v0) {
            continue;
        }
        if b - a == 1 {
            if v.is_some() {
                leaves.push(((t, a), x.f));
            }
        } else {
            let mid = (a + b) / 2;
            todo.push((t, mid, b));
            todo.push((t, a, mid));
        }
    }
    w().probe(format!("rng.{who}.{name}.analysed"));
    *w().stats.entry("rng.influence_connections").or_insert(0) += tries;
    let val = |f: &Fields| f.all()[target].1.clone().unwrap_or_default();
    let distinct: BTreeSet<Vec<u8>> = leaves.iter().map(|x| val(&x.1)).collect();
    if distinct.len() < 32 {
        viol(
            &["C10"],
            "entropy",
            format!(
                "the {name} of the {who} depends on {} bytes of the device ({} different outcomes), {:?} bytes were read, faults {:?}: {}",
                leaves.len(),
                distinct.len(),
                base.used,
                base.hit,
                hex(&v0)
            ),
        );
        return;
    }
    // and they must be its own
    let own = leaves
        .iter()
        .filter(|(_, f)| {
            !f.all().iter().enumerate().any(|(i, (_, v))| i != target && i != 3 && base.f.all()[i].1.is_some() && v != &base.f.all()[i].1)
        })
        .count();
    if own < 32 {
        viol(
            &["C10"],
            "shared",
            format!("the {name} of the {who} has only {own} bytes of the device for itself, {} are shared with another value", leaves.len() - own),
        );
        return;
    }
    // every bit counts when there are just enough of them
    if leaves.len() <= 33 && target != 1 && w().rnd.shape == 0 {
        let ((t, o), _) = leaves[c("rng.leaf", leaves.len() as u64) as usize].clone();
        for bit in 0..8 {
            let Some(x) = attempt(&p, &[(t, o, 1 << bit)]) else { return };
            if val(&x.f) == v0 {
                viol(&["C10"], "bits", format!("bit {bit} of byte {o} does not matter for the {name} of the {who}, which depends on {} bytes", leaves.len()));
            }
        }
    }
}
/// does the endpoint carry on with what the device did not give it?
fn regardless(p: &Plan, clean: &Try, base: &Try) -> bool {
    let who = if p.server { "server" } else { "client" };
    let sent = |x: &Try| x.f.all().map(|(_, v)| v.is_some());
    let failed: Vec<&&str> = base.hit.iter().filter(|h| **h != "rng.short" && **h != "rng.eintr").collect();
    if !failed.is_empty() && sent(clean) == sent(base) && (0..2).all(|i| base.used[i] <= clean.used[i]) && base.used != clean.used {
        viol(
            &["C10"],
            "regardless",
            format!("the device failed ({failed:?}) and the {who} sent everything all the same, with {:?} instead of {:?} bytes", base.used, clean.used),
        );
        return true;
    }
    // another device, the same faults: nothing may stay as it is
    let q = Plan { key: p.key + 1000, m: p.m, ..*p };
    let Some(other) = attempt(&q, &[]) else { return true };
    for ((n, a), (_, b)) in base.f.all().iter().zip(other.f.all()) {
        if a.is_some() && *a == b {
            viol(&["C10"], "constant", format!("the {n} of the {who} is the same whatever the device delivers (faults {:?}): {}", base.hit, hex(a.as_ref().unwrap())));
            return true;
        }
    }
    false
}
/// many connections with an intact device: no bit of a fresh value is constant
pub fn bits() {
    let server = yes("rng.server", 1, 2);
    let m = pick_mat();
    put_server_files(m);
    put_client_files(&m.ccert, &m.ckey);
    let mut p = Plan {
        server,
        m,
        auth: true,
        key: 1 + c("rng.key", 1 << 40),
        full: !server,
        seed: c("rng.seed", 1 << 40),
        rich: c("rng.rich", 2),
        faults: false,
    };
    w().k = Knobs::plain();
    w().max_steps = 20_000_000;
    let n = 44;
    let mut l: Vec<Fields> = vec![];
    for _ in 0..n {
        p.key += 2;
        p.seed += 1;
        let Some(x) = attempt(&p, &[]) else { return };
        if let Some(x) = &x.panic {
            viol(&["C10", "C08"], "panic", x.clone());
            return;
        }
        l.push(x.f);
    }
    let who = if server { "server" } else { "client" };
    w().probe(format!("rng.bits.{who}"));
    // (field, bytes that must be fresh); the share is a public key, the context may be longer
    for (i, must) in [(0, 32), (2, 0), (3, 32)] {
        let v: Vec<Vec<u8>> = l.iter().filter_map(|f| f.all()[i].1.clone()).collect();
        let name = l[0].all()[i].0;
        if i == 2 {
            // a context of any length, but never twice and not only a few of its bits
            let s: BTreeSet<&Vec<u8>> = v.iter().collect();
            if s.len() != v.len() {
                viol(&["C10"], "repeat", format!("the {name} of the {who} repeats within {n} connections"));
            }
            continue;
        }
        if v.len() < 40 {
            viol(&["C10"], "missing", format!("{who} sent only {} of {n} values of its {name}", v.len()));
            return;
        }
        let (mut or, mut and) = (vec![0u8; must], vec![0xffu8; must]);
        for x in &v {
            for k in 0..must {
                or[k] |= x[k];
                and[k] &= x[k];
            }
        }
        // 2^-31 for a good generator; the group order takes a little of the upper half of the nonce
        for k in 0..must {
            let fixed = !(or[k] ^ and[k]);
            if fixed != 0 {
                viol(
                    &["C10"],
                    "constant",
                    format!("the {name} of the {who} has the same bits {fixed:08b} in byte {k} in all of {n} connections, e.g. {}", hex(&v[0])),
                );
                return;
            }
        }
    }
}
/// the change that adds 8 to this byte of the device (or takes 8 away if there is no room)
fn plus8(p: &Plan, t: usize, o: u64) -> u8 {
    let b = w().rnd_at(p.key + t as u64, o);
    if b < 248 {
        b ^ (b + 8)
    } else {
        b ^ (b - 8)
    }
}
