//! S8 multi: several acceptors, clients and servers in one process; some peers misbehave.
use crate::crypto::*;
use crate::env::*;
use crate::observer::*;
use crate::pki;
use crate::reftls::*;
use crate::s_rng;
use crate::scen::*;
use crate::sut::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// a real client
    Real,
    /// a reference client
    Ref,
    /// a reference client that is refused (proof of the client missing or wrong)
    Reject,
    /// never sends anything, or stops before its hello is complete
    Mute,
    Garbage,
    /// stops within the handshake
    Half,
    /// wrong Finished
    WrongFin,
    /// completes, then stops, resets or sends garbage in place of data
    LateStall,
    LateGarbage,
}
impl Kind {
    fn good(self) -> bool {
        matches!(self, Kind::Real | Kind::Ref)
    }
    /// may the server report success?
    fn may_succeed(self) -> bool {
        self.good() || matches!(self, Kind::LateStall | Kind::LateGarbage)
    }
}
struct Cn {
    conn: usize,
    kind: Kind,
    srv: usize,
    client: Option<(Tid, usize)>,
    peer: Option<NodeId>,
    script: Script,
    cert: Vec<u8>,
    point: Option<(U, U)>,
    key: Option<U>,
}
struct Sv {
    l: usize,
    m: &'static Mat,
    tids: Vec<Tid>,
    outs: Vec<usize>,
    opts: SrvOpts,
}
fn stop_how(n: u64) -> Vec<Step> {
    match n {
        0 | 1 => vec![],
        2 => vec![Step::Close],
        _ => vec![Step::Reset],
    }
}

pub fn multi() {
    let mut k = net_knobs();
    k.delay = of("m.delay", &[0u64, 1, 3, 3]);
    k.preempt = of("m.pre", &[0u64, 100, 500]);
    k.alloc_gap = of("m.apre", &[0u64, 0, 40_000, 5_000]);
    k.edge_gap = of("m.epre", &[0u64, 8, 12, 16]);
    if k.seg == 2 {
        k.seg = 4;
    }
    let cap = k.sndcap;
    w().max_steps = 2_000_000;
    let one_log = yes("m.onelog", 1, 3);
    let clog = "/sim/keylog.c".to_string();
    let slog = if one_log { clog.clone() } else { "/sim/keylog.s".to_string() };
    let pre = if yes("log.pre", 1, 3) { EARLIER.to_vec() } else { vec![] };
    for p in [&clog, &slog] {
        w().put_file(p, pre.clone());
    }
    // ---- servers
    let ns = 1 + pk("m.servers", &[75, 25]);
    let n = 2 + c("m.conns", 5) as usize;
    let nerr = [0, 0, 1, 3][c("m.errs", 4) as usize];
    let mut svs: Vec<Sv> = vec![];
    let mut mats = vec![];
    for i in 0..ns {
        let m = pick_mat();
        mats.push(m);
        let mut opts = SrvOpts {
            cert: format!("/sim/server{i}.pem"),
            key: format!("/sim/server{i}.key"),
            ca: None,
            verify: 0,
            sni: None,
            keylog: Some(slog.clone()),
            simple: false,
        };
        w().put_file(&opts.cert, pki::pem("CERTIFICATE", &m.scert));
        w().put_file(&opts.key, pki::key_pem(&m.skey, true));
        if yes("auth", 1, 2) {
            opts.ca = Some(format!("/sim/ca{i}.pem"));
            opts.verify = [0, 1, 2][c("verify", 3) as usize];
            w().put_file(&format!("/sim/ca{i}.pem"), pki::pem("CERTIFICATE", &m.cacert));
        }
        if yes("m.sni", 1, 3) {
            opts.sni = Some("server.test".into());
        }
        let (l, _) = (w().listeners.len(), 0);
        svs.push(Sv { l, m, tids: vec![], outs: vec![], opts });
        let (l2, lfd) = w().listener();
        assert_eq!(l, l2);
        let Some(_) = make_server(lfd, &svs[i].opts).map(|s| SRV.with(|v| v.borrow_mut().push(s))) else {
            viol(&["C01", "C16"], "config", "server configuration refused".to_string());
            SRV.with(|v| v.borrow_mut().clear());
            return;
        };
    }
    w().k = k.clone();
    // ---- connections to the servers
    let mut cns: Vec<Cn> = vec![];
    for _ in 0..n {
        let s = if ns > 1 { c("m.to", ns as u64) as usize } else { 0 };
        let auth = svs[s].opts.ca.is_some();
        let kinds = [
            Kind::Real,
            Kind::Ref,
            Kind::Reject,
            Kind::Mute,
            Kind::Garbage,
            Kind::Half,
            Kind::WrongFin,
            Kind::LateStall,
            Kind::LateGarbage,
        ];
        let mut kind = kinds[if is_pid("C05") { pk("m.kind", &[30, 24, 30, 2, 2, 4, 4, 2, 2]) } else { pk("m.kind", &[34, 24, 5, 8, 6, 8, 4, 7, 4]) }];
        if kind == Kind::Reject && !auth {
            kind = Kind::Half;
        }
        let conn = w().connect(Owner::None, Owner::None);
        let mut script = gen_script(if kind == Kind::Real { cap } else { usize::MAX }, false);
        script.extra = None;
        script.seed = mixseed(script.seed, conn as u64 + 77);
        cns.push(Cn { conn, kind, srv: s, client: None, peer: None, script, cert: vec![], point: None, key: None });
    }
    // ---- connections of real clients to other servers
    let nout = [0, 0, 1, 2, 3, 4][c("m.out", 6) as usize];
    // ... all by one thread, one after the other, maybe with one configuration
    let series = nout > 1 && yes("m.series", 2, 3);
    let share = series && yes("m.share", 1, 2);
    let mut dials: Vec<Dial> = vec![];
    let mut series_outs: BTreeMap<usize, usize> = BTreeMap::new();
    let mut outside_conns: Vec<Cn> = vec![];
    for _ in 0..nout {
        let conn = w().connect(Owner::None, Owner::None);
        let mut script = gen_script(usize::MAX, false);
        script.extra = None;
        script.seed = mixseed(script.seed, conn as u64 + 77);
        outside_conns.push(Cn { conn, kind: Kind::Ref, srv: 0, client: None, peer: None, script, cert: vec![], point: None, key: None });
    }
    // ---- acceptors
    let plan: Arc<BTreeMap<u16, Script>> =
        Arc::new(cns.iter().map(|x| (x.conn as u16 + 10_000, x.script.clone())).collect());
    let srvs = SRV.with(|v| std::mem::take(&mut *v.borrow_mut()));
    for (i, srv) in srvs.iter().enumerate() {
        let na = 1 + c("m.acc", 3) as usize;
        for a in 0..na {
            let outs: Vec<usize> = (0..n + nerr + 1).map(|j| new_out(&format!("server{i}.{a}.{j}"), true)).collect();
            let plan = plan.clone();
            let t = spawn_server_with(&format!("acceptor{i}.{a}"), srv, &outs, move |port, _| {
                (port.and_then(|p| plan.get(&p)).cloned().unwrap_or_else(Script::none), After::default())
            });
            svs[i].tids.push(t);
            svs[i].outs.extend(outs);
        }
    }
    drop(srvs);
    // ---- who connects
    for x in cns.iter_mut() {
        let m = svs[x.srv].m;
        let auth = svs[x.srv].opts.ca.is_some();
        let name = svs[x.srv].opts.sni.clone();
        let when = [0, 0, 1 + c("m.when", 2000) * MS, 3 * SEC][c("m.whenk", 4) as usize];
        w().dial(svs[x.srv].l, x.conn, 1, when);
        // two client identities of the same CA
        let second = svs[x.srv].opts.verify != 2 && yes("m.ident", 1, 2);
        let (cert, key) = if second { (&m.bcert, &m.bkey) } else { (&m.ccert, &m.ckey) };
        if x.kind == Kind::Real {
            let fd = w().sock_fd(x.conn, 0);
            let o = new_out(&format!("client{}", x.conn), false);
            let mut co = CliOpts { sni: name, cert: None, keylog: Some(clog.clone()), share: false };
            if auth {
                let (a, b) = (format!("/sim/client{}.pem", x.conn), format!("/sim/client{}.key", x.conn));
                w().put_file(&a, pki::pem("CERTIFICATE", cert));
                w().put_file(&b, pki::key_pem(key, true));
                co.cert = Some((a, b));
                x.cert = cert.clone();
                x.point = Some(key.q);
                x.key = Some(key.d);
            }
            let t = spawn_client(&format!("client{}", x.conn), fd, o, &co, &x.script, &After::default());
            x.client = Some((t, o));
            continue;
        }
        let mut p = honest_client(0, name.as_deref());
        p.conn = x.conn;
        p.side = 0;
        p.script = x.script.clone();
        p.end = PeerEnd::Linger;
        p.expect_cert = Some(m.scert.clone());
        p.expect_point = Some(m.skey.q);
        p.start_delay = when;
        if auth {
            p.chain = vec![cert.clone()];
            p.key = Some(key.clone());
        }
        match x.kind {
            Kind::Ref => {
                if yes("m.slow", 1, 3) {
                    // good, but takes its time
                    let d = (1 + c("m.slowby", 50)) * SEC;
                    let at = c("m.slowat", 3);
                    if at == 0 {
                        p.start_delay += d;
                    } else {
                        p.flight = Some(Box::new(move |p| {
                            let mut v = p.client_steps();
                            let i = v.iter().position(|s| s.label() == if at == 1 { "keyhs" } else { "fin" }).unwrap();
                            v.insert(i, Step::Sleep(d));
                            v
                        }));
                    }
                }
            }
            Kind::Reject => match c("m.rej", 7) {
                0 => p.chain = vec![],
                3 | 4 => {
                    // like a good one that may have been here before, in all but its key
                    p.chain = vec![crate::s_evil::twin(m, &m.stranger, c("m.twin", 2) == 0, &mut rs("m.twins"))];
                    p.key = Some(m.stranger.clone());
                }
                5 => {
                    let mut b = m.ccert.clone();
                    let n = b.len();
                    b[n - 1 - c("m.flipat", 30) as usize] ^= 1 << c("m.flipbit", 8);
                    p.chain = vec![b];
                    p.key = Some(m.ckey.clone());
                }
                1 => {
                    // signed by someone else
                    p.chain = vec![m.ocert.clone()];
                    p.key = Some(m.ckey.clone());
                }
                _ => p.key = Some(m.stranger.clone()),
            },
            Kind::Mute => {
                let part = c("m.part", 60) as usize;
                let mut st = stop_how(c("m.stop", 4));
                p.on_start = match c("m.mute", 3) {
                    0 => vec![Step::Flush],
                    1 => vec![Step::Fun(Box::new(move |p: &mut Peer, _: &mut World| {
                        let b = rec(22, &p.ch.build());
                        p.out.extend_from_slice(&b[..part.min(b.len() - 1)]);
                    }))],
                    _ => vec![Step::Raw(rec(20, &[1]))],
                };
                p.on_start.push(Step::Flush);
                p.on_start.append(&mut st);
            }
            Kind::Garbage => {
                let mut r = rs("m.garb");
                let l = 1 + r.below(400) as usize;
                let mut b = r.bytes(l);
                match r.below(4) {
                    0 => b = rec(22, &b),
                    1 => b = [hs(1, &b).as_slice(), &b].concat(),
                    2 => b = b"GET / HTTP/1.1\r\nHost: server.test\r\n\r\n".to_vec(),
                    _ => {}
                }
                let mut st = stop_how(c("m.stop", 4));
                p.on_start = vec![Step::Raw(b), Step::Flush];
                p.on_start.append(&mut st);
            }
            Kind::Half => {
                let at = c("m.half", 8) as usize;
                let mut st = stop_how(c("m.stop", 4));
                if yes("m.noread", 1, 4) {
                    // takes nothing from the server either
                    w().hold(x.conn, 0, true);
                }
                p.flight = Some(Box::new(move |p| {
                    let mut v = p.client_steps();
                    let f = v.iter().position(|s| s.label() == "fin").unwrap();
                    v.truncate(at % (f + 1));
                    v.push(Step::Flush);
                    v.append(&mut st);
                    v
                }));
            }
            Kind::WrongFin => {
                p.flight = Some(Box::new(|p| {
                    let v = p.client_steps();
                    v.into_iter()
                        .map(|s| {
                            if s.label() == "fin" {
                                msg("fin", |p| {
                                    let mut b = p.mk_fin();
                                    let n = b.len();
                                    b[n - 1 - (p.xk[0] as usize % 32)] ^= 1 << (p.xk[1] % 8);
                                    b
                                })
                            } else {
                                s
                            }
                        })
                        .collect()
                }));
            }
            _ => {
                let late = x.kind;
                let mut st = if late == Kind::LateStall {
                    stop_how(c("m.stop", 4))
                } else {
                    vec![Step::Raw(rec(23, &[7; 40])), Step::Flush]
                };
                p.flight = Some(Box::new(move |p| {
                    let mut v = p.client_steps();
                    v.retain(|s| s.label() != "go");
                    v.push(Step::Flush);
                    v.append(&mut st);
                    v
                }));
            }
        }
        if x.kind == Kind::Ref {
            x.cert = p.chain.first().cloned().unwrap_or_default();
            x.point = p.key.as_ref().map(|k| k.q);
        }
        p.close_on_fail = true;
        let id = w().add_node(Box::new(p));
        w().conns[x.conn].ends[0].owner = Owner::Node(id);
        x.peer = Some(id);
    }
    for (i, x) in outside_conns.iter_mut().enumerate() {
        let m = pick_mat();
        let fd = w().sock_fd(x.conn, 0);
        let o = new_out(&format!("client{}", x.conn), false);
        let co = CliOpts { sni: Some("other.example".into()), cert: None, keylog: Some(clog.clone()), share };
        let mut p = honest_server(m, co.sni.as_deref());
        p.conn = x.conn;
        p.side = 1;
        p.script = x.script.clone();
        p.end = PeerEnd::Linger;
        let id = w().add_node(Box::new(p));
        w().conns[x.conn].ends[1].owner = Owner::Node(id);
        x.peer = Some(id);
        x.cert = m.scert.clone();
        x.point = Some(m.skey.q);
        if series {
            series_outs.insert(x.conn, o);
            dials.push(Dial { fd, o, opts: co, sc: x.script.clone(), af: After::default() });
            if i + 1 < nout {
                continue;
            }
            let t = spawn_clients("clients", std::mem::take(&mut dials));
            for y in outside_conns.iter_mut() {
                y.client = Some((t, series_outs[&y.conn]));
            }
            break;
        }
        x.client = Some((spawn_client(&format!("client{}", x.conn), fd, o, &co, &x.script, &After::default()), o));
    }
    for x in cns.iter().chain(outside_conns.iter()) {
        if let Some(p) = x.peer {
            w().start_node(p);
        }
    }
    // TCP-level errors of accept
    for _ in 0..nerr {
        let e = of("m.err", &[ECONNABORTED, EMFILE, ENFILE, EPROTO, 105, 12, 1, 110, EAGAIN]);
        let l = svs[c("m.errl", ns as u64) as usize].l;
        let t = c("m.errt", 4000) * MS;
        w().after(
            t,
            Ev::Call(Box::new(move |w| {
                w.count("net.accept_error");
                w.listeners[l].errs.push_back(e);
                w.wake(&Wait::Accept(l));
            })),
        );
    }
    // ---- phase 1: bad peers keep what they hold
    let bad: BTreeSet<usize> = cns.iter().filter(|x| !x.kind.good()).map(|x| x.conn).collect();
    let e = drive();
    if panics(&["C09"]) || w().viol.is_some() {
        return;
    }
    let tags = &["C09"][..];
    if e == End_::Steps {
        viol(&["C09", "C08"], "steps", format!("step limit: {:?}", stuck_tasks()));
        return;
    }
    let idle = check_waits(&svs, &bad, tags);
    for (i, s) in svs.iter().enumerate() {
        if idle[i] > 0 && !w().listeners[s.l].backlog.is_empty() {
            viol(tags, "backlog", format!("an idle acceptor ignores waiting connections: {:?}", stuck_tasks()));
        }
    }
    if w().viol.is_some() {
        return;
    }
    let taken: BTreeSet<usize> = w().accepted.iter().filter(|a| a.2).map(|a| a.1).collect();
    let served: Vec<&Cn> = cns.iter().filter(|x| x.kind.good() && taken.contains(&x.conn)).collect();
    w().probe(format!(
        "multi.servers{ns}.good{}.bad{}.held{}.errs{nerr}",
        served.len(),
        bad.len(),
        svs.iter().map(|s| s.tids.len()).sum::<usize>() - idle.iter().sum::<usize>()
    ));
    for x in &served {
        good(x, &svs, "while others stall", tags);
    }
    for x in &outside_conns {
        good_out(x, tags);
    }
    // ---- phase 2: the bad peers go away
    let rst = yes("m.bye", 1, 2);
    for cn in &bad {
        for s in 0..2 {
            w().conns[*cn].hold[s] = false;
            let held = std::mem::take(&mut w().conns[*cn].held[s]);
            drop(held);
        }
        if rst {
            w().node_reset(*cn, 0)
        } else {
            w().node_close(*cn, 0)
        }
    }
    drive();
    if panics(&["C09"]) || w().viol.is_some() {
        return;
    }
    let idle = check_waits(&svs, &BTreeSet::new(), tags);
    for (i, s) in svs.iter().enumerate() {
        if idle[i] != s.tids.len() {
            viol(tags, "hang", format!("acceptors do not return to the listener after every bad peer left: {:?}", stuck_tasks()));
        }
        if !w().listeners[s.l].backlog.is_empty() {
            viol(tags, "backlog", format!("connections are still waiting: {:?}", stuck_tasks()));
        }
    }
    for x in cns.iter().filter(|x| x.kind.good()) {
        good(x, &svs, "after the others left", tags);
    }
    // ---- the end
    for s in &svs {
        w().listeners[s.l].closed = true;
        let l = s.l;
        w().wake(&Wait::Accept(l));
    }
    if w().viol.is_some() {
        return;
    }
    let e = drive();
    if e != End_::AllDone && w().viol.is_none() {
        viol(tags, "hang", format!("tasks still running after the listener was closed: {:?}", stuck_tasks()));
    }
    if panics(&["C09"]) || w().viol.is_some() {
        return;
    }
    // ---- what bad peers got
    let mut eps: Vec<(Ep, Option<Ks>, bool, Option<U>)> = vec![];
    for s in &svs {
        for o in &s.outs {
            let x = out(*o);
            let Some(cn) = x.conn else { continue };
            let k = cns.iter().find(|c| c.conn == cn).unwrap();
            if x.hs == Some(Ok(())) {
                if x.port as usize != cn + 10_000 {
                    viol(tags, "address", format!("accept returned the address of port {} for connection {cn}", x.port));
                }
                if !k.kind.may_succeed() {
                    viol(&["C09", "C05"], "accepted", format!("the {:?} peer of connection {cn} was accepted", k.kind));
                }
            }
            let want = k.script.content(0, 0, k.script.total(0));
            if !want.starts_with(&x.rx) {
                viol(&["C09", "C03"], "crossed", format!("connection {cn} delivered {} bytes that its peer did not send", x.rx.len()));
            }
            let ks = k.peer.and_then(|p| w().node::<Peer>(p).ks.clone());
            let creal = k.client.is_some();
            eps.push((
                Ep {
                    server: true,
                    o: *o,
                    tid: 0,
                    conn: cn,
                    side: 1,
                    keylog: s.opts.keylog.clone(),
                    expect: Expect {
                        server: true,
                        cert: s.m.scert.clone(),
                        point: Some(s.m.skey.q),
                        client_auth: s.opts.ca.is_some(),
                        sni: s.opts.sni.clone(),
                    },
                    write_script: k.script.total(1),
                },
                ks,
                creal,
                Some(s.m.skey.d),
            ));
        }
    }
    for x in cns.iter().chain(outside_conns.iter()) {
        let Some((tid, o)) = x.client else { continue };
        let outer = x.peer.is_some();
        eps.push((
            Ep {
                server: false,
                o,
                tid,
                conn: x.conn,
                side: 0,
                keylog: Some(clog.clone()),
                expect: Expect {
                    server: false,
                    cert: if outer { vec![] } else { x.cert.clone() },
                    point: if outer { None } else { x.point },
                    client_auth: false,
                    sni: if outer { Some("other.example".into()) } else { svs[x.srv].opts.sni.clone() },
                },
                write_script: x.script.total(0),
            },
            x.peer.and_then(|p| w().node::<Peer>(p).ks.clone()),
            !outer,
            if outer { None } else { x.key },
        ));
    }
    // ---- the shared log
    let (log, badl) = parse_keylog(&[w().vfs.files[&clog].clone(), if one_log { vec![] } else { w().vfs.files[&slog].clone() }].concat());
    if let Some(b) = badl.first() {
        viol(&["C12"], "malformed", format!("key log line {b:?}"));
    }
    for p in [&clog, &slog] {
        if !w().vfs.files[p].starts_with(&pre) {
            viol(&["C12"], "prefix", format!("{p} no longer starts with what it held before"));
        }
    }
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut logs: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    for (e, ks, both, d) in &eps {
        let a = audit(e, &AuditOpts { ks: ks.clone(), log_faults: *both && one_log, ..Default::default() });
        let who = format!("{} of connection {}", if e.server { "server" } else { "client" }, e.conn);
        s_rng::unique(&mut seen, &who, e, &a, d.as_ref());
        let ch = if e.server { &a.other } else { &a.own };
        if let Some(cr) = ch.hello().filter(|m| m[0] == CH && m.len() > 38).map(|m| hex(&m[6..38])) {
            let x = logs.entry(cr).or_default();
            if a.ok {
                x.0 += 1;
            }
            x.1 += 1;
        }
    }
    for (cr, (must, may)) in &logs {
        for lb in LABELS {
            let v = log.get(cr).and_then(|x| x.get(lb)).cloned().unwrap_or_default();
            if (v.len() as u64) < *must || v.len() as u64 > *may || v.iter().any(|x| *x != v[0]) {
                viol(&["C12", "C09"], "shared", format!("{lb} of client random {cr}: {v:?}, expected {must} to {may} equal lines"));
            }
        }
    }
    for cr in log.keys() {
        if !logs.contains_key(cr) && !cr.starts_with("0011223344") {
            viol(&["C12"], "foreign", format!("the key log holds a line for unknown client random {cr}"));
        }
    }
}
thread_local! {
    static SRV: std::cell::RefCell<Vec<Srv>> = const { std::cell::RefCell::new(vec![]) };
}
/// acceptors wait for connections or for their own bad peer, nothing else; returns the idle ones per server
fn check_waits(svs: &[Sv], bad: &BTreeSet<usize>, tags: &[&str]) -> Vec<usize> {
    let mut v = vec![];
    for s in svs {
        let mut idle = 0;
        for t in &s.tids {
            let st = w().tasks[*t].state.clone();
            match &st {
                TState::Blocked(Wait::Accept(_)) => idle += 1,
                TState::Blocked(Wait::Rx(cn, 1)) | TState::Blocked(Wait::Tx(cn, 1)) if bad.contains(cn) => {
                    let own = w().accepted.iter().rev().find(|a| a.0 == *t && a.2).map(|a| a.1);
                    if own != Some(*cn) {
                        viol(tags, "crossed", format!("{} waits for connection {cn} of another acceptor", w().tasks[*t].name));
                    }
                }
                _ => {
                    let name = w().tasks[*t].name.clone();
                    viol(tags, "disturbed", format!("{name} is {st:?} although its peer behaves: {:?}", stuck_tasks()));
                }
            }
        }
        v.push(idle);
    }
    v
}
/// a well-behaved connection through a server under test
fn good(x: &Cn, svs: &[Sv], when: &str, tags: &[&str]) {
    let o = svs[x.srv].outs.iter().map(|o| out(*o)).find(|o| o.conn == Some(x.conn));
    let Some(o) = o else {
        viol(tags, "unserved", format!("connection {} was never served {when}: {:?}", x.conn, stuck_tasks()));
        return;
    };
    let cl = x.client.map(|c| out(c.1));
    let peer = x.peer.map(|p| {
        let p = w().node::<Peer>(p);
        (p.done, p.fail.clone(), p.got.clone(), p.stage)
    });
    let tell = || {
        format!(
            "connection {} {when}: server hs={:?} err={:?} rx={} wrote={} client={:?} peer={:?}",
            x.conn,
            o.hs,
            o.err,
            o.rx.len(),
            o.wrote,
            cl.as_ref().map(|c| (&c.hs, &c.err, c.rx.len(), c.wrote)),
            peer.as_ref().map(|p| (p.0, &p.1, p.2.len(), p.3))
        )
    };
    let sc = &x.script;
    let (a, b) = (sc.content(0, 0, sc.total(0)), sc.content(1, 0, sc.total(1)));
    let mut ok = o.hs == Some(Ok(())) && o.err.is_none() && o.script_done;
    if let Some(c) = &cl {
        ok &= c.hs == Some(Ok(())) && c.err.is_none() && c.script_done;
    }
    if let Some(p) = &peer {
        ok &= p.0 && p.1.is_none();
    }
    if !ok {
        viol(tags, "failed", format!("a well-behaved connection failed: {}", tell()));
        return;
    }
    if o.rx != a || cl.as_ref().map(|c| c.rx != b).unwrap_or(false) || peer.as_ref().map(|p| p.2 != b).unwrap_or(false) {
        viol(tags, "crossed", format!("wrong data: {}", tell()));
    }
}
/// a client under test with a reference server
fn good_out(x: &Cn, tags: &[&str]) {
    let o = out(x.client.unwrap().1);
    let p = w().node::<Peer>(x.peer.unwrap());
    let (done, fail, got) = (p.done, p.fail.clone(), p.got.clone());
    let sc = &x.script;
    if o.hs != Some(Ok(())) || o.err.is_some() || !o.script_done || !done || fail.is_some() {
        viol(tags, "failed", format!("an independent client failed: {:?} {:?} peer {done} {fail:?}", o.hs, o.err));
        return;
    }
    if o.rx != sc.content(1, 0, sc.total(1)) || got != sc.content(0, 0, sc.total(0)) {
        viol(tags, "crossed", format!("an independent client (connection {}) got or sent wrong data", x.conn));
    }
}
#[allow(dead_code)]
fn unused(_: &Secrets) {}
/// Many connections one after the other on one server, most of them bad: nothing of them may stay
/// behind that keeps later clients out. The process may only open so many files.
pub fn crowd() {
    let mut k = net_knobs();
    if k.seg == 2 {
        k.seg = 4;
    }
    k.delay = of("m.delay", &[0u64, 1]);
    w().max_steps = 3_000_000;
    let m = pick_mat();
    let slog = "/sim/keylog.s".to_string();
    let mut opts = SrvOpts {
        cert: "/sim/server.pem".into(),
        key: "/sim/server.key".into(),
        ca: None,
        verify: 0,
        sni: None,
        keylog: Some(slog.clone()),
        simple: false,
    };
    put_server_files(m);
    let auth = yes("auth", 1, 3);
    if auth {
        opts.ca = Some("/sim/ca.pem".into());
    }
    let (l, lfd) = w().listener();
    let Some(srv) = make_server(lfd, &opts) else {
        viol(&["C01", "C16"], "config", "server configuration refused".to_string());
        return;
    };
    if yes("cr.logfault", 1, 4) {
        let kn = FileKnobs { open_err: of("cr.oe", &[0, 300, 1000]), wr_err: of("cr.we", &[0, 300]), wr_short: of("cr.ws", &[0, 500]), ..Default::default() };
        w().vfs.knobs.insert("keylog", kn);
    }
    w().k = k;
    let tags = &["C09"][..];
    // ---- how the bad ones behave; one kind only, or any
    let only = if yes("cr.mixed", 1, 3) { None } else { Some(pk("cr.kind", &[14, 14, 14, 10, 8, 14, 14, 6, 6])) };
    let costly = matches!(only, None | Some(5..));
    let n = if costly { 70 + c("cr.n", 80) } else { 90 + c("cr.n", 330) } as usize;
    let gap = of("cr.gap", &[0u64, 1, 20]) * MS;
    let na = 1 + c("m.acc", 2) as usize;
    let mut svs = vec![Sv { l, m, tids: vec![], outs: vec![], opts: opts.clone() }];
    let mut r = rs("cr.rng");
    let mut cns: Vec<Cn> = vec![];
    // places of the good ones
    let good_at = [c("cr.g0", n as u64) as usize, n, n + 1, n + 2];
    let mut who = vec![];
    for i in 0..n + 3 {
        let conn = w().connect(Owner::None, Owner::None);
        let kind = if good_at.contains(&i) {
            if (i + n) % 2 == 0 { Kind::Real } else { Kind::Ref }
        } else {
            Kind::Garbage
        };
        let mut script = Script::none();
        script.seed = mixseed(4242, conn as u64);
        let how = only.unwrap_or_else(|| r.below(9) as usize);
        if kind.good() || how == 8 {
            // one after the other: both writing at once may fill both buffers
            script.rounds = vec![Round { len: [1 + r.below(300) as usize, 0] }, Round { len: [0, 1 + r.below(300) as usize] }];
        }
        who.push(how);
        cns.push(Cn { conn, kind, srv: 0, client: None, peer: None, script, cert: vec![], point: None, key: None });
    }
    let plan: Arc<BTreeMap<u16, Script>> =
        Arc::new(cns.iter().map(|x| (x.conn as u16 + 10_000, x.script.clone())).collect());
    for a in 0..na {
        let outs: Vec<usize> = (0..n + 10).map(|j| new_out(&format!("server{a}.{j}"), true)).collect();
        let plan = plan.clone();
        let t = spawn_server_with(&format!("acceptor{a}"), &srv, &outs, move |port, _| {
            (port.and_then(|p| plan.get(&p)).cloned().unwrap_or_else(Script::none), After::default())
        });
        svs[0].tids.push(t);
        svs[0].outs.extend(outs);
    }
    drop(srv);
    for (i, x) in cns.iter_mut().enumerate() {
        let when = if i < n { i as u64 * gap } else { n as u64 * gap + (i - n + 1) as u64 * SEC };
        w().dial(l, x.conn, 1, when);
        if x.kind == Kind::Real {
            let fd = w().sock_fd(x.conn, 0);
            let o = new_out(&format!("client{}", x.conn), false);
            let mut co = CliOpts { sni: None, cert: None, keylog: None, share: false };
            if auth {
                put_client_files(&m.ccert, &m.ckey);
                co.cert = Some(("/sim/client.pem".into(), "/sim/client.key".into()));
            }
            let t = spawn_client(&format!("client{}", x.conn), fd, o, &co, &x.script, &After::default());
            x.client = Some((t, o));
            continue;
        }
        let mut p = Peer::new(false, mixseed(c("ref.seed", 1 << 40), i as u64));
        let share = x25519_base(&p.xk);
        p.ch = offer(&mut r, &share, &SUITES, None, 0);
        p.conn = x.conn;
        p.side = 0;
        p.script = x.script.clone();
        p.end = PeerEnd::Close;
        p.start_delay = when;
        if auth {
            p.chain = vec![m.ccert.clone()];
            p.key = Some(m.ckey.clone());
        }
        if !x.kind.good() {
            let bye = if r.below(3) == 0 { Step::Reset } else { Step::Close };
            match who[i] {
                0 => p.on_start = vec![bye],
                1 => {
                    let b = rec(22, &p.ch.build());
                    let cut = r.below(b.len() as u64) as usize;
                    p.on_start = vec![Step::Raw(b[..cut].to_vec()), Step::Flush, bye];
                }
                2 => {
                    let len = 1 + r.below(300) as usize;
                    let b = r.bytes(len);
                    p.on_start = vec![Step::Raw(if r.below(2) == 0 { rec(22, &b) } else { b }), Step::Flush, bye];
                }
                3 => p.on_start = vec![Step::Raw(rec(21, &[2, 40])), Step::Flush, bye],
                4 => {
                    // nothing in common
                    p.ch = offer(&mut r, &share, &[], None, 0);
                }
                5 => {
                    // takes the flight of the server and leaves
                    p.flight = Some(Box::new(move |_| vec![bye]));
                }
                6 => {
                    p.flight = Some(Box::new(|p| {
                        let mut v = vec![Step::KeyHs];
                        if p.creq.is_some() {
                            v.extend([msg("cert", |p| p.mk_cert()), msg("cv", |p| p.mk_cv())]);
                        }
                        v.extend([msg("fin", |p| hs(FIN, &p.rng.bytes(32))), Step::Flush]);
                        v
                    }));
                }
                7 => {
                    p.flight = Some(Box::new(move |_| vec![Step::KeyHs, Step::Raw(rec(23, &[9; 60])), Step::Flush, bye]));
                }
                _ => {} // a good one, served like any other
            }
        }
        let id = w().add_node(Box::new(p));
        w().conns[x.conn].ends[0].owner = Owner::Node(id);
        x.peer = Some(id);
        w().start_node(id);
    }
    // what is open now (client sockets are part of it), and room for the threads
    w().fd_limit = w().fds.len() + 3 * na + 24;
    let e = drive();
    if panics(tags) || w().viol.is_some() {
        return;
    }
    if e == End_::Steps {
        viol(tags, "steps", format!("step limit: {:?}", stuck_tasks()));
        return;
    }
    w().probe(format!("crowd.only{only:?}.acc{na}.n{}", n / 64));
    for x in cns.iter().filter(|x| x.kind.good()) {
        good(x, &svs, &format!("in a series of {n} (kind {only:?})"), tags);
        if w().viol.is_some() {
            return;
        }
    }
    check_waits(&svs, &BTreeSet::new(), tags);
    if !w().listeners[l].backlog.is_empty() {
        viol(tags, "backlog", format!("connections are still waiting: {:?}", stuck_tasks()));
    }
    // sockets of failed accepts are closed
    let open = cns.iter().filter(|x| w().conns[x.conn].ends[1].fdrefs > 0).count();
    if open > 0 {
        viol(&["C09", "C20"], "leak", format!("{open} of {n} sockets are still open although every connection is over (kind {only:?})"));
    }
    // memory that stays behind, counted over the second half of the series
    for a in 0..na {
        let v: Vec<i64> = svs[0].outs[a * (n + 10)..(a + 1) * (n + 10)]
            .iter()
            .map(|o| out(*o))
            .filter(|o| matches!(o.hs, Some(Err(_))))
            .map(|o| o.live)
            .collect();
        if v.len() >= 60 {
            let h = v.len() / 2;
            let grow = v[v.len() - 1] - v[h];
            if grow > 512 * (v.len() - h) as i64 {
                viol(&["C09", "C08"], "memory", format!("{} failed connections left {grow} bytes behind (kind {only:?})", v.len() - h));
            }
        }
    }
    for a in 0..na {
        let v: Vec<Out> = svs[0].outs[a * (n + 10)..(a + 1) * (n + 10)].iter().map(|o| out(*o)).filter(|o| o.done).collect();
        no_growth(&v, &format!("kind {only:?}"));
    }
    for (i, x) in cns.iter().enumerate() {
        if x.kind.good() || who[i] == 8 {
            continue;
        }
        if let Some(o) = svs[0].outs.iter().map(|o| out(*o)).find(|o| o.conn == Some(x.conn)) {
            if o.hs == Some(Ok(())) {
                viol(&["C09", "C05"], "accepted", format!("the bad peer {} of connection {} was accepted", who[i], x.conn));
            }
        }
    }
    w().listeners[l].closed = true;
    w().wake(&Wait::Accept(l));
    if w().viol.is_some() {
        return;
    }
    if drive() != End_::AllDone && w().viol.is_none() {
        viol(tags, "hang", format!("tasks still running after the listener was closed: {:?}", stuck_tasks()));
    }
    panics(tags);
}

/// One thread of a client application connects again and again, to servers of all sorts.
pub fn series() {
    let mut k = net_knobs();
    if k.seg == 2 {
        k.seg = 4;
    }
    k.delay = of("m.delay", &[0u64, 1]);
    w().max_steps = 3_000_000;
    let m = pick_mat();
    let n = 30 + c("se.n", 100) as usize;
    let only = if yes("se.mixed", 1, 2) { None } else { Some(pk("se.kind", &[10, 10, 10, 10, 10, 10, 10, 10, 10])) };
    let mut co = CliOpts { sni: None, cert: None, keylog: Some("/sim/keylog.c".into()), share: yes("share", 1, 2) };
    if yes("clicert", 1, 3) {
        put_client_files(&m.ccert, &m.ckey);
        co.cert = Some(("/sim/client.pem".into(), "/sim/client.key".into()));
    }
    w().put_file("/sim/keylog.c", vec![]);
    if yes("se.logfault", 1, 3) {
        let kn = FileKnobs { open_err: of("se.oe", &[0, 300, 1000]), wr_err: of("se.we", &[0, 300]), wr_short: of("se.ws", &[0, 500]), ..Default::default() };
        w().vfs.knobs.insert("keylog", kn);
    }
    w().k = k;
    let mut r = rs("se.rng");
    let mut list = vec![];
    let mut outs = vec![];
    let mut peers = vec![];
    let serials = yes("se.serials", 1, 2);
    for i in 0..n {
        let conn = w().connect(Owner::None, Owner::None);
        let how = if i + 1 == n { 8 } else { only.unwrap_or_else(|| r.below(9) as usize) };
        let mut script = Script::none();
        script.seed = mixseed(777, conn as u64);
        if how >= 7 {
            script.rounds = vec![Round { len: [1 + r.below(3000) as usize, 0] }, Round { len: [0, 1 + r.below(3000) as usize] }];
        }
        let mut p = Peer::new(true, mixseed(c("ref.seed", 1 << 40), i as u64));
        p.suite = Some(SUITES[r.below(3) as usize]);
        p.key = Some(m.skey.clone());
        p.chain = vec![if serials { pki::other_serial(&m.scert, &mut r) } else { m.scert.clone() }];
        p.conn = conn;
        p.side = 1;
        p.script = script.clone();
        p.end = PeerEnd::Close;
        p.ignore_bad = how < 7;
        let bye = if r.below(3) == 0 { Step::Reset } else { Step::Close };
        let b = r.bytes(40);
        match how {
            0 => p.on_start = vec![bye],
            1 => p.on_start = vec![Step::Raw(if b[0] & 1 == 0 { rec(22, &b) } else { b }), Step::Flush, bye],
            2 => p.flight = Some(Box::new(move |_| vec![Step::Raw(rec(21, &[2, 40])), Step::Flush, bye])),
            3 => p.flight = Some(Box::new(move |_| vec![msg("sh", |p| p.mk_sh()), Step::KeyHs, msg("ee", |p| p.mk_ee()), Step::Flush, bye])),
            4 => {
                p.flight = Some(Box::new(move |_| {
                    vec![
                        msg("sh", |p| p.mk_sh()),
                        Step::KeyHs,
                        msg("ee", |p| p.mk_ee()),
                        msg("cert", |p| p.mk_cert()),
                        msg("cv", |p| Peer::cv_bytes(0x0403, &p.rng.bytes(70))),
                        msg("fin", |p| p.mk_fin()),
                        Step::Flush,
                    ]
                }))
            }
            5 => {
                p.flight = Some(Box::new(move |_| {
                    vec![
                        msg("sh", |p| p.mk_sh()),
                        Step::KeyHs,
                        msg("ee", |p| p.mk_ee()),
                        msg("cert", |p| p.mk_cert()),
                        msg("cv", |p| p.mk_cv()),
                        msg("fin", |p| hs(FIN, &p.rng.bytes(32))),
                        Step::Flush,
                    ]
                }))
            }
            6 => p.flight = Some(Box::new(move |_| vec![msg("sh", |p| p.mk_sh()), Step::Raw(rec(23, &[9; 60])), Step::Flush, bye])),
            // leaves in the middle of the data
            7 => p.script.rounds[1].len[1] /= 2,
            _ => {}
        }
        let id = w().add_node(Box::new(p));
        w().conns[conn].ends[1].owner = Owner::Node(id);
        peers.push(id);
        let fd = w().sock_fd(conn, 0);
        let o = new_out(&format!("client{i}"), false);
        outs.push((o, how));
        list.push(Dial { fd, o, opts: co.clone(), sc: script, af: After { post: (how == 7) as usize, ..After::default() } });
    }
    w().fd_limit = w().fds.len() + 6;
    spawn_clients("client", list);
    for p in peers {
        w().start_node(p);
    }
    let e = drive();
    if panics(&["C20"]) || w().viol.is_some() {
        return;
    }
    if e != End_::AllDone {
        viol(&["C20", "C08"], "hang", format!("the series did not end: {e:?} {:?}", stuck_tasks()));
        return;
    }
    w().probe(format!("series.only{only:?}"));
    for (o, how) in &outs {
        let x = out(*o);
        match how {
            8 if x.hs != Some(Ok(())) || !x.script_done => {
                viol(&["C20", "C01"], "failed", format!("{} of {n} failed with {:?} {:?} (kind {only:?})", x.name, x.hs, x.err));
                return;
            }
            0..=6 if x.hs == Some(Ok(())) => {
                viol(&["C20", "C04"], "accepted", format!("{} completed with a bad server ({how})", x.name));
                return;
            }
            _ => {}
        }
    }
    let v: Vec<Out> = outs.iter().map(|x| out(x.0)).collect();
    no_growth(&v, &format!("kind {only:?}"));
}
