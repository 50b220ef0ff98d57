//! S12: several connections to the same endpoint, one after the other; some of the peers prove
//! what they have to prove, others only look like one that did.
use crate::crypto::*;
use crate::env::*;
use crate::pki::{self, CertSpec};
use crate::reftls::*;
use crate::s_evil::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// wall clock when the client sends its part, by connection
static SENT: Mutex<BTreeMap<usize, i64>> = Mutex::new(BTreeMap::new());
static SEEN_CV: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
fn seen() -> std::sync::MutexGuard<'static, Vec<Vec<u8>>> {
    SEEN_CV.lock().unwrap_or_else(|e| e.into_inner())
}
fn kept_cv() -> Step {
    msg("cv", |p| {
        let b = p.mk_cv();
        seen().push(b.clone());
        b
    })
}
fn old_cv(n: u64) -> Step {
    msg("cv", move |p| {
        let s = seen();
        if s.is_empty() {
            Peer::cv_bytes(0x0403, &p.rng.bytes(70))
        } else {
            s[(n % s.len() as u64) as usize].clone()
        }
    })
}
/// bad messages with good ones behind or before them
pub fn twice(r: &mut Rng, server: bool, m: &'static Mat) -> (String, Vec<Step>) {
    let key = if server { m.skey.clone() } else { m.ckey.clone() };
    let (w1, c1) = bad_cv(r, server, key.clone(), m.stranger.clone());
    let (w2, c2) = bad_cv(r, server, key, m.stranger.clone());
    let (w3, f1) = bad_fin(r);
    let (_, f2) = bad_fin(r);
    let cut = r.below(60) as usize + 1;
    let n = |l| named(l);
    // the bad one counts for the sender's transcript or not
    let ghost = r.below(2) == 0;
    let x = |l: &'static str, f: Mk| if ghost { Step::Ghost(l, f) } else { Step::Msg(l, f) };
    match r.below(7) {
        0 => (format!("{w1}, then a good one"), vec![n("cert"), x("cv", c1), n("cv"), n("fin")]),
        1 => (format!("{w1}, then {w2}"), vec![n("cert"), x("cv", c1), Step::Msg("cv", c2), n("fin")]),
        2 => (format!("{w3}, then a good one"), vec![n("cert"), n("cv"), x("fin", f1), n("fin")]),
        3 => (format!("{w3}, then another"), vec![n("cert"), n("cv"), x("fin", f1), Step::Msg("fin", f2)]),
        4 => (format!("{w1}, then {w3}, then a good one"), vec![n("cert"), x("cv", c1), x("fin", f1), n("fin")]),
        5 => (
            "part of a certificate, then a good one".into(),
            vec![
                x("cert", Box::new(move |p: &mut Peer| {
                    let ctx = p.creq.as_ref().map(|x| x.0.clone()).unwrap_or_default();
                    let ctx = if p.server { vec![] } else { ctx };
                    let x = p.chain[0].clone();
                    CertMsg { ctx, chain: vec![(x[..x.len() - cut.min(x.len() - 1)].to_vec(), vec![])] }.build()
                })),
                n("cert"),
                n("cv"),
                n("fin"),
            ],
        ),
        _ => (format!("a good one, then {w1}"), vec![n("cert"), n("cv"), x("cv", c1), n("fin")]),
    }
}
fn quiet_net() {
    let mut k = net_knobs();
    if k.seg == 2 {
        k.seg = 4;
    }
    k.delay = of("m.delay", &[0u64, 1, 3]);
    w().max_steps = 3_000_000;
    w().k = k;
    seen().clear();
    REVOKED.store(false, Ordering::SeqCst);
}

/// how many connections, and whether those that fail all fail the same way (the seed of it)
fn length() -> (usize, Option<u64>) {
    let streak = yes("ag.streak", 1, 4);
    let n = if streak { 4 + c("ag.n", 22) } else { 2 + c("ag.n", 7) };
    (n as usize, if streak { Some(c("ag.kind", 1 << 40)) } else { None })
}
fn turn(r: &mut Rng, streak: Option<u64>, i: usize, n: usize) -> bool {
    match streak {
        Some(_) => i == 0 || i + 1 == n,
        None => i == 0 || r.below(5) < 2,
    }
}
/// C04: one real client thread, many servers
pub fn again_client() {
    let m = pick_mat();
    let (n, streak) = length();
    let mut co = CliOpts { sni: None, cert: None, keylog: None, share: yes("share", 2, 3) };
    if yes("clicert", 1, 4) {
        put_client_files(&m.ccert, &m.ckey);
        co.cert = Some(("/sim/client.pem".into(), "/sim/client.key".into()));
    }
    quiet_net();
    let mut r = rs("ag.rng");
    let own = pki::cert(&CertSpec::plain("server.test", "server.test"), &m.stranger, &m.stranger, &mut r);
    let base = c("ref.seed", 1 << 40);
    let fixed = yes("ag.suite", 1, 2);
    let mut list = vec![];
    let mut outs = vec![];
    let mut peers = vec![];
    for i in 0..n {
        let conn = w().connect(Owner::None, Owner::None);
        let good = turn(&mut r, streak, i, n);
        let mut script = Script::none();
        script.seed = mixseed(777, conn as u64);
        if good {
            script.rounds = vec![Round { len: [1 + r.below(300) as usize, 0] }, Round { len: [0, 1 + r.below(300) as usize] }];
        }
        // the same hello again, or another
        let mut p = Peer::new(true, mixseed(base, if r.below(3) == 0 { 0 } else { i as u64 }));
        p.suite = Some(SUITES[if fixed { (base % 3) as usize } else { r.below(3) as usize }]);
        p.key = Some(m.skey.clone());
        p.chain = vec![m.scert.clone()];
        p.conn = conn;
        p.side = 1;
        p.script = script.clone();
        p.end = PeerEnd::Close;
        if r.below(3) == 0 {
            p.creq = Some((vec![], exts(&[ext(13, &v16(&[4, 3]))])[2..].to_vec()));
        }
        let mut head = vec!["sh", "keyhs", "ee"];
        if p.creq.is_some() {
            head.push("creq");
        }
        let mut steps = named_all(&head);
        let what;
        if good {
            if r.below(4) == 0 {
                // somebody else, with an own certificate
                p.chain = vec![own.clone()];
                p.key = Some(m.stranger.clone());
                what = "other".to_string();
            } else {
                what = String::new();
            }
            steps.extend([named("cert"), kept_cv(), named("fin")]);
        } else {
            p.ignore_bad = true;
            if let Some(x) = streak {
                r = Rng::new(x);
            }
            match r.below(8) {
                0 | 1 => {
                    let (w_, f) = bad_cv(&mut r, true, m.skey.clone(), m.stranger.clone());
                    what = w_;
                    steps.extend([named("cert"), Step::Msg("cv", f), named("fin")]);
                }
                2 => {
                    let (w_, f) = bad_fin(&mut r);
                    what = w_;
                    steps.extend([named("cert"), named("cv"), Step::Msg("fin", f)]);
                }
                3 => {
                    let (w_, l) = bad_order(&mut r, &["cert", "cv", "fin"]);
                    what = w_;
                    steps.extend(named_all(&l));
                }
                4 | 5 => {
                    what = "CertificateVerify of an earlier connection".into();
                    steps.extend([named("cert"), old_cv(r.next()), named("fin")]);
                }
                6 => {
                    let (w_, l) = twice(&mut r, true, m);
                    what = w_;
                    steps.extend(l);
                }
                _ => {
                    what = "victim certificate first, own certificate behind it".into();
                    p.chain = vec![m.scert.clone(), own.clone()];
                    p.key = Some(m.stranger.clone());
                    steps.extend(named_all(&["cert", "cv", "fin"]));
                }
            }
        }
        steps.push(Step::KeyAp);
        steps.push(Step::Go);
        if !good {
            steps.push(Step::Flush);
            steps.push(if r.below(3) == 0 { Step::Reset } else { Step::Close });
        }
        p.flight = Some(Box::new(move |_| steps));
        let id = w().add_node(Box::new(p));
        w().conns[conn].ends[1].owner = Owner::Node(id);
        peers.push(id);
        let fd = w().sock_fd(conn, 0);
        let o = new_out(&format!("client{i}"), false);
        outs.push((o, good, what));
        list.push(Dial { fd, o, opts: co.clone(), sc: script, af: After::default() });
    }
    w().count("peer.no_proof");
    spawn_clients("client", list);
    for p in peers {
        w().start_node(p);
    }
    let e = drive();
    if panics(&["C20", "C08"]) || w().viol.is_some() {
        return;
    }
    if e != End_::AllDone {
        viol(&["C20", "C08"], "hang", format!("the series did not end: {e:?} {:?}", stuck_tasks()));
        return;
    }
    for (i, (o, good, what)) in outs.iter().enumerate() {
        let x = out(*o);
        w().probe(format!("again_client.{i}.{what}"));
        if *good && (x.hs != Some(Ok(())) || !x.script_done) {
            viol(&["C01", "C09", "C20"], "failed", format!("{} of {n} failed with {:?} {:?}", x.name, x.hs, x.err));
            return;
        }
        if !*good && x.hs == Some(Ok(())) {
            viol(&["C04"], "accepted", format!("{} of {n} completed with a server without proof: {what}", x.name));
            return;
        }
    }
}

/// C05/C06: one real server, many clients
pub fn again_server() {
    let m = pick_mat();
    let (n, streak) = length();
    quiet_net();
    let mut r = rs("ag.rng");
    put_server_files(m);
    let verify = [0u8, 1, 2, 4, 4][c("ag.verify", 5) as usize];
    let opts = SrvOpts {
        cert: "/sim/server.pem".into(),
        key: "/sim/server.key".into(),
        ca: Some("/sim/ca.pem".into()),
        verify,
        ..Default::default()
    };
    // how long the certificate of the good client lives
    let short = yes("ag.short", 1, if is_pid("C06") { 1 } else { 3 });
    let life = 60 + c("ag.life", 100_000);
    let t0 = w().wall().0;
    let na = t0 + life as i64;
    SENT.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let ccert = if short {
        let mut sp = CertSpec::plain("good client", "ca.test");
        sp.nb = t0 - 1000 - r.below(1_000_000) as i64;
        sp.na = na;
        pki::cert(&sp, &m.ckey, &m.ca, &mut r)
    } else {
        m.ccert.clone()
    };
    let (l, lfd) = w().listener();
    let Some(srv) = make_server(lfd, &opts) else {
        viol(&["C01", "C16"], "config", "server configuration refused".to_string());
        return;
    };
    let base = c("ref.seed", 1 << 40);
    let mut plan = vec![];
    let mut when = 0;
    let mut peers: Vec<(usize, bool, String)> = vec![];
    let mut nodes = vec![];
    for i in 0..n {
        let conn = w().connect(Owner::None, Owner::None);
        let good = turn(&mut r, streak, i, n);
        let mut what = String::new();
        if short && i > 0 {
            when += [0, 1, life / 3, life][r.below(4) as usize] * SEC;
        } else {
            when += [0, 0, 1, 3600][r.below(4) as usize] * SEC;
        }
        let mut script = Script::none();
        script.seed = mixseed(777, conn as u64);
        if good {
            script.rounds = vec![Round { len: [1 + r.below(300) as usize, 0] }, Round { len: [0, 1 + r.below(300) as usize] }];
        }
        plan.push((conn as u16 + 10_000, script.clone()));
        let mut p = Peer::new(false, mixseed(base, if r.below(3) == 0 { 0 } else { i as u64 }));
        let share = x25519_base(&p.xk);
        let mut r1 = Rng::new(r.next());
        let su = [SUITES[r.below(3) as usize]];
        p.ch = offer(&mut r1, &share, if r.below(2) == 0 { &SUITES } else { &su }, None, 0);
        p.conn = conn;
        p.side = 0;
        p.script = script;
        p.chain = vec![ccert.clone()];
        p.key = Some(m.ckey.clone());
        p.end = PeerEnd::Close;
        p.start_delay = when;
        let mut revoke = false;
        let mut steps = vec![Step::KeyHs];
        if good {
            if good && verify < 2 && !short && r.below(3) == 0 {
                // another client of the same CA
                p.chain = vec![m.bcert.clone()];
                p.key = Some(m.bkey.clone());
            }
            steps.extend([named("cert"), kept_cv(), named("fin")]);
        } else {
            if let Some(x) = streak {
                r = Rng::new(x);
            }
            match r.below(10) {
                0 => {
                    let (w_, f) = bad_cv(&mut r, false, m.ckey.clone(), m.stranger.clone());
                    what = w_;
                    steps.extend([named("cert"), Step::Msg("cv", f), named("fin")]);
                }
                1 => {
                    let (w_, f) = bad_fin(&mut r);
                    what = w_;
                    steps.extend([named("cert"), named("cv"), Step::Msg("fin", f)]);
                }
                2 => {
                    let (w_, l) = bad_order(&mut r, &["cert", "cv", "fin"]);
                    what = w_;
                    steps.extend(named_all(&l));
                }
                3 => {
                    what = "CertificateVerify of an earlier connection".into();
                    steps.extend([named("cert"), old_cv(r.next()), named("fin")]);
                }
                4 => {
                    let (w_, l) = twice(&mut r, false, m);
                    what = w_;
                    steps.extend(l);
                }
                5 => {
                    let old = r.below(2) == 0;
                    what = format!("the good one with another key, old signature: {old}");
                    p.chain = vec![twin_of(&ccert, &m.ckey, &m.stranger, old, &mut r)];
                    p.key = Some(m.stranger.clone());
                    steps.extend(named_all(&["cert", "cv", "fin"]));
                }
                6 => {
                    what = "no certificate".into();
                    p.chain = vec![];
                    steps.extend(named_all(if r.below(2) == 0 { &["cert", "fin"] } else { &["cert", "cv", "fin"] }));
                }
                7 if verify == 2 => {
                    what = "name refused by the custom function".into();
                    p.chain = vec![m.bcert.clone()];
                    p.key = Some(m.bkey.clone());
                    steps.extend(named_all(&["cert", "cv", "fin"]));
                }
                7..=9 if verify == 4 => {
                    what = "refused by the custom function this time".into();
                    revoke = true;
                    if r.below(2) == 0 {
                        // same name, another key
                        let mut sp = CertSpec::plain("good client", "ca.test");
                        sp.v3 = r.below(2) == 0;
                        p.chain = vec![pki::cert(&sp, &m.stranger, &m.ca, &mut r)];
                        p.key = Some(m.stranger.clone());
                    }
                    steps.extend(named_all(&["cert", "cv", "fin"]));
                }
                _ => {
                    let (w_, chain, key, v) = loop {
                        let x = bad_client_cert(&mut r, m);
                        if x.3.is_none() {
                            break x;
                        }
                    };
                    let _ = v;
                    what = w_;
                    p.chain = chain;
                    p.key = Some(key);
                    steps.extend(named_all(&["cert", "cv", "fin"]));
                }
            }
        }
        steps.insert(
            0,
            Step::Fun(Box::new(move |_: &mut Peer, w: &mut World| {
                REVOKED.store(revoke, Ordering::SeqCst);
                SENT.lock().unwrap_or_else(|e| e.into_inner()).insert(conn, w.wall().0);
            })),
        );
        steps.push(Step::KeyAp);
        steps.push(Step::Go);
        if !good {
            p.ignore_bad = true;
            steps.push(Step::Flush);
            steps.push(if r.below(3) == 0 { Step::Reset } else { Step::Close });
        }
        p.flight = Some(Box::new(move |_| steps));
        w().dial(l, conn, 1, when);
        let id = w().add_node(Box::new(p));
        w().conns[conn].ends[0].owner = Owner::Node(id);
        nodes.push(id);
        peers.push((conn, good, what));
    }
    w().count("peer.no_proof");
    let plan: Arc<BTreeMap<u16, Script>> = Arc::new(plan.into_iter().collect());
    let outs: Vec<usize> = (0..n).map(|j| new_out(&format!("server.{j}"), true)).collect();
    spawn_server_with("acceptor", &srv, &outs, move |port, _| {
        (port.and_then(|p| plan.get(&p)).cloned().unwrap_or_else(Script::none), After::default())
    });
    drop(srv);
    for id in nodes {
        w().start_node(id);
    }
    let e = drive();
    if panics(&["C09", "C08"]) || w().viol.is_some() {
        return;
    }
    if e != End_::AllDone {
        viol(&["C09", "C08"], "hang", format!("the series did not end: {e:?} {:?}", stuck_tasks()));
        return;
    }
    for (conn, good, what) in &peers {
        w().probe(format!("again_server.v{verify}.{what}"));
        let Some(o) = outs.iter().map(|o| out(*o)).find(|o| o.conn == Some(*conn)) else {
            continue;
        };
        if *good && short {
            // a valid certificate when the connection was over, or no longer when it was sent
            let Some(t) = SENT.lock().unwrap_or_else(|e| e.into_inner()).get(conn).copied() else { continue };
            w().probe(format!("again_server.short.{}.{}", t > na, o.w1 <= na));
            if t > na && o.hs == Some(Ok(())) {
                viol(&["C05", "C06"], "expired", format!("{} of {n} accepted a certificate that was no longer valid ({t} > {na})", o.name));
                return;
            }
            if o.w1 > na {
                continue;
            }
        }
        if *good && o.hs != Some(Ok(())) {
            viol(&["C05", "C01", "C09"], "refused", format!("{} of {n} failed with {:?} {:?} (verify {verify})", o.name, o.hs, o.err));
            return;
        }
        if !*good && o.hs == Some(Ok(())) {
            viol(&["C05"], "accepted", format!("{} of {n} accepted a client without proof: {what} (verify {verify})", o.name));
            return;
        }
    }
}
