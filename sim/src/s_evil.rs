//! S3/S4: a peer that does not prove what it has to prove.
use crate::crypto::*;
use crate::env::*;
use crate::pki::{self, CertSpec, Key};
use crate::reftls::*;
use crate::scen::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;

fn hexu(s: &str) -> U {
    u_from(&unhex(s))
}
/// message through which only the wire, not the transcript, is changed
fn twisted(l: &'static str, mk: impl FnOnce(&mut Peer) -> Vec<u8> + 'static, tw: impl FnOnce(Vec<u8>) -> Vec<u8> + 'static) -> Step {
    Step::Fun(Box::new(move |p, _| {
        let b = mk(p);
        p.transcript.extend_from_slice(&b);
        let t = tw(b);
        p.sent_msgs.push((l, t.clone()));
        p.pend.push(t);
        if l == "sh" {
            p.derive_hs();
            p.stage = "second";
        }
        if l == "fin" && p.server {
            p.th_server_fin = Some(p.transcript.clone());
        }
    }))
}
fn maker(l: &str) -> fn(&mut Peer) -> Vec<u8> {
    match l {
        "ch" => |p| p.ch.build(),
        "sh" => |p| p.mk_sh(),
        "ee" => |p| p.mk_ee(),
        "creq" => |p| p.mk_creq(),
        "cert" => |p| p.mk_cert(),
        "cv" => |p| p.mk_cv(),
        _ => |p| p.mk_fin(),
    }
}
pub fn named(l: &'static str) -> Step {
    match l {
        "ccs" => Step::Ccs,
        "keyhs" => Step::KeyHs,
        "keyap" => Step::KeyAp,
        "keyrand" => Step::KeyRand,
        "go" => Step::Go,
        l => Step::Msg(l, Box::new(maker(l))),
    }
}
pub fn named_all(l: &[&'static str]) -> Vec<Step> {
    l.iter().map(|x| named(x)).collect()
}
/// one of the ways to send the authentication messages in a wrong order or number
pub fn bad_order(r: &mut Rng, ids: &[&'static str; 3]) -> (String, Vec<&'static str>) {
    let [cert, cv, fin] = *ids;
    match r.below(7) {
        0 => ("skip cv".into(), vec![cert, fin]),
        1 => ("skip cert".into(), vec![cv, fin]),
        2 => ("skip cert and cv".into(), vec![fin]),
        3 => ("skip fin".into(), vec![cert, cv]),
        4 => {
            let p = [[cert, fin, cv], [cv, cert, fin], [cv, fin, cert], [fin, cert, cv], [fin, cv, cert]];
            let x = p[r.below(5) as usize];
            (format!("order {x:?}"), x.to_vec())
        }
        5 => {
            let p: [&[&'static str]; 6] = [
                &[cert, cert, cv, fin],
                &[cert, cv, cv, fin],
                &[cert, cv, cert, fin],
                &[cert, cv, cert, cv, fin],
                &[cert, cert, cv, cv, fin],
                &[cert, fin, cv, fin],
            ];
            let x = p[r.below(6) as usize];
            (format!("repeat {x:?}"), x.to_vec())
        }
        _ => ("nothing at all".into(), vec![]),
    }
}
/// bad CertificateVerify message; `server` is the role of the sender
pub fn bad_cv(r: &mut Rng, server: bool, good: Key, stranger: Key) -> (String, Box<dyn FnOnce(&mut Peer) -> Vec<u8>>) {
    let n = u_to(&p256().n.m).to_vec();
    match r.below(8) {
        0 => ("cv by another key".into(), Box::new(move |p| {
            let th = p.th();
            let s = p.sign_cv(&stranger, server, &th);
            Peer::cv_bytes(0x0403, &s)
        })),
        1 => ("cv with the other side's context".into(), Box::new(move |p| {
            let th = p.th();
            let s = p.sign_cv(&good, !server, &th);
            Peer::cv_bytes(0x0403, &s)
        })),
        2 => {
            let k = r.below(6);
            (format!("cv over another transcript ({k})"), Box::new(move |p| {
                let h = p.hash();
                let th = match k {
                    0 => p.rng.bytes(h.len()),
                    1 => {
                        // everything but the own Certificate
                        let c = p.sent_msgs.iter().rev().find(|x| x.0 == "cert").map(|x| x.1.len()).unwrap_or(1);
                        let t = &p.transcript[..p.transcript.len() - c.min(p.transcript.len())];
                        h.h(t)
                    }
                    2 => h.h(b""),
                    3 => {
                        if h.len() == 32 {
                            sha384(&p.transcript)
                        } else {
                            sha256(&p.transcript)
                        }
                    }
                    4 => {
                        let mut t = p.th();
                        let i = p.rng.below(t.len() as u64) as usize;
                        t[i] ^= 1 << p.rng.below(8);
                        t
                    }
                    _ => {
                        // only the first message
                        let b = &p.transcript;
                        let n = 4 + ((b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize);
                        h.h(&b[..n.min(b.len())])
                    }
                };
                let s = p.sign_cv(&good, server, &th);
                Peer::cv_bytes(0x0403, &s)
            }))
        }
        3 => {
            let sc = [0x0503u16, 0x0603, 0x0804, 0x0401, 0x0203, 0x0807, 0x0000, 0x0304, 0x0402, 0x0303, 0x0404, 0xffff][r.below(12) as usize];
            (format!("cv with scheme {sc:04x}"), Box::new(move |p| {
                let th = p.th();
                let s = p.sign_cv(&good, server, &th);
                Peer::cv_bytes(sc, &s)
            }))
        }
        4 => {
            let k = r.below(5);
            (format!("cv over a differently built input ({k})"), Box::new(move |p| {
                let th = p.th();
                let full = cv_input(server, &th);
                let inp = match k {
                    0 => th.clone(),
                    1 => full[64..].to_vec(),
                    2 => [&full[..97], &full[98..]].concat(),
                    3 => full[..full.len() - 1].to_vec(),
                    _ => full[..98].to_vec(),
                };
                let d = sha256(&inp);
                let (a, b) = good.sign(&mut p.rng, &d);
                Peer::cv_bytes(0x0403, &pki::der_sig(&a, &b))
            }))
        }
        5 => {
            let vals: Vec<Vec<u8>> = vec![
                vec![0],
                vec![1],
                n.clone(),
                [&n[..31], &[n[31] - 1][..]].concat(),
                [&n[..31], &[n[31] + 1][..]].concat(),
                vec![0xff; 32],
                vec![2],
                u_to(&p256().g.0).to_vec(),
                [vec![1], vec![0; 32]].concat(),
                [vec![1], vec![0; 31], vec![1]].concat(),
            ];
            let (a, b) = (r.below(10) as usize, r.below(10) as usize);
            let (x, y) = (vals[a].clone(), vals[b].clone());
            (format!("cv with degenerate values ({a},{b})"), Box::new(move |_| {
                Peer::cv_bytes(0x0403, &pki::seq(&[pki::der_int(&x), pki::der_int(&y)]))
            }))
        }
        6 => {
            let k = r.below(6);
            (format!("cv without a signature ({k})"), Box::new(move |_| match k {
                0 => Peer::cv_bytes(0x0403, &[]),
                1 => Peer::cv_bytes(0x0403, &[0x30, 0]),
                2 => Peer::cv_bytes(0x0403, &pki::seq(&[])),
                3 => Peer::cv_bytes(0x0403, &pki::seq(&[pki::tlv(2, &[]), pki::tlv(2, &[])])),
                4 => hs(CV, &[]),
                _ => hs(CV, &[4, 3]),
            }))
        }
        _ => ("cv valid for swapped r and s".into(), Box::new(move |p| {
            let th = p.th();
            let d = sha256(&cv_input(server, &th));
            let (a, b) = good.sign(&mut p.rng, &d);
            Peer::cv_bytes(0x0403, &pki::der_sig(&b, &a))
        })),
    }
}
pub fn bad_fin(r: &mut Rng) -> (String, Box<dyn FnOnce(&mut Peer) -> Vec<u8>>) {
    let k = r.below(12);
    let pos = r.next();
    let names = [
        "flipped", "zero", "empty", "one byte short", "one byte", "one byte long", "doubled", "peer secret", "application secret", "early transcript", "zero key", "first half",
    ];
    (
        format!("finished {}", names[k as usize]),
        Box::new(move |p| {
            let su = p.ks.as_ref().unwrap().suite;
            let good = finished(su, &p.my_hs(), &p.transcript);
            let n = good.len();
            let mut v = good.clone();
            match k {
                0 => v[(pos % n as u64) as usize] ^= 1 << (pos >> 32) % 8,
                1 => v = vec![0; n],
                2 => v = vec![],
                3 => v.truncate(n - 1),
                4 => v.truncate(1),
                5 => v.push(0),
                6 => v.extend_from_slice(&good),
                7 => {
                    let k = p.ks.as_ref().unwrap();
                    let s = if p.server { k.c_hs.clone() } else { k.s_hs.clone() };
                    v = finished(su, &s, &p.transcript);
                }
                8 => {
                    let t = p.transcript.clone();
                    let mut k = p.ks.clone().unwrap();
                    k.app(&t);
                    let s = if p.server { k.s_ap } else { k.c_ap };
                    v = finished(su, &s, &t);
                }
                9 => {
                    let c = p.sent_msgs.last().map(|x| x.1.len()).unwrap_or(1).min(p.transcript.len());
                    let t = p.transcript[..p.transcript.len() - c].to_vec();
                    v = finished(su, &p.my_hs(), &t);
                    if v == good {
                        v[0] ^= 1;
                    }
                }
                10 => v = finished(su, &vec![0; n], &p.transcript),
                _ => v.truncate(n / 2),
            }
            hs(FIN, &v)
        }),
    )
}
/// public key values nobody has a private key for, with a signature tuned to fool a naive check
fn degenerate_point(r: &mut Rng) -> (String, Vec<u8>, u64) {
    let z = vec![0u8; 32];
    match r.below(8) {
        0 => ("point 0,0".into(), [vec![4], z.clone(), z].concat(), 0),
        1 => ("point x,0".into(), [vec![4], r.bytes(32), z].concat(), 1),
        2 => ("point off the curve".into(), [vec![4], r.bytes(64)].concat(), 0),
        3 => ("point at infinity".into(), vec![0], 0),
        4 => ("point of one coordinate".into(), [vec![4], r.bytes(32)].concat(), 0),
        5 => ("empty point".into(), vec![], 0),
        6 => ("point p,p".into(), [vec![4], u_to(&p256().p.m).to_vec(), u_to(&p256().p.m).to_vec()].concat(), 0),
        _ => {
            // (0, y) and friends
            let mut b = [vec![4], z, r.bytes(32)].concat();
            b[64] |= 1;
            ("point 0,y".into(), b, 1)
        }
    }
}
/// signature that verifies if u2*Q is taken as the neutral element
fn naive_sig(rng: &mut Rng, d: &[u8], even: bool) -> Vec<u8> {
    let n = &p256().n;
    loop {
        let k = n.reduce(&u_from(&rng.bytes(32)));
        let r = match p256().base(&k) {
            Some(q) => n.reduce(&q.0),
            None => continue,
        };
        let e = p256().e(d);
        let s = n.mul(&n.inv(&k), &e);
        if u_zero(&r) || u_zero(&s) {
            continue;
        }
        let u2 = n.mul(&r, &n.inv(&s));
        if even && u2[0] & 1 == 1 {
            continue;
        }
        return pki::der_sig(&r, &s);
    }
}
fn flip(b: &mut [u8], r: &mut Rng) {
    if !b.is_empty() {
        let p = r.below(b.len() as u64) as usize;
        b[p] ^= 1 << r.below(8);
    }
}

/// S3: real client, server without proof
pub fn evil_server() {
    let mut o = One::new(1);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    o.script.extra = None;
    if yes("sni", 1, 3) {
        o.cli.sni = Some("server.test".into());
    }
    let mut p = honest_server(m, o.cli.sni.as_deref());
    if yes("clicert", 1, 2) {
        o.client_cert(&m.ccert, &m.ckey);
    }
    p.expect_cert = None;
    p.expect_point = None;
    let has_creq = p.creq.is_some();
    let mut r = rs("evil.rng");
    let kind = pk("evil.kind", &[22, 22, 14, 8, 6, 6, 10, 6, 4, 4, 6, 14]);
    let mut head: Vec<&'static str> = vec!["sh"];
    if p.frame.ccs {
        head.push("ccs");
    }
    head.push("keyhs");
    head.push("ee");
    if has_creq {
        head.push("creq");
    }
    let skey = m.skey.clone();
    let stranger = m.stranger.clone();
    let what;
    let mut steps: Vec<Step> = vec![];
    match kind {
        0 => {
            let (w_, l) = if yes("evil.dupfin", 1, 8) {
                p.frame.mode = 1;
                ("second finished in the same record".to_string(), vec!["cert", "cv", "fin", "fin"])
            } else {
                bad_order(&mut r, &["cert", "cv", "fin"])
            };
            what = w_;
            steps.extend(named_all(&head));
            steps.extend(named_all(&l));
        }
        1 => {
            let (w_, f) = bad_cv(&mut r, true, skey, stranger);
            what = w_;
            steps.extend(named_all(&head));
            steps.push(named("cert"));
            steps.push(Step::Msg("cv", f));
            steps.push(named("fin"));
        }
        2 => {
            let (w_, f) = bad_fin(&mut r);
            what = w_;
            steps.extend(named_all(&head));
            steps.extend(named_all(&["cert", "cv"]));
            steps.push(Step::Msg("fin", f));
        }
        3 => {
            // a certificate nobody holds the key of
            let (w_, point, even) = degenerate_point(&mut r);
            what = w_;
            let mut sp = CertSpec::plain("server.test", "server.test");
            sp.v3 = r.below(2) == 0;
            let t = pki::tbs(&sp, &point);
            let (a, b) = stranger.sign(&mut r, &sha256(&t));
            p.chain = vec![pki::wrap(&t, &pki::der_sig(&a, &b))];
            steps.extend(named_all(&head));
            steps.push(named("cert"));
            steps.push(msg("cv", move |p| {
                let th = p.th();
                let d = sha256(&cv_input(true, &th));
                let s = naive_sig(&mut p.rng, &d, even == 1);
                Peer::cv_bytes(0x0403, &s)
            }));
            steps.push(named("fin"));
        }
        4 => {
            what = "victim certificate first, own certificate behind it".to_string();
            let own = pki::cert(&CertSpec::plain("server.test", "server.test"), &stranger, &stranger, &mut r);
            p.chain = vec![m.scert.clone(), own];
            p.key = Some(stranger);
            steps.extend(named_all(&head));
            steps.extend(named_all(&["cert", "cv", "fin"]));
        }
        5 => {
            // no certificate at all
            p.chain = vec![];
            if r.below(2) == 0 {
                what = "empty chain with cv".to_string();
                p.key = Some(stranger);
                steps.extend(named_all(&head));
                steps.extend(named_all(&["cert", "cv", "fin"]));
            } else {
                what = "empty chain without cv".to_string();
                steps.extend(named_all(&head));
                steps.extend(named_all(&["cert", "fin"]));
            }
        }
        6 => {
            // what was sent is not what was authenticated
            let l: Vec<&'static str> = if has_creq { vec!["sh", "ee", "creq", "cert", "cv"] } else { vec!["sh", "ee", "cert", "cv"] };
            let t = l[r.below(l.len() as u64) as usize];
            what = format!("{t} differs from the transcript");
            let mut all = head.clone();
            all.extend(["cert", "cv", "fin"]);
            for s in all {
                if s == t {
                    let mut r2 = Rng::new(r.next());
                    steps.push(twisted(s, maker(s), move |mut b| {
                        let n = b.len();
                        if n > 4 {
                            flip(&mut b[4..], &mut r2);
                        }
                        b
                    }));
                } else {
                    steps.push(named(s));
                }
            }
        }
        7 => {
            what = "a message that is not part of the server's transcript".to_string();
            let mut all = head.clone();
            all.extend(["cert", "cv", "fin"]);
            let at = all.iter().position(|x| *x == "ee").unwrap() + 1 + r.below(3) as usize;
            let k = r.below(4);
            for (i, s) in all.into_iter().enumerate() {
                if i == at {
                    steps.push(Step::Ghost("ghost", Box::new(move |p| match k {
                        0 => hs(CREQ, &[v8(&[]), exts(&[ext(13, &v16(&[4, 3]))])].concat()),
                        1 => hs(NST, &p.rng.bytes(40)),
                        2 => hs(EE, &[0, 0]),
                        _ => hs(24, &[0]),
                    })));
                }
                steps.push(named(s));
            }
        }
        8 => {
            what = "messages under a random key".to_string();
            let mut all = head.clone();
            all.extend(["cert", "cv", "fin"]);
            for s in all {
                steps.push(named(if s == "keyhs" { "keyrand" } else { s }));
            }
        }
        9 => {
            if r.below(2) == 0 {
                what = "application data in place of Finished".to_string();
                steps.extend(named_all(&head));
                steps.extend(named_all(&["cert", "cv"]));
                steps.push(Step::Enc(23, b"hello before the end".to_vec()));
            } else {
                what = "Finished under application keys".to_string();
                steps.extend(named_all(&head));
                steps.extend(named_all(&["cert", "cv", "keyap", "fin"]));
            }
        }
        11 => {
            let (w_, l) = crate::s_again::twice(&mut r, true, m);
            what = w_;
            steps.extend(named_all(&head));
            steps.extend(l);
        }
        _ => {
            let k = r.below(4);
            what = format!("unusable certificate ({k})");
            steps.extend(named_all(&head));
            let g = m.scert.clone();
            let cut = r.below(g.len() as u64) as usize;
            let b = r.bytes(60);
            p.chain = vec![match k {
                0 => g[..cut.max(1)].to_vec(),
                1 => b,
                2 => pki::seq(&[]),
                _ => vec![0x30],
            }];
            p.key = Some(stranger);
            steps.extend(named_all(&["cert", "cv", "fin"]));
        }
    }
    steps.push(Step::KeyAp);
    steps.push(Step::Go);
    p.flight = Some(Box::new(move |_| steps));
    p.ignore_bad = true;
    p.end = of("evil.end", &[PeerEnd::Linger, PeerEnd::Close]);
    o.peer = Some(p);
    w().count("peer.no_proof");
    let mut l = launch(o);
    settle(&mut l);
    w().probe(format!("evil_server.{what}"));
    let e = l.c.as_ref().unwrap();
    let o = out(e.o);
    if o.hs == Some(Ok(())) {
        viol(&["C04"], "accepted", format!("client completed with a server without proof: {what}"));
    }
    panics(&[]);
    audit_all(&l, |_| AuditOpts::default());
}

/// a client that must be accepted; returns the peer and whether a custom verify function is set
pub fn good_client_setup(o: &mut One, r: &mut Rng) -> Peer {
    let m = o.mat;
    let verify = [0u8, 1, 2][c("verify", 3) as usize];
    o.auth(verify);
    let rich = pk("rich", &[60, 40]) as u64;
    let mut p = honest_client(rich, None);
    p.chain = vec![m.ccert.clone()];
    p.key = Some(m.ckey.clone());
    let _ = r;
    p
}
/// S4: real server that demands client certificates
pub fn evil_client() {
    let mut o = One::new(2);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    o.script.extra = None;
    let mut r = rs("evil.rng");
    let mut p = good_client_setup(&mut o, &mut r);
    p.expect_cert = Some(m.scert.clone());
    p.expect_point = Some(m.skey.q);
    let kind = pk("evil.kind", &[16, 16, 18, 10, 44, 8, 8, 4, 4, 4, 14]);
    let ckey = m.ckey.clone();
    let stranger = m.stranger.clone();
    let mut what;
    let ccs = p.frame.ccs;
    let mut steps: Vec<Step> = vec![];
    if ccs {
        steps.push(Step::Ccs);
    }
    steps.push(Step::KeyHs);
    let full = ["cert", "cv", "fin"];
    match kind {
        0 => {
            what = "control".to_string();
            if yes("ref.chain", 1, 3) {
                p.chain.push(m.inter.clone());
            }
            steps.extend(named_all(&full));
        }
        1 => {
            let (w_, l) = bad_order(&mut r, &["cert", "cv", "fin"]);
            what = w_;
            steps.extend(named_all(&l));
        }
        2 => {
            let (w_, f) = bad_cv(&mut r, false, ckey, stranger);
            what = w_;
            steps.push(named("cert"));
            steps.push(Step::Msg("cv", f));
            steps.push(named("fin"));
        }
        3 => {
            let (w_, f) = bad_fin(&mut r);
            what = w_;
            steps.extend(named_all(&["cert", "cv"]));
            steps.push(Step::Msg("fin", f));
        }
        4 => {
            let (w_, chain, key, verify) = bad_client_cert(&mut r, m);
            what = w_;
            if let Some(v) = verify {
                o.srv.verify = v;
            }
            p.chain = chain;
            p.key = Some(key);
            steps.extend(named_all(&full));
        }
        5 => {
            p.chain = vec![];
            match r.below(3) {
                0 => {
                    what = "empty certificate list".to_string();
                    steps.extend(named_all(&["cert", "fin"]));
                }
                1 => {
                    what = "empty certificate list with cv".to_string();
                    steps.extend(named_all(&full));
                }
                _ => {
                    what = "empty certificate list twice".to_string();
                    steps.extend(named_all(&["cert", "cert", "fin"]));
                }
            }
        }
        6 => {
            let k = r.below(5);
            what = format!("wrong request context ({k})");
            let chain = p.chain.clone();
            let rnd = r.bytes(8);
            steps.push(msg("cert", move |p| {
                let good = p.creq.as_ref().map(|x| x.0.clone()).unwrap_or_default();
                let mut ctx = good.clone();
                match k {
                    0 => ctx = vec![],
                    1 => {
                        ctx.pop();
                    }
                    2 => ctx.push(0),
                    3 => ctx = rnd,
                    _ => {
                        if let Some(x) = ctx.last_mut() {
                            *x ^= 1
                        }
                    }
                }
                if ctx == good {
                    ctx.push(1);
                }
                CertMsg { ctx, chain: chain.iter().map(|c| (c.clone(), vec![])).collect() }.build()
            }));
            steps.extend(named_all(&["cv", "fin"]));
        }
        7 => {
            let t = ["cert", "cv"][r.below(2) as usize];
            what = format!("{t} differs from the transcript");
            for s in full {
                if s == t {
                    let mut r2 = Rng::new(r.next());
                    steps.push(twisted(s, maker(s), move |mut b| {
                        flip(&mut b[4..], &mut r2);
                        b
                    }));
                } else {
                    steps.push(named(s));
                }
            }
        }
        10 => {
            let (w_, l) = crate::s_again::twice(&mut r, false, m);
            what = w_;
            steps.extend(l);
        }
        8 => {
            what = "messages under a random key".to_string();
            steps.pop();
            steps.push(Step::KeyRand);
            steps.extend(named_all(&full));
        }
        _ => {
            if r.below(2) == 0 {
                what = "application data in place of Finished".to_string();
                steps.extend(named_all(&["cert", "cv"]));
                steps.push(Step::Enc(23, b"hello before the end".to_vec()));
            } else {
                what = "Finished under application keys".to_string();
                steps.extend(named_all(&["cert", "cv", "keyap", "fin"]));
            }
        }
    }
    steps.push(Step::KeyAp);
    steps.push(Step::Go);
    p.flight = Some(Box::new(move |_| steps));
    let control = what == "control";
    if control {
        // certificates that the custom function refuses
        match c("evil.refuse", 6) {
            0 => {
                o.srv.verify = 3;
                what = "refused by the custom function".into();
            }
            1 => {
                o.srv.verify = 2;
                p.chain[0] = m.bcert.clone();
                p.key = Some(m.bkey.clone());
                what = "name refused by the custom function".into();
            }
            _ => {}
        }
    }
    let control = what == "control";
    if !control {
        p.ignore_bad = true;
        p.end = of("evil.end", &[PeerEnd::Linger, PeerEnd::Close]);
        w().count("peer.no_proof");
    } else {
        p.end = PeerEnd::Linger;
    }
    o.peer = Some(p);
    let verify = o.srv.verify;
    let mut l = launch(o);
    settle(&mut l);
    w().probe(format!("evil_client.{what}"));
    if control {
        must_succeed(&l, &["C05"], &[]);
        if verify > 0 && VERIFY_CALLS.lock().unwrap().is_empty() {
            viol(&["C05"], "not_asked", "the custom verify function was never called".to_string());
        }
    } else if let Some(e) = l.s.as_ref() {
        if out(e.o).hs == Some(Ok(())) {
            viol(&["C05"], "accepted", format!("server accepted a client without proof: {what} (verify {verify})"));
        }
    }
    panics(&[]);
    audit_all(&l, |_| AuditOpts::default());
}
/// (description, chain, key, verify function)
/// The good certificate with another public key and all else as it is. `sig`: the old signature,
/// or one of the new key.
pub fn twin(m: &Mat, key: &Key, old: bool, r: &mut Rng) -> Vec<u8> {
    twin_of(&m.ccert, &m.ckey, key, old, r)
}
pub fn twin_of(ccert: &[u8], ckey: &Key, key: &Key, old: bool, r: &mut Rng) -> Vec<u8> {
    let (a, b) = tbs_range(ccert);
    let mut t = ccert[a..b].to_vec();
    let (from, to) = (pki::spki(&ckey.point()), pki::spki(&key.point()));
    let at = t.windows(from.len()).position(|x| x == from).unwrap();
    t[at..at + from.len()].copy_from_slice(&to);
    if old {
        return pki::tlv(0x30, &[&t[..], &ccert[b..]].concat());
    }
    let (x, y) = key.sign(r, &sha256(&t));
    pki::wrap(&t, &pki::der_sig(&x, &y))
}
pub fn bad_client_cert(r: &mut Rng, m: &'static Mat) -> (String, Vec<Vec<u8>>, Key, Option<u8>) {
    let ckey = m.ckey.clone();
    let stranger = m.stranger.clone();
    let ev = |r: &mut Rng| {
        let mut sp = CertSpec::plain("good client", "ca.test");
        sp.v3 = r.below(2) == 0;
        sp.min_names = r.below(3) == 0;
        sp.long_subject = [0, 0, 20, 150][r.below(4) as usize];
        sp
    };
    match r.below(16) {
        15 => {
            let old = r.below(2) == 0;
            (format!("the good one with another key, old signature: {old}"), vec![twin(m, &stranger, old, r)], stranger, None)
        }
        13 | 14 => {
            // names a signature algorithm nobody can check here
            let oids: [&[u8]; 12] = [
                &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11],
                &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 5],
                &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 4],
                &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 10],
                &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 1],
                &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 1],
                &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3],
                &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 4],
                &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1],
                &[0x2b, 0x65, 0x70],
                &[0x2a, 3, 4],
                &[],
            ];
            let oid = oids[r.below(12) as usize];
            let alg = |r: &mut Rng| match r.below(3) {
                0 => pki::seq(&[pki::tlv(6, oid), pki::tlv(5, &[])]),
                _ => pki::seq(&[pki::tlv(6, oid)]),
            };
            let es256 = pki::seq(&[pki::tlv(6, &pki::OID_ES256)]);
            let t = pki::tbs(&ev(r), &stranger.point());
            // the algorithm inside the signed part
            let inner = r.below(4) != 0;
            let t = if inner {
                let at = t.windows(es256.len()).position(|x| x == es256).unwrap();
                let (_, body, _) = pki::der_get(&t).unwrap();
                let h = t.len() - body.len();
                pki::tlv(0x30, &[&t[h..at], &alg(r), &t[at + es256.len()..]].concat())
            } else {
                t
            };
            let sig = match r.below(5) {
                0 => vec![],
                1 => r.bytes(256),
                2 => r.bytes(64),
                3 => pki::seq(&[pki::der_int(&[1]), pki::der_int(&[1])]),
                _ => {
                    let (a, b) = stranger.sign(r, &sha256(&t));
                    pki::der_sig(&a, &b)
                }
            };
            let outer = if inner && r.below(4) == 0 { es256 } else { alg(r) };
            let c = pki::seq(&[t, outer, pki::tlv(3, &[vec![0], sig].concat())]);
            (format!("signed with algorithm {oid:x?}"), vec![c], stranger, None)
        }
        0 => ("signed by another CA".into(), vec![m.ocert.clone()], ckey, None),
        1 => {
            let c = pki::cert(&ev(r), &stranger, &stranger, r);
            ("self-signed".into(), vec![c], stranger, None)
        }
        2 => {
            let c = pki::cert(&ev(r), &stranger, &stranger, r);
            ("self-signed, the good one behind it".into(), vec![c, m.ccert.clone(), m.cacert.clone()], stranger, None)
        }
        3 => {
            let c = pki::cert(&ev(r), &stranger, &stranger, r);
            ("the good one first, own one behind it".into(), vec![m.ccert.clone(), c], stranger, None)
        }
        4 => {
            // flip inside the signed part
            let mut b = m.ccert.clone();
            let (s, e) = tbs_range(&b);
            let p = s + r.below((e - s) as u64) as usize;
            b[p] ^= 1 << r.below(8);
            (format!("flipped byte {} of the signed part", p - s), vec![b], ckey, None)
        }
        5 => {
            let mut b = m.ccert.clone();
            // values of the signature: the last bytes belong to s
            let n = b.len();
            let p = n - 1 - r.below(30) as usize;
            b[p] ^= 1 << r.below(8);
            ("flipped bit in the CA signature".into(), vec![b], ckey, None)
        }
        6 => {
            // signature of another certificate
            let t = pki::tbs(&ev(r), &stranger.point());
            let b = &m.ccert;
            let (_, outer, _) = pki::der_get(b).unwrap();
            let (_, _, rest) = pki::der_get(outer).unwrap();
            let c = pki::tlv(0x30, &[&t[..], rest].concat());
            ("signature taken from another certificate".into(), vec![c], stranger, None)
        }
        7 => {
            let vals: [Vec<u8>; 6] = [vec![0], vec![1], u_to(&p256().n.m).to_vec(), vec![0xff; 32], u_to(&p256().g.0).to_vec(), vec![2]];
            let (a, b) = (r.below(6) as usize, r.below(6) as usize);
            let t = pki::tbs(&ev(r), &stranger.point());
            let c = pki::wrap(&t, &pki::seq(&[pki::der_int(&vals[a]), pki::der_int(&vals[b])]));
            (format!("degenerate CA signature ({a},{b})"), vec![c], stranger, None)
        }
        8 => {
            let t = pki::tbs(&ev(r), &stranger.point());
            let sig = [vec![], vec![0x30, 0], pki::seq(&[pki::tlv(2, &[])])][r.below(3) as usize].clone();
            ("empty CA signature".into(), vec![pki::wrap(&t, &sig)], stranger, None)
        }
        9 => {
            // unsigned data behind the signed part must not count
            let extra = [
                pki::name("good client", 0, false),
                pki::tlv(0x31, &pki::seq(&[pki::tlv(6, &[0x55, 4, 3]), pki::tlv(0x0c, b"good client")])),
                pki::seq(&[pki::tlv(0x31, &pki::seq(&[pki::tlv(6, &[0x55, 4, 3]), pki::tlv(0x0c, b"good client")]))]),
            ][r.below(3) as usize]
                .clone();
            let (_, outer, _) = pki::der_get(&m.bcert).unwrap();
            let c = pki::tlv(0x30, &[outer, &extra].concat());
            ("refused name, a good one behind the signature".into(), vec![c], m.bkey.clone(), Some(2))
        }
        10 => {
            // expired, with unsigned times behind the signature
            let mut sp = ev(r);
            sp.nb = 1_500_000_000;
            sp.na = 1_600_000_000;
            let b = pki::cert(&sp, &ckey, &m.ca, r);
            let (_, outer, _) = pki::der_get(&b).unwrap();
            let (t1, t2) = (pki::der_time(1_700_000_000, false), pki::der_time(2_000_000_000, false));
            let extra = [pki::seq(&[t1.clone(), t2.clone()]), [t1, t2].concat(), vec![]][r.below(3) as usize].clone();
            let c = pki::tlv(0x30, &[outer, &extra].concat());
            ("expired, valid times behind the signature".into(), vec![c], ckey, None)
        }
        11 => {
            // own key put behind the signed part
            let (_, outer, _) = pki::der_get(&m.ccert).unwrap();
            let c = pki::tlv(0x30, &[outer, &pki::spki(&stranger.point())].concat());
            ("own public key behind the signature".into(), vec![c], stranger, None)
        }
        _ => {
            // the CA's own certificate, without its key
            ("the CA certificate itself".into(), vec![m.cacert.clone()], stranger, None)
        }
    }
}
/// byte range of the signed part within a certificate
pub fn tbs_range(b: &[u8]) -> (usize, usize) {
    let (_, outer, _) = pki::der_get(b).unwrap();
    let start = b.len() - outer.len();
    let (_, _, rest) = pki::der_get(outer).unwrap();
    (start, b.len() - rest.len())
}
#[allow(dead_code)]
pub fn order_of_n() -> U {
    hexu("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
}
