//! S11 received alerts, S12 negotiation of parameters.
use crate::crypto::*;
use crate::env::*;
use crate::observer::*;
use crate::pki;
use crate::reftls::*;
use crate::scen::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;

// ---------------------------------------------------------------- S11 alerts
/// numbers RFC 8446 gives to alerts
pub const KNOWN: [u8; 27] =
    [0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120];
pub fn alerts() {
    let topo = 1 + pk("topo", &[50, 50]) as u64;
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    // the endpoint under test always ends with a read
    let me = if topo == 1 { 0 } else { 1 };
    o.script.extra = Some(me);
    let auth = yes("auth", 1, 2);
    let known = !yes("al.unknown", 1, 6);
    let code = if known { of("al.code", &KNOWN) } else { of("al.odd", &[1u8, 2, 11, 21, 23, 30, 41, 52, 60, 72, 85, 87, 100, 111, 114, 117, 119, 121, 200, 254, 255]) };
    let level = 1 + c("al.level", 2) as u8;
    let al = move || Step::Alert(level, code);
    let tail = c("al.tail", 4);
    if tail != 0 {
        // a write to a closed connection may fail before the alert is read
        for r in o.script.rounds.iter_mut() {
            r.len[me] = 0;
        }
    }
    let mut end: Vec<Step> = match tail {
        0 => vec![],
        1 => vec![Step::Close],
        2 => vec![Step::Alert(2, 40)],
        _ => vec![Step::Sleep(3 * SEC), Step::Close],
    };
    let point;
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.end = PeerEnd::Linger;
        p.half_rtt = false;
        if auth {
            o.client_cert(&m.ccert, &m.ckey);
        }
        let n = p.server_steps().len() + 1;
        let at = c("al.at", n as u64) as usize;
        let frag = yes("al.frag", 1, 10);
        p.flight = Some(Box::new(move |p| {
            let mut v = p.server_steps();
            let rest = v.split_off(at.min(v.len()));
            // after the own Finished the server sends with its application keys
            if let Some(i) = rest.iter().position(|s| s.label() == "keyap") {
                if i == 0 {
                    v.push(Step::KeyAp);
                }
            }
            // a ServerHello without its keys is followed by an alert under these keys
            if v.iter().any(|s| s.label() == "sh") && !v.iter().any(|s| s.label() == "keyhs") {
                v.push(Step::KeyHs);
            }
            v.push(al());
            if frag {
                v.push(Step::Alert(2, 80));
            }
            v.append(&mut end);
            v
        }));
        point = at;
        o.peer = Some(p);
    } else {
        if auth {
            o.auth(1);
        }
        let mut p = honest_client(0, None);
        p.end = PeerEnd::Linger;
        if auth {
            p.chain = vec![m.ccert.clone()];
            p.key = Some(m.ckey.clone());
        }
        let at = c("al.at", 7) as usize;
        point = at;
        match at {
            0 => {
                // in place of the hello
                p.on_start = vec![al()];
                p.on_start.append(&mut end);
            }
            1 => {
                // right behind the hello, still in clear
                p.on_start = vec![msg("ch", |p| p.ch.build()), Step::Flush, Step::Sleep(c("al.wait", 3) * SEC / 2), al()];
                p.on_start.append(&mut end);
            }
            _ => {
                p.flight = Some(Box::new(move |p| {
                    let mut v = p.client_steps();
                    let k = v.iter().position(|s| s.label() == "keyhs").unwrap();
                    let f = v.iter().position(|s| s.label() == "fin").unwrap();
                    let cut = (k + 1 + (at - 2) % (f - k)).min(f);
                    v.truncate(cut);
                    if !v.iter().any(|s| s.label() == "keyhs") {
                        v.push(Step::KeyHs);
                    }
                    v.push(al());
                    v.append(&mut end);
                    v
                }));
            }
        }
        o.peer = Some(p);
    }
    let mut l = launch(o);
    settle(&mut l);
    if panics(&["C13"]) {
        return;
    }
    let Some(e) = [&l.c, &l.s].into_iter().flatten().next() else { return };
    let x = out(e.o);
    let ks = peer_ks(&l);
    // the alert has to arrive before anything can be said about it
    let a = audit(e, &AuditOpts { ks, ..Default::default() });
    let got: Vec<u8> = a.other.alerts.iter().map(|a| a.1).collect();
    w().probe(format!("alert.topo{topo}.at{point}.known{known}.{:?}", x.hs));
    if !a.own.alerts.is_empty() && (known || got.is_empty()) {
        viol(&["C13"], "answered", format!("{} answered alert {code} with {:?} and returned {:?}", x.name, a.own.alerts, x.hs));
    }
    match (&x.hs, &x.err) {
        (None, _) => viol(&["C13"], "no_result", format!("the alert did not end the call: {}", describe(&l))),
        (Some(Ok(())), None) => match &x.extra {
            Some(Err(er)) => {
                if known && rfc_code(er) != Some(code) {
                    viol(&["C13"], "reported", format!("{} reported alert {code} as {er}", x.name));
                }
            }
            _ => viol(&["C13"], "ignored", format!("{} did not report alert {code}: {}", x.name, describe(&l))),
        },
        (Some(Err(er)), _) | (Some(Ok(())), Some((_, er))) => {
            if known && rfc_code(er) != Some(code) {
                viol(&["C13"], "reported", format!("{} reported alert {code} as {er}", x.name));
            }
        }
    }
}

// ---------------------------------------------------------------- S12 negotiation
const P25519: [u8; 32] = {
    let mut p = [0xff; 32];
    p[0] = 0xed;
    p[31] = 0x7f;
    p
};
/// points whose shared secret is zero with every key
fn low_order(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(7) {
        0 => vec![0; 32],
        1 => {
            let mut v = vec![0; 32];
            v[0] = 1;
            v
        }
        2 => unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        3 => unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        4 => {
            let mut p = P25519.to_vec();
            p[0] -= 1;
            p
        }
        5 => P25519.to_vec(),
        _ => {
            let mut p = P25519.to_vec();
            p[0] += 1;
            p
        }
    };
    if r.below(3) == 0 {
        v[31] |= 0x80;
    }
    v
}
/// a share of the wrong length that a careless reader takes for `full`
fn wrong_len(r: &mut Rng, p: &mut Peer) -> (String, Vec<u8>) {
    let k = r.below(9);
    let full = match k {
        5 => loop {
            p.xk = r.bytes(32).try_into().unwrap();
            let x = x25519_base(&p.xk);
            if x[31] == 0 {
                break x.to_vec();
            }
        },
        6 => loop {
            p.xk = r.bytes(32).try_into().unwrap();
            let x = x25519_base(&p.xk);
            if x[0] == 0 {
                break x.to_vec();
            }
        },
        _ => x25519_base(&p.xk).to_vec(),
    };
    let s = match k {
        0 => vec![],
        1 => [full.clone(), vec![0]].concat(),
        2 => [vec![0], full.clone()].concat(),
        3 => [full.clone(), r.bytes(32)].concat(),
        4 => [vec![4], full.clone(), r.bytes(32)].concat(),
        5 => full[..31].to_vec(),
        6 => full[1..].to_vec(),
        7 => {
            // the scalar result of nothing at all
            p.shared_override = Some(vec![0; 32]);
            vec![0]
        }
        _ => {
            p.shared_override = Some(vec![0; 32]);
            vec![0; 31]
        }
    };
    (format!("share of {} bytes ({k})", s.len()), s)
}
fn be(l: &[u16]) -> Vec<u8> {
    l.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn set(e: &mut Vec<(u16, Vec<u8>)>, t: u16, b: Vec<u8>) {
    match e.iter_mut().find(|x| x.0 == t) {
        Some(x) => x.1 = b,
        None => e.push((t, b)),
    }
}
fn shares(l: &[(u16, Vec<u8>)]) -> Vec<u8> {
    v16(&l.iter().flat_map(|(g, k)| [g.to_be_bytes().to_vec(), v16(k)].concat()).collect::<Vec<u8>>())
}
fn versions(r: &mut Rng) -> Vec<u16> {
    let pool = [0x0303u16, 0x0302, 0x0301, 0x0300, 0x0305, 0x0403, 0x7f1c, 0x7f17, 0x0003, 0x0400, 0xfefc, 0x0200];
    let n = 1 + r.below(4);
    (0..n).map(|_| if r.below(4) == 0 { grease(r) } else { pool[r.below(pool.len() as u64) as usize] }).collect()
}
const SUITE_POOL: [u16; 14] =
    [0x1304, 0x1305, 0x1300, 0x1306, 0xc02b, 0xc02f, 0x009c, 0x00ff, 0x0000, 0x5600, 0x0113, 0x0213, 0x0313, 0x1403];

/// what a client must not get away with; None: the offer is fine
fn bad_offer(r: &mut Rng, o: &mut One, p: &mut Peer) -> Option<String> {
    let pubk = x25519_base(&p.xk).to_vec();
    Some(match r.below(10) {
        0 => {
            p.ch.exts.retain(|x| x.0 != 43);
            if r.below(2) == 0 {
                p.ch.ver = [0x0304, 0x0303, 0x0301][r.below(3) as usize];
            }
            "no supported_versions".into()
        }
        1 => {
            let v = versions(r);
            set(&mut p.ch.exts, 43, v8(&be(&v)));
            format!("versions {v:04x?}")
        }
        2 => {
            let n = 1 + r.below(5);
            p.ch.suites = (0..n).map(|_| if r.below(4) == 0 { grease(r) } else { SUITE_POOL[r.below(14) as usize] }).collect();
            p.suite = Some(SUITES[r.below(3) as usize]);
            format!("suites {:04x?}", p.ch.suites)
        }
        3 => {
            p.ch.suites = vec![];
            "no suites".into()
        }
        4 => {
            p.ch.exts.retain(|x| x.0 != 51);
            p.shared_override = Some(vec![0; 32]);
            "no key_share".into()
        }
        5 => {
            // shares of other groups only
            let l: Vec<(u16, Vec<u8>)> = match r.below(5) {
                0 => vec![],
                1 => vec![(23, pubk.clone())],
                2 => vec![(30, pubk.clone())],
                3 => vec![(23, [vec![4], r.bytes(64)].concat()), (24, [vec![4], r.bytes(96)].concat())],
                _ => vec![(grease(r), pubk.clone()), (0x001e, [pubk.clone(), r.bytes(24)].concat())],
            };
            p.shared_override = if r.below(2) == 0 { None } else { Some(vec![0; 32]) };
            let s = format!("shares of {:?}", l.iter().map(|x| x.0).collect::<Vec<_>>());
            set(&mut p.ch.exts, 51, shares(&l));
            s
        }
        6 => {
            let (s, b) = wrong_len(r, p);
            set(&mut p.ch.exts, 51, shares(&[(29, b)]));
            s
        }
        7 => {
            let b = low_order(r);
            p.shared_override = Some(vec![0; 32]);
            set(&mut p.ch.exts, 51, shares(&[(29, b.clone())]));
            format!("low order share {}", hex(&b))
        }
        _ => {
            let n = NAMES[r.below(NAMES.len() as u64) as usize];
            let other = match r.below(13) {
                12 => String::new(),
                0 => format!("x{n}"),
                1 => format!("{n}x"),
                2 => n[..n.len() - 1].to_string(),
                3 => n[1..].to_string(),
                4 => format!("www.{n}"),
                5 => "other.example".to_string(),
                6 => format!("{n}\0"),
                7 => format!("{n}.evil.test"),
                8 => n.chars().rev().collect::<String>() + "z",
                9 => {
                    let mut b = n.as_bytes().to_vec();
                    let i = r.below(b.len() as u64) as usize;
                    b[i] = if b[i].is_ascii_alphabetic() { b'1' } else { b'q' };
                    String::from_utf8(b).unwrap()
                }
                10 => format!("*{n}"),
                _ => n.repeat(2),
            };
            o.srv.sni = Some(n.into());
            let entry = |x: &str| [vec![0], v16(x.as_bytes())].concat();
            // in the list, more than one name is not permitted: another host next to the own one
            let list = match r.below(6) {
                0 => vec![entry(n), entry(&other)],
                1 => vec![entry(&other), entry(n)],
                _ => vec![entry(&other)],
            };
            set(&mut p.ch.exts, 0, v16(&list.concat()));
            format!("asks for {other:?} instead of {n:?}, {} names", list.len())
        }
    })
}
/// alternatives that must not disturb
fn good_offer(r: &mut Rng, p: &mut Peer) -> String {
    let pubk = x25519_base(&p.xk).to_vec();
    match r.below(8) {
        0 => {
            let mut l: Vec<(u16, Vec<u8>)> = (0..1 + r.below(14)).map(|i| (0x5000 + i as u16, r.bytes(1 + (i as usize * 37) % 300))).collect();
            let at = r.below(l.len() as u64 + 1) as usize;
            l.insert(at, (29, pubk));
            let g: Vec<u16> = l.iter().map(|x| x.0).collect();
            set(&mut p.ch.exts, 10, v16(&be(&g)));
            set(&mut p.ch.exts, 51, shares(&l));
            format!("x25519 is share {at} of {}", g.len())
        }
        1 => {
            let mut v = versions(r);
            for _ in 0..r.below(60) {
                v.push(grease(r));
            }
            let at = r.below(v.len() as u64 + 1) as usize;
            v.insert(at, 0x0304);
            set(&mut p.ch.exts, 43, v8(&be(&v)));
            format!("versions {} at {at}", v.len())
        }
        2 => {
            let mut l: Vec<u16> = (0..r.below(300)).map(|_| SUITE_POOL[r.below(14) as usize]).collect();
            l.extend((0..r.below(4)).map(|_| grease(r)));
            let n = p.ch.suites.len();
            for s in p.ch.suites.clone() {
                let at = r.below(l.len() as u64 + 1) as usize;
                l.insert(at, s);
            }
            p.ch.suites = l;
            format!("{n} suites among {}", p.ch.suites.len())
        }
        3 => {
            let n = 1 + r.below(30);
            for i in 0..n {
                let at = r.below(p.ch.exts.len() as u64 + 1) as usize;
                let len = r.below(120) as usize;
                p.ch.exts.insert(at, (0x7000 + i as u16, r.bytes(len)));
            }
            format!("{n} unknown extensions")
        }
        4 => {
            let mut g: Vec<u16> = (0..r.below(40)).map(|i| 0x6100 + i as u16).collect();
            let at = r.below(g.len() as u64 + 1) as usize;
            g.insert(at, 29);
            set(&mut p.ch.exts, 10, v16(&be(&g)));
            format!("{} groups", g.len())
        }
        5 => {
            let mut s: Vec<u16> = (0..r.below(40)).map(|i| 0x0a00 + i as u16).collect();
            let at = r.below(s.len() as u64 + 1) as usize;
            s.insert(at, 0x0403);
            set(&mut p.ch.exts, 13, v16(&be(&s)));
            format!("{} signature schemes", s.len())
        }
        6 => {
            p.ch.suites = vec![SUITES[r.below(3) as usize].code()];
            let n = [0usize, 1, 31, 32][r.below(4) as usize];
            p.ch.sid = r.bytes(n);
            "minimal".into()
        }
        _ => {
            p.ch.exts.reverse();
            "reversed".into()
        }
    }
}
/// a ServerHello the client must not accept
fn bad_choice(r: &mut Rng, p: &mut Peer) -> (String, Box<dyn FnOnce(&mut Peer, &mut Sh)>) {
    let mut r2 = Rng::new(r.next());
    match r.below(10) {
        8 => {
            // a server selects one share, not several
            let g = [23u16, 24, 0x6399, 29][r.below(4) as usize];
            let l = 1 + r.below(80) as usize;
            let more = [g.to_be_bytes().to_vec(), v16(&r.bytes(l))].concat();
            (format!("another share of group {g} behind its own"), Box::new(move |p, s| {
                let b = p.pubshare();
                set(&mut s.exts, 51, [vec![0, 29], v16(&b), more].concat())
            }))
        }
        0 => ("no supported_versions".into(), Box::new(move |_, s| {
            s.exts.retain(|x| x.0 != 43);
            if r2.below(3) == 0 {
                s.ver = 0x0304;
            }
        })),
        1 => {
            let v = versions(r)[0];
            (format!("version {v:04x}"), Box::new(move |_, s| set(&mut s.exts, 43, v.to_be_bytes().to_vec())))
        }
        2 => {
            let k = r.below(SUITE_POOL.len() as u64 + 2) as usize;
            let v = if k < SUITE_POOL.len() { SUITE_POOL[k] } else { grease(r) };
            (format!("suite {v:04x} that was not offered"), Box::new(move |_, s| s.suite = v))
        }
        3 => {
            let k = [1u8, 2, 64, 255][r.below(4) as usize];
            (format!("compression {k}"), Box::new(move |_, s| s.comp = k))
        }
        4 => {
            let k = r.below(7);
            (format!("session id changed ({k})"), Box::new(move |_, s| {
                let old = s.sid.clone();
                match k {
                    0 => s.sid = vec![],
                    1 => {
                        s.sid.pop();
                    }
                    2 => {
                        let i = r2.below(s.sid.len().max(1) as u64) as usize;
                        if let Some(x) = s.sid.get_mut(i) {
                            *x ^= 1 << r2.below(8)
                        }
                    }
                    3 => s.sid = r2.bytes(32),
                    4 => s.sid.push(0),
                    5 => s.sid.reverse(),
                    _ => {
                        s.sid.truncate(16);
                    }
                }
                if s.sid == old {
                    s.sid = if old.is_empty() { vec![7] } else { vec![] };
                }
            }))
        }
        5 => {
            let g = [23u16, 24, 30, 0, 0x6399, 0x1d00, 0xffff][r.below(7) as usize];
            (format!("share of group {g}"), Box::new(move |p, s| {
                let b = p.pubshare();
                set(&mut s.exts, 51, [g.to_be_bytes().to_vec(), v16(&b)].concat())
            }))
        }
        6 => {
            p.shared_override = Some(vec![0; 32]);
            ("no key share".into(), Box::new(move |_, s| s.exts.retain(|x| x.0 != 51)))
        }
        7 => {
            let (t, b) = wrong_len(r, p);
            (t, Box::new(move |_, s| set(&mut s.exts, 51, [vec![0, 29], v16(&b)].concat())))
        }
        _ => {
            let b = low_order(r);
            p.shared_override = Some(vec![0; 32]);
            (format!("low order share {}", hex(&b)), Box::new(move |_, s| set(&mut s.exts, 51, [vec![0, 29], v16(&b)].concat())))
        }
    }
}
pub fn nego() {
    let topo = 1 + pk("topo", &[40, 60]) as u64;
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    o.script.extra = None;
    let mut r = rs("nego.rng");
    let good = yes("nego.good", 2, 5);
    let auth = yes("auth", 1, 4);
    let mut what;
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.end = PeerEnd::Linger;
        if auth {
            o.client_cert(&m.ccert, &m.ckey);
        }
        if yes("nego.sni", 1, 2) {
            o.cli.sni = Some(of("sni.name", &NAMES).into());
        }
        if good {
            what = "good".to_string();
        } else {
            p.lax = true;
            let (w_, f) = bad_choice(&mut r, &mut p);
            what = w_;
            p.flight = Some(Box::new(move |p| {
                let mut v = p.server_steps();
                v[0] = msg("sh", move |p| {
                    p.mk_sh();
                    let mut s = p.sh.take().unwrap();
                    f(p, &mut s);
                    let b = s.build();
                    p.sh = Some(s);
                    b
                });
                v
            }));
        }
        o.peer = Some(p);
    } else {
        let mut p = honest_client([0, 1, 2][pk("rich", &[40, 30, 30])], None);
        p.end = PeerEnd::Linger;
        if auth {
            o.auth(1);
            p.chain = vec![m.ccert.clone()];
            p.key = Some(m.ckey.clone());
        }
        if yes("nego.name", 1, 2) {
            let n = of("sni.name", &NAMES);
            o.srv.sni = Some(n.into());
            if yes("nego.asks", 1, 2) {
                set(&mut p.ch.exts, 0, v16(&[vec![0], v16(n.as_bytes())].concat()));
            }
        }
        if good {
            what = good_offer(&mut r, &mut p);
            if yes("nego.two", 1, 3) {
                what += " + ";
                what += &good_offer(&mut r, &mut p);
            }
        } else {
            p.lax = true;
            what = match bad_offer(&mut r, &mut o, &mut p) {
                Some(x) => x,
                None => return,
            };
            // harmless company
            if yes("nego.with", 1, 3) && !what.contains("suites") && !what.contains("versions") && !what.contains("share") {
                what += " + ";
                what += &good_offer(&mut r, &mut p);
            }
        }
        // the peer signs and verifies under whatever was selected
        o.peer = Some(p);
    }
    let _ = pki::unix;
    let class: String = what.chars().take_while(|c| !c.is_ascii_digit()).collect();
    w().probe(format!("nego.topo{topo}.{good}.{class}"));
    let mut l = launch(o);
    settle(&mut l);
    if good {
        must_succeed(&l, &["C15"], &[]);
    } else {
        if panics(&["C15"]) {
            return;
        }
        let Some(e) = [&l.c, &l.s].into_iter().flatten().next() else { return };
        let x = out(e.o);
        w().probe(format!("nego.topo{topo}.{class}.{:?}", x.hs));
        if matches!(x.hs, Some(Ok(()))) {
            viol(&["C15"], "accepted", format!("{} accepted: {what}", x.name));
        }
    }
    if w().viol.is_none() {
        let ks = if good { peer_ks(&l) } else { None };
        audit_all(&l, |_| AuditOpts { ks: ks.clone(), ..Default::default() });
    }
}
