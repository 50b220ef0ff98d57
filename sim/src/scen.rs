//! Scenarios: what the simulated world contains and which faults are injected.
use crate::crypto::*;
use crate::env::*;
use crate::observer::*;
use crate::reftls::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;

pub type Scen = fn();
/// scenario mixes per property
pub fn mix_for(pid: &str) -> Vec<(u64, &'static str, Scen)> {
    use crate::s_again::*;
    use crate::s_evil::*;
    use crate::s_fuzz::*;
    use crate::s_local::*;
    use crate::s_mitm::*;
    use crate::s_multi::*;
    use crate::s_nego::*;
    use crate::s_rng::*;
    use crate::s_state::*;
    use crate::s_tamper::*;
    match pid {
        "C01" => vec![(1, "honest", honest as Scen)],
        "C02" => vec![(1200, "honest", honest as Scen), (300, "timeouts", timeouts), (1, "marathon", marathon)],
        "C03" => vec![(12, "tamper", tamper as Scen), (1, "timeouts", timeouts)],
        "C04" => vec![(10, "evil_server", evil_server as Scen), (2, "relay", relay), (3, "again_client", again_client)],
        "C05" => vec![(10, "evil_client", evil_client as Scen), (2, "relay", relay), (2, "multi", multi), (3, "again_server", again_server)],
        "C06" => vec![(8, "clock", clock as Scen), (2, "clock_series", clock_series), (2, "no_dates", no_dates), (1, "again_server", again_server)],
        "C07" => vec![(5, "mitm_handshake", mitm_handshake as Scen), (2, "relay", relay)],
        "C08" => vec![(1, "evil_server", evil_server), (1, "evil_client", evil_client as Scen), (1, "tamper", tamper), (7, "fuzz", fuzz)],
        "C09" => vec![(24, "multi", multi as Scen), (1, "crowd", crowd), (3, "again_server", again_server), (3, "again_client", again_client)],
        "C10" => vec![(60, "multi", multi as Scen), (18, "rng", rng), (2, "bits", bits)],
        "C11" => vec![
            (1200, "honest", honest as Scen),
            (600, "tamper", tamper),
            (300, "mitm_handshake", mitm_handshake),
            (300, "fuzz", fuzz),
            (300, "nego", nego),
            (5, "marathon", marathon),
            (200, "wbreaks", wbreaks),
        ],
        "C12" => vec![(2, "honest", honest as Scen), (2, "keylog", keylog), (1, "multi", multi)],
        "C13" => vec![
            (1, "timeouts", timeouts as Scen),
            (1, "wbreaks", wbreaks),
            (2, "honest", honest),
            (2, "evil_server", evil_server),
            (2, "evil_client", evil_client),
            (2, "tamper", tamper),
            (4, "alerts", alerts),
            (2, "nego", nego),
            (2, "fuzz", fuzz),
            (1, "clock", clock),
        ],
        "C14" => vec![
            (4, "honest", honest as Scen),
            (2, "evil_server", evil_server),
            (2, "evil_client", evil_client),
            (2, "nego", nego),
            (1, "fuzz", fuzz),
            (1, "mitm_handshake", mitm_handshake),
        ],
        "C15" => vec![(4, "nego", nego as Scen), (1, "honest", honest)],
        "C16" => vec![(1, "pem", pem as Scen)],
        "C19" => vec![(1, "sequence", sequence as Scen)],
        "C20" => vec![
            (40, "honest", honest as Scen),
            (40, "evil_server", evil_server),
            (40, "evil_client", evil_client),
            (40, "tamper", tamper),
            (60, "fuzz", fuzz),
            (30, "sequence", sequence),
            (20, "nego", nego),
            (20, "alerts", alerts),
            (30, "keylog", keylog),
            (10, "clock", clock),
            (10, "wbreaks", wbreaks),
            (10, "timeouts", timeouts),
            (30, "multi", multi),
            (10, "rng", rng),
            (6, "crowd", crowd),
            (10, "series", series),
            (10, "again_client", again_client),
            (10, "again_server", again_server),
        ],
        "X2" => vec![(1, "crowd", crowd as Scen)],
        "X4" => vec![(1, "wbreaks", wbreaks as Scen)],
        "X3" => vec![(1, "timeouts", timeouts as Scen)],
        "X1" => vec![(1, "marathon", marathon as Scen)],
        _ => vec![],
    }
}
pub fn run(pid: &str) -> &'static str {
    set_pid(pid);
    let m = mix_for(pid);
    let wts: Vec<u64> = m.iter().map(|x| x.0).collect();
    let i = pk("scen", &wts);
    crate::sut::reset();
    w().probe(format!("scenario.{}", m[i].1));
    (m[i].2)();
    if is_pid("C20") && w().viol.is_none() {
        crate::sut::released();
    }
    m[i].1
}

fn suites(r: &mut Rng) -> Vec<Suite> {
    let mut l = SUITES.to_vec();
    for i in (1..3).rev() {
        let j = r.below(i as u64 + 1) as usize;
        l.swap(i, j);
    }
    let n = 1 + r.below(3) as usize;
    l.truncate(n);
    l
}
/// 253 is the longest host name there is, nothing keeps an application from asking for a longer one
const N253: &str = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.test1234";
const N300: &str = "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.test";
pub const NAMES: [&str; 8] = [N253, N300, "server.test", "a", "localhost", "xn--bcher-kva.example", "very.long.name.example.with.many.labels.and.more.labels.test", "Server.Test"];

/// a conforming reference server
pub fn honest_server(m: &'static Mat, sni: Option<&str>) -> Peer {
    let mut p = Peer::new(true, c("ref.seed", 1 << 40));
    let mut r = rs("ref.rng");
    p.suite = Some(of("ref.suite", &SUITES));
    p.key = Some(m.skey.clone());
    p.chain = vec![m.scert.clone()];
    for _ in 0..[0, 0, 0, 1, 2][c("ref.chain", 5) as usize] {
        p.chain.push(m.inter.clone());
    }
    if yes("ref.creq", 2, 5) {
        let mut sigs = vec![0x0403u16];
        if yes("ref.sigs", 1, 2) {
            sigs.insert(r.below(2) as usize, 0x0804);
            sigs.push(0x0503);
            sigs.push(0x0807);
        }
        let l: Vec<u8> = sigs.iter().flat_map(|x| x.to_be_bytes()).collect();
        let mut e = vec![ext(13, &v16(&l))];
        if yes("ref.ca", 1, 3) {
            e.push(ext(47, &v16(&v16(&crate::pki::name("some ca", 0, false)))));
        }
        if yes("ref.sac", 1, 3) {
            e.insert(0, ext(50, &v16(&l)));
        }
        let b: Vec<u8> = exts(&e)[2..].to_vec();
        // no server should send a context here, but this library does
        let ctx = if yes("ref.ctx", 1, 6) { vec![0x5c; of("ref.ctxn", &[1usize, 32, 65, 254, 255])] } else { vec![] };
        p.creq = Some((ctx, b));
    }
    if sni.is_some() && yes("ref.sniack", 1, 2) {
        p.ee.push((0, vec![]));
    }
    if yes("ref.groups", 1, 3) {
        p.ee.push((10, v16(&[0, 29, 0, 23])));
    }
    odd_share(&mut p);
    p.frame = gen_frame();
    p.half_rtt = yes("ref.half", 1, 4);
    p.sig_short = yes("ref.sigshort", 1, 10);
    p
}
/// the top bit of an X25519 key is to be ignored by the receiver
fn odd_share(p: &mut Peer) {
    if yes("ref.topbit", 1, 8) {
        let mut s = x25519_base(&p.xk);
        s[31] ^= 0x80;
        p.share_override = Some(s.to_vec());
    }
}
/// a conforming reference client
pub fn honest_client(rich: u64, sni: Option<&str>) -> Peer {
    let mut p = Peer::new(false, c("ref.seed", 1 << 40));
    let mut r = rs("ref.rng");
    odd_share(&mut p);
    let share = p.pubshare();
    let su = suites(&mut r);
    p.ch = offer(&mut r, &share, &su, sni, rich);
    p.frame = gen_frame();
    p.sig_short = yes("ref.sigshort", 1, 10);
    p
}
fn one_end(extra: Option<usize>, peer_side: usize) -> PeerEnd {
    match extra {
        Some(x) if x != peer_side => match c("end", 4) {
            0 => PeerEnd::Close,
            1 => PeerEnd::NotifyClose,
            2 => PeerEnd::Alert(of("end.alert", &[10, 20, 22, 40, 42, 45, 47, 48, 50, 51, 70, 80, 86, 90, 109, 110, 112, 116, 120, 49, 71, 46, 255, 1])),
            _ => PeerEnd::Reset,
        },
        _ => PeerEnd::Linger,
    }
}

pub const EARLIER: &[u8] = b"# earlier content\nSERVER_TRAFFIC_SECRET_0 00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff 00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff\n";
/// S1: honest endpoints, hostile network timing
pub fn honest() {
    let topo = pk("topo", &[34, 33, 33]) as u64;
    let mut knobs = net_knobs();
    let cap = knobs.sndcap;
    // the device may return anything: here what leads to short signatures
    w().rnd.shape = pk("rng.shape", &[88, 8, 4]) as u8;
    // certificates longer than 16 bits can count
    let huge = yes("mat.huge", 1, 50);
    let mut o = if huge { One::with(topo, mat(24 + c("mat.hugei", 6))) } else { One::new(topo) };
    if huge {
        w().max_steps = 3_000_000;
        if knobs.seg == 2 || knobs.seg == 1 {
            knobs.seg = 4;
        }
    }
    o.knobs = knobs;
    let m = o.mat;
    o.script = gen_script(if topo == 0 { cap } else { usize::MAX }, true);
    let vast = (topo != 0 || cap == usize::MAX) && yes("vast", 1, 60);
    if vast {
        vast_script(&mut o.script);
        w().max_steps = 3_000_000;
        if o.knobs.seg == 2 || o.knobs.seg == 1 {
            o.knobs.seg = 4;
        }
        o.knobs.sndcap = usize::MAX;
        o.knobs.rd_short = 0;
    }
    let named = yes("sni", 1, 2);
    if named {
        let n = of("sni.name", &NAMES);
        if topo != 2 {
            o.cli.sni = Some(n.into());
        }
        if topo != 1 {
            o.srv.sni = if topo == 0 && yes("sni.open", 1, 3) { None } else { Some(n.into()) };
        }
    } else if topo != 1 && yes("sni.only", 1, 4) {
        // the server has a name, the client does not ask for any
        o.srv.sni = Some("server.test".into());
    }
    let auth = yes("auth", 2, 5);
    let mut rich = 0;
    if topo != 1 && auth {
        o.auth([0, 1, 2][c("verify", 3) as usize]);
        if topo == 0 {
            o.client_cert(&m.ccert, &m.ckey);
        }
    } else if topo != 2 && yes("clicert", 1, 2) {
        o.client_cert(&m.ccert, &m.ckey);
    }
    if topo == 1 {
        let mut p = honest_server(m, o.cli.sni.as_deref());
        if vast {
            p.frame.app_max = p.frame.app_max.max(4000);
        }
        p.end = one_end(o.script.extra, 1);
        if let Some((cert, key)) = &o.cli_cert {
            p.expect_cert = Some(cert.clone());
            p.expect_point = Some(key.q);
        }
        if o.script.extra == Some(1) {
            o.script.extra = None;
        }
        if cap < 1000 {
            p.frame.split_send = false;
        }
        if huge {
            p.frame.piece = p.frame.piece.max(333);
        }
        o.peer = Some(p);
    } else if topo == 2 {
        rich = [0, 1, 2][pk("rich", &[40, 30, 30])];
        let sni = match (&o.srv.sni, named) {
            (Some(n), true) => Some(n.clone()),
            (None, _) if yes("sni.any", 1, 3) => Some("other.example".into()),
            _ => None,
        };
        let mut p = honest_client(rich, sni.as_deref());
        p.expect_cert = Some(m.scert.clone());
        p.expect_point = Some(m.skey.q);
        if auth {
            p.chain = vec![m.ccert.clone()];
            p.key = Some(m.ckey.clone());
            if yes("ref.chain", 1, 4) {
                p.chain.push(m.inter.clone());
            }
        }
        if huge {
            p.frame.piece = p.frame.piece.max(333);
        }
        if vast {
            p.frame.app_max = p.frame.app_max.max(4000);
        }
        p.end = one_end(o.script.extra, 0);
        if o.script.extra == Some(0) {
            o.script.extra = None;
        }
        p.start_delay = [0, 0, 50 * MS][c("ref.start", 3) as usize];
        o.peer = Some(p);
    }
    let pre = if yes("log.pre", 1, 3) { EARLIER.to_vec() } else { vec![] };
    if !pre.is_empty() {
        w().put_file("/sim/keylog.c", pre.clone());
        w().put_file("/sim/keylog.s", pre.clone());
    }
    o.ac.pause = [0, 0, 0, 2 * SEC][c("pause.c", 4) as usize];
    o.asv.pause = [0, 0, 0, 2 * SEC][c("pause.s", 4) as usize];
    o.ac.post = c("post", 3) as usize;
    o.asv.post = o.ac.post;
    let end = o.peer.as_ref().map(|p| p.end);
    let mut l = launch(o);
    settle(&mut l);
    let mut tags = vec!["C01"];
    if auth {
        tags.push("C05");
    }
    if rich > 0 {
        tags.push("C15");
    }
    w().probe(format!("honest.topo{topo}.auth{auth}.seg{}", w().k.seg));
    must_succeed(&l, &tags, &["C02"]);
    end_check(&l, end);
    for k in ["/sim/keylog.c", "/sim/keylog.s"] {
        if !w().vfs.files.get(k).map(|f| strip_ok(f, &pre)).unwrap_or(true) {
            viol(&["C12"], "prefix", format!("{k} no longer starts with what it held before"));
        }
    }
    let ks = peer_ks(&l);
    let nd = if is_pid("C11") { needles(&l) } else { vec![] };
    let (a, b) = audit_all(&l, |_| AuditOpts { ks: ks.clone(), needles: nd.clone(), ..Default::default() });
    if let (Some(a), Some(b)) = (&a, &b) {
        if a.ok && b.ok && (a.sec.c_ap != b.sec.c_ap || a.sec.s_ap != b.sec.s_ap || a.sec.c_hs != b.sec.c_hs || a.sec.s_hs != b.sec.s_hs) {
            viol(&["C01", "C12"], "keys_differ", "both sides completed with different secrets".to_string());
        }
    }
    for (x, side) in [(&a, 0), (&b, 1)] {
        let Some(x) = x else { continue };
        // what the observer decrypts is what was written
        let want = l.script.content(side, 0, l.script.total(side));
        if x.ok && x.own.opaque == 0 && x.own.sealed.is_empty() && x.own.app != want {
            let at = x.own.app.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(x.own.app.len().min(want.len()));
            viol(&["C11"], "observed", format!("side {side}: the observer decrypts {} bytes instead of the {} written, different at {at}", x.own.app.len(), want.len()));
        }
        for r in &x.own.recs {
            w().probe(format!("rec.{}.{}.{}", r.outer, r.inner, (r.len as f64 + 1.0).log2() as u32));
        }
    }
}
/// The sockets have read timeouts and the network is slow. A read that timed out is repeated.
pub fn timeouts() {
    let topo = pk("topo", &[34, 33, 33]) as u64;
    let mut o = One::new(topo);
    let m = o.mat;
    let mut k = net_knobs();
    k.delay = of("to.delay", &[1u64, 2, 3, 3]);
    if k.seg == 2 {
        k.seg = 4;
    }
    let cap = k.sndcap;
    o.knobs = k;
    o.script = gen_script(if topo == 0 { cap } else { usize::MAX }, false);
    o.script.extra = None;
    w().max_steps = 3_000_000;
    let mut t = of("to.ns", &[MS, 7 * MS, 50 * MS, 300 * MS]);
    if o.knobs.delay == 2 {
        // waits of a minute
        t = t.max(50 * MS);
    }
    o.ac.timeo = t;
    o.asv.timeo = t;
    o.ac.pause = [0, 0, 2 * SEC][c("pause.c", 3) as usize];
    o.asv.pause = [0, 0, 2 * SEC][c("pause.s", 3) as usize];
    // from the start on: then the handshake may fail
    let early = yes("to.early", 1, 3);
    if early {
        o.early_timeo = of("to.ens", &[7 * MS, 300 * MS, 800 * MS]);
    }
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.end = PeerEnd::Linger;
        p.creq = None;
        o.peer = Some(p);
    } else if topo == 2 {
        let mut p = honest_client(0, None);
        p.end = PeerEnd::Linger;
        o.peer = Some(p);
    }
    let mut l = launch(o);
    settle(&mut l);
    let eps: Vec<&Ep> = [&l.c, &l.s].into_iter().flatten().collect();
    let failed: Vec<String> = eps.iter().filter_map(|e| out(e.o).hs.and_then(|r| r.err())).collect();
    let again: usize = eps.iter().map(|e| out(e.o).retries).sum();
    w().probe(format!("timeouts.topo{topo}.early{early}.failed{}.again{}", failed.len(), (again as f64 + 1.0).log2() as u32));
    w().stats.entry("net.read_timeout").and_modify(|x| *x += again as u64).or_insert(again as u64);
    if panics(&["C02"]) {
        return;
    }
    if !early || failed.is_empty() {
        must_succeed(&l, &["C01"], &["C02"]);
    } else {
        for e in &eps {
            let o = out(e.o);
            if let Some(Err(x)) = &o.hs {
                if x != "BrokenPipe" {
                    viol(&["C13", "C08"], "timeout", format!("{} reports {x} for a timeout: {}", o.name, describe(&l)));
                }
            }
            let dir = 1 - e.server as usize;
            let want = l.script.content(dir, 0, l.script.total(dir));
            if !want.starts_with(&o.rx) {
                viol(&["C02", "C03"], "prefix", format!("{} delivered wrong data around timeouts: {}", o.name, describe(&l)));
            }
        }
    }
    let ks = peer_ks(&l);
    audit_all(&l, |_| AuditOpts { ks: ks.clone(), no_alert_rule: true, ..Default::default() });
    for e in &eps {
        let o = out(e.o);
        if matches!(&o.hs, Some(Err(x)) if x == "BrokenPipe") {
            let d = decode(&w().conns[e.conn].ends[e.side].tx.clone(), e.server, &Secrets::default(), true);
            if !d.alerts.is_empty() || d.recs.iter().any(|r| r.outer == 21) {
                viol(&["C13"], "alert_on_transport", format!("{} answered a timeout with an alert", o.name));
            }
        }
    }
}
/// Sends fail once after a part of a record has left (as after a send timeout); the application
/// goes on writing. Whatever it does, no record number may be used for two records.
pub fn wbreaks() {
    let topo = pk("topo", &[34, 33, 33]) as u64;
    let me = if topo == 0 { c("wb.me", 2) as usize } else { topo as usize - 1 };
    let mut o = One::new(topo);
    let m = o.mat;
    let mut k = net_knobs();
    k.sndcap = usize::MAX;
    o.knobs = k;
    o.script = gen_script(usize::MAX, false);
    o.script.extra = None;
    for r in o.script.rounds.iter_mut() {
        r.len[1 - me] = 0;
        r.len[me] = r.len[me].max(40).min(20_000);
    }
    o.script.wmode[me] = c("wb.wmode", 3);
    let mut r = rs("wb.rng");
    let early = yes("wb.early", 1, 3);
    let af = if me == 0 { &mut o.ac } else { &mut o.asv };
    let mut at = vec![];
    if !early {
        let mut p = 0;
        for _ in 0..1 + r.below(4) {
            p += match r.below(4) {
                0 => r.below(8),
                1 => r.below(60),
                2 => r.below(600),
                _ => r.below(20_000),
            } as usize;
            at.push(p);
        }
        af.wbreaks = at.clone();
        af.wretry = r.below(12) as usize;
    }
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.end = PeerEnd::Linger;
        o.peer = Some(p);
    } else if topo == 2 {
        let mut p = honest_client(0, None);
        p.end = PeerEnd::Linger;
        o.peer = Some(p);
    }
    if early {
        let far = if r.below(3) == 0 { 4000 } else { 600 };
        o.early_break = Some((me, r.below(far) as usize));
    }
    let mut l = launch(o);
    settle(&mut l);
    if panics(&["C08"]) {
        return;
    }
    let e = if me == 0 { &l.c } else { &l.s }.as_ref().unwrap();
    let o = out(e.o);
    let end = &w().conns[e.conn].ends[e.side];
    let (tx, broke) = (end.tx.clone(), end.tx_broke.clone());
    w().probe(format!("wbreaks.topo{topo}.side{me}.early{early}.broke{}.hs{}", broke.len(), matches!(o.hs, Some(Ok(())))));
    if broke.is_empty() {
        return;
    }
    if let Some(Err(x)) = &o.hs {
        if x != "BrokenPipe" {
            viol(&["C13"], "timeout", format!("{} reports {x} for a send that failed: {}", o.name, describe(&l)));
        }
        if tx.len() != broke[0] {
            viol(&["C13"], "alert_on_transport", format!("{} sent {} more bytes after a send that failed in the handshake", o.name, tx.len() - broke[0]));
        }
        return;
    }
    if early {
        return;
    }
    // ---- every record after the handshake has its own number
    let x = w().conns[e.conn].ends[1 - e.side].tx.clone();
    let (ch, sh) = if e.server { (&x, &tx) } else { (&tx, &x) };
    let Some((Some(ch), Some(sh))) = Some((ch_of(ch), sh_of(sh))) else { return };
    let file = if e.server { "/sim/keylog.s" } else { "/sim/keylog.c" };
    let (kl, _) = parse_keylog(w().vfs.files.get(file).map(|x| &x[..]).unwrap_or(&[]));
    let sec = keylog_secrets(&kl, &ch.random, Suite::from(sh.suite));
    let (Some(su), Some(ap)) = (Suite::from(sh.suite), if e.server { sec.s_ap } else { sec.c_ap }) else { return };
    let dir = Dir::new(su, &ap);
    let opens = |n: u64, r: &[u8]| {
        let mut d = dir.clone();
        d.seq = n;
        d.open(r).is_ok()
    };
    let mut pos = o.tx0;
    // the numbers that the next record may have: a record of which nothing was sent may have used one
    let (mut lo, mut hi) = (0u64, broke.iter().filter(|b| **b == pos).count() as u64);
    let mut frag: &[u8] = &[];
    loop {
        let rest = &tx[pos..];
        if rest.len() < 5 {
            break;
        }
        let end = pos + 5 + ((rest[3] as usize) << 8 | rest[4] as usize);
        let whole = tx.get(pos..end);
        let num = whole.and_then(|r| {
            // the rest of the last record, or that record once more
            let back = frag.len() > 5 && r.starts_with(frag);
            (lo.saturating_sub(back as u64)..=hi).find(|x| opens(*x, r))
        });
        if let Some(x) = num {
            pos = end;
            lo = x + 1;
            hi = lo + broke.iter().filter(|b| **b == pos).count() as u64;
            frag = &[];
            continue;
        }
        if let Some(b) = broke.iter().copied().find(|b| *b > pos && *b < end) {
            frag = &tx[pos..b];
            pos = b;
            if frag.len() > 5 {
                lo += 1;
            }
            hi += broke.iter().filter(|b| **b == pos).count() as u64;
            continue;
        }
        let n = lo;
        let Some(r) = whole else { break };
        let used = (0..n).find(|x| opens(*x, r));
        viol(
            &["C11"],
            "after_failed_send",
            match used {
                Some(x) => format!("{} sealed two different records with number {x}: a send failed at {:?}, record at byte {pos}", o.name, broke),
                None => format!("{} sent a record at byte {pos} that does not open with number {n}, a send had failed at {:?}", o.name, broke),
            },
        );
        break;
    }
    let t = tx[o.tx0..].to_vec();
    let want = l.script.content(me, 0, l.script.total(me));
    let mut nd = Needles::default();
    nd.add(&want);
    if let Some(p) = nd.find(&t) {
        viol(&["C11"], "leak", format!("{} sent application data unprotected at {p}, a send had failed at {:?}", o.name, broke));
    }
}
/// more records in one direction than 16 bits can count
pub fn marathon() {
    let topo = pk("topo", &[30, 35, 35]) as u64;
    let mut o = One::new(topo);
    let m = o.mat;
    w().max_steps = 3_000_000;
    let n = 65_536 + c("mar.n", 1500) as usize;
    let dir = c("mar.dir", 2) as usize;
    let mut len = [c("mar.b", 50) as usize; 2];
    len[dir] = n + n / 50;
    let after = Round { len: [100, 100] };
    o.script = Script { rounds: vec![Round { len }, after], seed: c("s.seed", 1 << 40), wmode: [TINY; 2], rmode: [0; 2], extra: None };
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.frame.app_max = 1 + c("mar.rec", 2) as usize;
        p.frame.app_empty = false;
        p.frame.pad = 0;
        p.end = PeerEnd::Linger;
        o.script.rounds[0].len[1] *= p.frame.app_max;
        o.peer = Some(p);
    } else if topo == 2 {
        let mut p = honest_client(0, None);
        p.frame.app_max = 1 + c("mar.rec", 2) as usize;
        p.frame.app_empty = false;
        p.frame.pad = 0;
        p.end = PeerEnd::Linger;
        o.script.rounds[0].len[0] *= p.frame.app_max;
        o.peer = Some(p);
    }
    let mut l = launch(o);
    settle(&mut l);
    w().probe(format!("marathon.topo{topo}.dir{dir}"));
    must_succeed(&l, &["C01", "C11"], &["C02", "C11"]);
    let ks = peer_ks(&l);
    let (a, b) = audit_all(&l, |_| AuditOpts { ks: ks.clone(), ..Default::default() });
    for x in [&a, &b].into_iter().flatten() {
        w().probe(format!("marathon.records.{}", x.own.recs.len() > 65_536));
    }
}
fn strip_ok(f: &[u8], pre: &[u8]) -> bool {
    f.starts_with(pre)
}
/// what the last read must report after the peer ended the connection
fn end_check(l: &Live, end: Option<PeerEnd>) {
    for e in [&l.c, &l.s].into_iter().flatten() {
        let o = out(e.o);
        if let Some(x) = &o.extra {
            match x {
                Ok(n) => viol(&["C02", "C03"], "extra", format!("{} read {n} bytes that nobody sent", o.name)),
                Err(err) => match end {
                    Some(PeerEnd::NotifyClose) if rfc_code(err) != Some(0) => {
                        viol(&["C13"], "app_alert", format!("close_notify was reported as {err}"))
                    }
                    Some(PeerEnd::Alert(d)) if rfc_code(err) != Some(d) => {
                        viol(&["C13"], "app_alert", format!("alert {d} in place of data was reported as {err}"))
                    }
                    _ => {}
                },
            }
        }
        if o.post.iter().any(|x| matches!(x, Ok(n) if *n > 0)) {
            viol(&["C02", "C03"], "after_end", format!("{} read data after the end: {:?}", o.name, o.post));
        }
    }
}
pub fn prewarm() {}
/// number of runs and seconds
pub fn budget(pid: &str, tier: &str) -> (u64, u64) {
    if tier == "thorough" {
        (2_000_000, 600)
    } else {
        match pid {
            // several connections per run
            "C09" => (5_000, 120),
            "C10" => (3_000, 120),
            _ => (15_000, 120),
        }
    }
}
