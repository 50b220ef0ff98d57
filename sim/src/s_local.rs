//! S5 clock, S10 key log file, S13 PEM files: faults of the local machine.
use crate::crypto::*;
use crate::env::*;
use crate::observer::*;
use crate::pki::{self, CertSpec};
use crate::reftls::*;
use crate::scen::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;

// ---------------------------------------------------------------- S5 clock
const DAY: i64 = 86_400;
fn pivot(r: &mut Rng) -> i64 {
    let l = [
        (1970, 1, 1), (1970, 12, 31), (1971, 1, 1), (1972, 2, 28), (1972, 2, 29), (1972, 3, 1), (1972, 12, 31), (1999, 12, 31), (2000, 1, 1),
        (2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (2000, 12, 31), (2001, 1, 1), (2023, 2, 28), (2023, 3, 1), (2023, 12, 31), (2024, 1, 1),
        (2024, 1, 31), (2024, 2, 1), (2024, 2, 28), (2024, 2, 29), (2024, 3, 1), (2024, 4, 30), (2024, 5, 31), (2024, 6, 30), (2024, 7, 1),
        (2024, 8, 31), (2024, 9, 30), (2024, 10, 31), (2024, 11, 30), (2024, 12, 31), (2025, 1, 1), (2025, 3, 1), (2036, 2, 29), (2037, 12, 31),
        (2038, 1, 19), (2040, 2, 29), (2049, 12, 31), (2050, 1, 1), (2050, 12, 31), (2051, 6, 15), (2068, 2, 29), (2069, 1, 1), (2070, 1, 1),
        (2099, 12, 31), (2100, 1, 1), (2100, 2, 28), (2100, 3, 1), (2100, 12, 31), (2104, 2, 29), (2106, 2, 7), (2199, 12, 31), (2200, 3, 1),
        (2262, 4, 11), (2300, 3, 1), (2400, 2, 28), (2400, 2, 29), (2400, 3, 1), (2401, 1, 1), (3000, 2, 28), (4000, 2, 29), (9999, 12, 31),
    ];
    match r.below(10) {
        0 => 0,
        1 => (1i64 << 31) - 1,
        2 => (1i64 << 32) - 1,
        3 => r.below(unix_max() as u64) as i64,
        4 => pki::unix(1970 + r.below(180) as i64, 1 + r.below(12) as u32, 1, 0, 0, 0),
        5 => {
            let y = 1970 + 4 * r.below(40) as i64;
            pki::unix(y, 2, if y % 400 == 0 || y % 100 != 0 { 29 } else { 28 }, r.below(24) as u32, r.below(60) as u32, r.below(60) as u32)
        }
        _ => {
            let (y, m, d) = l[r.below(l.len() as u64) as usize];
            let (h, mi, s) = match r.below(4) {
                0 => (0, 0, 0),
                1 => (23, 59, 59),
                2 => (12, 0, 0),
                _ => (r.below(24) as u32, r.below(60) as u32, r.below(60) as u32),
            };
            pki::unix(y, m, d, h, mi, s)
        }
    }
}
fn unix_max() -> i64 {
    pki::unix(9999, 12, 31, 23, 59, 59)
}
fn unix_min() -> i64 {
    pki::unix(1, 1, 1, 0, 0, 0)
}
fn window(r: &mut Rng, p: i64) -> (i64, i64) {
    let len = match r.below(9) {
        0 => 0,
        1 => 1,
        2 => 59,
        3 => 3600,
        4 => DAY,
        5 => 90 * DAY,
        6 => 366 * DAY,
        7 => 3653 * DAY,
        _ => r.below(100 * 366) as i64 * DAY + r.below(DAY as u64) as i64,
    };
    let (a, b) = match r.below(12) {
        0 => (p, p - 1 - len), // never valid
        1 => (unix_min(), p),
        2 => (p, unix_max()),
        3 => (pki::unix(1949, 12, 31, 23, 59, 59) + r.below(3) as i64 - 1, p),
        x if x < 8 => (p, p + len),
        _ => (p - len, p),
    };
    (a.clamp(unix_min(), unix_max()), b.clamp(unix_min(), unix_max()))
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    In,
    Out,
    Open,
}
/// verdict over every wall clock value between the start and the end of the call
fn verdict(o: &Out, tid: Tid, win: (i64, i64), skip: usize) -> V {
    let (mut pts, mut cur) = (vec![], o.w0);
    for (t, a, b) in &w().jumps[skip..] {
        if *t >= o.t0 && *t <= o.hs_time {
            pts.push((cur, *a));
            cur = *b;
        }
    }
    pts.push((cur, o.w1));
    let side = |x: i64| if x < win.0 { -1 } else if x > win.1 { 1 } else { 0 };
    let none = win.1 < win.0;
    let one = |a: i64, b: i64| -> V {
        if none {
            V::Out
        } else if side(a) != side(b) {
            V::Open
        } else if side(a) == 0 {
            V::In
        } else {
            V::Out
        }
    };
    let all: Vec<V> = pts.iter().map(|p| one(p.0, p.1)).collect();
    if all.iter().all(|v| *v == all[0]) && all[0] != V::Open {
        return all[0];
    }
    // the window is crossed during the call: what was the clock when it was read?
    let obs: Vec<V> =
        w().clock_obs.iter().filter(|x| x.0 == tid && x.1 >= o.t0 && x.1 <= o.hs_time).map(|x| one(x.2, x.2)).collect();
    if !obs.is_empty() && obs.iter().all(|v| *v == obs[0]) {
        return obs[0];
    }
    V::Open
}
pub fn clock() {
    let topo = pk("topo", &[20, 40, 40]) as u64;
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let mut r = rs("clk.rng");
    let p = pivot(&mut r);
    let ws = window(&mut r, p);
    let wc = if yes("clk.same", 1, 2) { ws } else { window(&mut r, p) };
    // the certificates
    let mut m = o.mat.clone();
    let gen = |r: &mut Rng| (r.below(5) == 0, r.below(5) == 0);
    let mut spec = CertSpec::plain("server.test", "server.test");
    (spec.nb, spec.na) = ws;
    spec.general = gen(&mut r);
    m.scert = pki::cert(&spec, &m.skey, &m.skey, &mut r);
    let mut spec = CertSpec::plain("good client", "ca.test");
    (spec.nb, spec.na) = wc;
    spec.general = gen(&mut r);
    m.ccert = pki::cert(&spec, &m.ckey, &m.ca, &mut r);
    let m: &'static Mat = Box::leak(Box::new(m));
    o.mat = m;
    // the clock
    let base = match r.below(6) {
        0 => ws.0,
        1 => wc.0,
        2 => wc.1,
        3 => ws.1,
        4 => p,
        _ => (ws.0 / 2).saturating_add(ws.1 / 2),
    };
    let off = match r.below(14) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 | 5 => -1,
        6 => 2,
        7 => -2,
        8 => 60,
        9 => -3600,
        10 => DAY,
        11 => -DAY,
        12 => (r.below(2 * DAY as u64) as i64) - DAY,
        _ => (r.below(800 * DAY as u64) as i64) - 400 * DAY,
    };
    let mut now = base.saturating_add(off);
    let early = yes("clk.early", 1, 12);
    if early {
        now = of("clk.before", &[-1i64, -2, -DAY, -1 << 31, -62_135_596_800, -(1 << 40)]);
    } else {
        now = now.max(0);
    }
    let wd = w();
    wd.wall0 = now;
    wd.wall_ns = match c("clk.ns", 4) {
        0 => 0,
        1 => 999_999_999,
        2 => 1,
        _ => c("clk.nsv", 1_000_000_000) as i64,
    };
    // jumps and slow peers
    let jump = pk("clk.jump", &[70, 15, 15]);
    if jump > 0 {
        let to = match r.below(6) {
            0 => ws.0 - 1,
            1 => wc.1 + 1,
            2 => ws.0,
            3 => p,
            4 => -5,
            _ => r.below(unix_max() as u64) as i64,
        };
        let d = to.saturating_sub(now);
        if jump == 1 {
            let at = 1 + c("clk.jat", 3);
            wd.clock_jump = Some(Box::new(move |_, n| if n == at { d } else { 0 }));
        } else {
            let t = c("clk.jt", 40) * MS;
            wd.after(t, Ev::Call(Box::new(move |w| w.jump(d))));
        }
    }
    let sleep = [0, 0, 1, 3][c("clk.sleep", 4) as usize] * SEC + c("clk.sleepms", 1000) * MS;
    // further connections of the same process, with the clock moved in between
    let more = pk("clk.more", &[60, 20, 15, 5]);
    let keep = more > 0 && topo != 1 && yes("clk.keep", 1, 2);
    if more > 0 {
        o.cli.share = yes("clk.share", 1, 2);
    }
    let mut srv = None;
    for n in 0..=more {
        let skip = w().jumps.len();
        if n > 0 {
            o = One::with(topo, m);
            o.knobs = w().k.clone();
            o.cli.share = true;
            let base = [ws.0, ws.1, wc.0, wc.1, p][c("clk.to", 5) as usize];
            let off = [0, 1, -1, 1800, -1800, 40 * DAY, -40 * DAY, 4000 * DAY][c("clk.off", 8) as usize];
            let d = base.saturating_add(off).max(0).saturating_sub(w().wall().0);
            w().jump(d);
        }
        let skip = if n > 0 { skip + 1 } else { skip };
        let slp = if n == 0 { sleep } else { 0 };
        if topo != 1 {
            o.auth(0);
        }
        o.client_cert(&m.ccert, &m.ckey);
        if topo == 1 {
            let mut q = honest_server(m, None);
            q.half_rtt = false;
            q.end = PeerEnd::Linger;
            if slp > 0 {
                q.flight = Some(Box::new(move |p| {
                    let mut v = p.server_steps();
                    let at = v.iter().position(|s| s.label() == "cert").unwrap_or(0);
                    v.insert(at, Step::Sleep(slp));
                    v
                }));
            }
            o.peer = Some(q);
        } else if topo == 2 {
            let mut q = honest_client(0, None);
            q.chain = vec![m.ccert.clone()];
            q.key = Some(m.ckey.clone());
            q.start_delay = [0, slp][c("clk.start", 2) as usize];
            q.end = PeerEnd::Linger;
            o.peer = Some(q);
        }
        o.keep = keep;
        o.reuse = srv.take();
        let mut l = launch(o);
        settle(&mut l);
        srv = l.srv.take();
        clock_judge(&l, ws, wc, jump, n, skip);
        if w().viol.is_some() {
            break;
        }
        o = One::with(topo, m);
    }
    std::mem::forget(srv);
}
/// a date that is none, however it may be read; `t` would be right
fn no_date(r: &mut Rng, t: i64) -> (String, Vec<u8>) {
    let good = pki::der_time(t, r.below(2) == 0);
    let (tag, s) = (good[0], good[2..].to_vec());
    // where the month starts
    let at = if tag == 0x18 { 4 } else { 2 };
    let mut s = s;
    let two = |s: &mut Vec<u8>, i: usize, v: u64| s[i..i + 2].copy_from_slice(format!("{v:02}").as_bytes());
    match r.below(15) {
        0 => two(&mut s, at, [0, 13, 14, 20, 99][r.below(5) as usize]),
        1 => two(&mut s, at + 2, [0, 32, 40, 99][r.below(4) as usize]),
        2 => {
            two(&mut s, at, [4, 6, 9, 11][r.below(4) as usize]);
            two(&mut s, at + 2, 31);
        }
        3 => {
            two(&mut s, at, 2);
            two(&mut s, at + 2, 30 + r.below(2));
        }
        4 => {
            // not a leap year
            let y = (t / DAY / 365 + 1970) as u64 / 4 * 4 + 1 + r.below(3);
            two(&mut s, at - 2, y % 100);
            two(&mut s, at, 2);
            two(&mut s, at + 2, 29);
        }
        5 => two(&mut s, at + 4, [24, 25, 60, 99][r.below(4) as usize]),
        6 => two(&mut s, at + 6, [60, 61, 99][r.below(3) as usize]),
        7 => two(&mut s, at + 8, [61, 75, 99][r.below(3) as usize]),
        8 | 9 => {
            // a digit that is none
            let i = r.below(s.len() as u64 - 1) as usize;
            s[i] = *b"+- :./AaZz\0".get(r.below(11) as usize).unwrap_or(&b'x');
        }
        10 => {
            s.pop();
        }
        11 => {
            let n = s.len() - 1;
            s[n] = [b'z', b'Y', b'0', b' '][r.below(4) as usize];
        }
        12 => s.truncate(r.below(s.len() as u64 - 3) as usize),
        13 => {
            let x: &[u8] = [b"Z".as_slice(), b"0", b"\0", b" "][r.below(4) as usize];
            s.extend_from_slice(x);
        }
        _ => {
            // the wrong kind
            let k = [0x02, 0x04, 0x05, 0x0c, 0x13, 0x30][r.below(6) as usize];
            let txt = String::from_utf8_lossy(&s).to_string();
            return (format!("{txt} of type {k:02x}"), pki::tlv(k, &s));
        }
    }
    (format!("{:?}", String::from_utf8_lossy(&s)), pki::tlv(tag, &s))
}
/// certificates without a validity that could be read
pub fn no_dates() {
    let topo = 1 + c("nd.topo", 2);
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let mut r = rs("nd.rng");
    let now = pki::unix(1990 + r.below(50) as i64, 1 + r.below(12) as u32, 1 + r.below(28) as u32, 12, 0, 0);
    w().wall0 = now;
    let mut m = o.mat.clone();
    let mut spec = if topo == 1 { CertSpec::plain("server.test", "server.test") } else { CertSpec::plain("good client", "ca.test") };
    (spec.nb, spec.na) = (now - 400 * DAY - r.below(3000) as i64 * DAY, now + 400 * DAY + r.below(3000) as i64 * DAY);
    let control = yes("nd.control", 1, 10);
    let (nb, na) = (pki::der_time(spec.nb, r.below(2) == 0), pki::der_time(spec.na, r.below(2) == 0));
    let mut what = "good".to_string();
    if !control {
        let l = match c("nd.kind", 10) {
            0 => {
                what = "no dates".into();
                vec![]
            }
            1 => {
                what = "only the first date".into();
                vec![nb]
            }
            x if x < 5 => {
                let (s, b) = no_date(&mut r, spec.nb);
                what = format!("notBefore {s}");
                vec![b, na]
            }
            x if x < 9 => {
                let (s, b) = no_date(&mut r, spec.na);
                what = format!("notAfter {s}");
                vec![nb, b]
            }
            _ => {
                let ((s, a), (t, b)) = (no_date(&mut r, spec.nb), no_date(&mut r, spec.na));
                what = format!("notBefore {s}, notAfter {t}");
                vec![a, b]
            }
        };
        spec.raw_validity = Some(pki::seq(&l));
    }
    let (key, by) = if topo == 1 { (m.skey.clone(), m.skey.clone()) } else { (m.ckey.clone(), m.ca.clone()) };
    let cert = pki::cert(&spec, &key, &by, &mut r);
    let e = if topo == 1 {
        let mut q = honest_server(o.mat, None);
        m.scert = cert.clone();
        q.chain = vec![cert];
        q.ignore_bad = !control;
        q.end = if control { PeerEnd::Linger } else { PeerEnd::Close };
        o.peer = Some(q);
        None
    } else {
        o.auth(0);
        let mut q = honest_client(0, None);
        q.chain = vec![cert];
        q.key = Some(key);
        q.ignore_bad = !control;
        q.end = if control { PeerEnd::Linger } else { PeerEnd::Close };
        o.peer = Some(q);
        Some(())
    };
    let mut l = launch(o);
    settle(&mut l);
    if panics(&["C06"]) || w().viol.is_some() {
        return;
    }
    let Some(x) = (if e.is_none() { l.c.as_ref() } else { l.s.as_ref() }) else { return };
    let (x, side) = (out(x.o), if e.is_none() { "client" } else { "server" });
    w().probe(format!("nodates.{side}.{}", what.split(' ').next().unwrap_or("")));
    if control {
        if x.hs != Some(Ok(())) {
            viol(&["C06", "C01"], "refused", format!("the {side} refused a valid certificate: {:?} {:?}", x.hs, x.err));
        }
    } else if x.hs == Some(Ok(())) {
        viol(&["C06"], "unreadable", format!("the {side} accepted a certificate with {what}"));
    }
}
/// one thread, several connections, and the clock set anew before every certificate
pub fn clock_series() {
    let server = yes("cs.server", 1, 2);
    let m = pick_mat();
    put_server_files(m);
    w().k = net_knobs();
    w().k.seg = [0, 3, 4][c("cs.seg", 3) as usize];
    w().k.sndcap = usize::MAX;
    w().max_steps = 2_000_000;
    let n = 2 + c("cs.n", 5) as usize;
    let mut r = rs("cs.rng");
    let p0 = pivot(&mut r);
    let wins = [window(&mut r, p0), window(&mut r, p0)];
    let (key, by) = if server { (&m.ckey, &m.ca) } else { (&m.skey, &m.skey) };
    let certs: Vec<Vec<u8>> = wins
        .iter()
        .map(|x| {
            let mut sp = if server { CertSpec::plain("good client", "ca.test") } else { CertSpec::plain("server.test", "server.test") };
            (sp.nb, sp.na) = *x;
            sp.general = (r.below(5) == 0, r.below(5) == 0);
            pki::cert(&sp, key, by, &mut r)
        })
        .collect();
    w().wall0 = p0.max(0);
    let seen: std::rc::Rc<std::cell::RefCell<Vec<Option<i64>>>> = std::rc::Rc::new(std::cell::RefCell::new(vec![None; n]));
    let (mut list, mut nodes, mut plan) = (vec![], vec![], vec![]);
    let mut lsn = None;
    let mut srv = None;
    if server {
        let opts = SrvOpts {
            cert: "/sim/server.pem".into(),
            key: "/sim/server.key".into(),
            ca: Some("/sim/ca.pem".into()),
            ..Default::default()
        };
        let (l, lfd) = w().listener();
        lsn = Some(l);
        srv = make_server(lfd, &opts);
        if srv.is_none() {
            viol(&["C01", "C16"], "config", "server configuration refused".to_string());
            return;
        }
    }
    for i in 0..n {
        let conn = w().connect(Owner::None, Owner::None);
        let k = r.below(2) as usize;
        let win = wins[k];
        let base = [win.0, win.1, win.0, win.1, p0, wins[1 - k].0][r.below(6) as usize];
        let off = [0, 1, -1, 30, -30, 3600, -3600, 40 * DAY, -40 * DAY, 4000 * DAY, -4000 * DAY][r.below(11) as usize];
        let to = base.saturating_add(off).max(0);
        let mut p = Peer::new(!server, r.next());
        p.conn = conn;
        p.side = !server as usize;
        p.chain = vec![certs[k].clone()];
        p.key = Some(key.clone());
        p.end = PeerEnd::Close;
        p.ignore_bad = true;
        let mut steps: Vec<Step> = if server {
            let share = x25519_base(&p.xk);
            p.ch = offer(&mut r, &share, &SUITES, None, 0);
            p.start_delay = i as u64 * SEC;
            vec![Step::KeyHs]
        } else {
            p.suite = Some(SUITES[r.below(3) as usize]);
            crate::s_evil::named_all(&["sh", "keyhs", "ee"])
        };
        let s2 = seen.clone();
        steps.insert(
            0,
            Step::Fun(Box::new(move |_: &mut Peer, w: &mut World| {
                let d = to - w.wall().0;
                w.jump(d);
                s2.borrow_mut()[i] = Some(w.wall().0);
            })),
        );
        steps.extend(crate::s_evil::named_all(&["cert", "cv", "fin"]));
        steps.extend([Step::KeyAp, Step::Go, Step::Flush, Step::Close]);
        p.flight = Some(Box::new(move |_| steps));
        if let Some(l) = lsn {
            w().dial(l, conn, 1, i as u64 * SEC);
        } else {
            let fd = w().sock_fd(conn, 0);
            let o = new_out(&format!("client{i}"), false);
            let co = CliOpts { sni: None, cert: None, keylog: None, share: i > 0 };
            list.push(Dial { fd, o, opts: co, sc: Script::none(), af: After::default() });
        }
        let side = p.side;
        let id = w().add_node(Box::new(p));
        w().conns[conn].ends[side].owner = Owner::Node(id);
        nodes.push(id);
        plan.push((conn, win));
    }
    let outs: Vec<usize> = if let Some(srv) = &srv {
        let v: Vec<usize> = (0..n).map(|j| new_out(&format!("server.{j}"), true)).collect();
        spawn_server("acceptor", srv, &v, &Script::none(), &After::default());
        v
    } else {
        let v = list.iter().map(|d| d.o).collect();
        spawn_clients("client", list);
        v
    };
    drop(srv);
    for id in nodes {
        w().start_node(id);
    }
    let e = drive();
    if panics(&["C06", "C08"]) || w().viol.is_some() {
        return;
    }
    if e != End_::AllDone {
        viol(&["C06", "C08"], "hang", format!("the series did not end: {e:?} {:?}", stuck_tasks()));
        return;
    }
    for (i, (conn, win)) in plan.iter().enumerate() {
        let Some(o) = outs.iter().map(|o| out(*o)).find(|o| o.conn == Some(*conn)) else { continue };
        let Some(a) = seen.borrow()[i] else { continue };
        let b = o.w1;
        let side = |x: i64| if x < win.0 { -1 } else if x > win.1 { 1 } else { 0 };
        if side(a) != side(b) {
            continue;
        }
        let inside = side(a) == 0 && win.0 <= win.1;
        w().probe(format!("series.{server}.{i}.{inside}.{:?}", o.hs));
        let says = format!("{}, connection {i} of {n}: window {}..{}, clock {a}..{b}", o.name, win.0, win.1);
        match &o.hs {
            Some(Ok(())) if !inside => viol(&["C06"], "accepted", format!("{says}: a certificate outside its validity was accepted")),
            Some(Err(x)) if inside => viol(&["C06"], "refused", format!("{says}: a valid certificate was refused: {x}")),
            Some(Err(x)) if x != "CertificateExpired" => viol(&["C06"], "error", format!("{says}: refused with {x} instead of CertificateExpired")),
            _ => {}
        }
    }
}
fn clock_judge(l: &Live, ws: (i64, i64), wc: (i64, i64), jump: usize, n: usize, skip: usize) {
    if panics(&["C06"]) {
        return;
    }
    let cl = l.c.as_ref().map(|e| (e.tid, out(e.o)));
    let sv = l.s.as_ref().map(|e| (e.tid, out(e.o)));
    let mut client_ok = true;
    for (who, x, win) in [("client", &cl, ws), ("server", &sv, wc)] {
        let Some((tid, o)) = x else { continue };
        let Some(h) = &o.hs else {
            viol(&["C06"], "no_result", format!("{who} did not finish: {}", describe(l)));
            return;
        };
        let neg = o.w0 < 0 || o.w1 < 0 || w().jumps[skip..].iter().any(|j| j.1 < 0 || j.2 < 0);
        let v = verdict(o, *tid, win, skip);
        let says = format!(
            "{who}, connection {n}: window {}..{} clock {}..{} jumps {:?} read {:?}",
            win.0,
            win.1,
            o.w0,
            o.w1,
            w().jumps,
            w().clock_obs.iter().filter(|x| x.0 == *tid).map(|x| x.2).collect::<Vec<_>>()
        );
        w().probe(format!("clock.{who}.{v:?}.jump{jump}.neg{neg}.{:?}.{}", h.is_ok(), ["first", "later"][(n > 0) as usize]));
        if who == "server" && cl.is_some() && !client_ok {
            // the client refused before the server could judge
            if h.is_ok() {
                viol(&["C06"], "aborted", "server succeeded with a client that aborted".to_string());
            }
            continue;
        }
        let exp = Err("CertificateExpired".to_string());
        match v {
            V::In if h.is_err() && !neg => viol(&["C06"], "refused", format!("{says}: a valid certificate was refused: {h:?}")),
            V::Out if h.is_ok() => viol(&["C06"], "accepted", format!("{says}: a certificate outside its validity was accepted")),
            V::Out if *h != exp => viol(&["C06"], "error", format!("{says}: refused with {h:?} instead of CertificateExpired")),
            _ if h.is_err() && *h != exp => viol(&["C06"], "other", format!("{says}: failed with {h:?}")),
            _ => {}
        }
        if who == "client" {
            client_ok = h.is_ok();
        }
    }
    audit_all(l, |_| AuditOpts::default());
}

// ---------------------------------------------------------------- S10 key log file
pub fn keylog() {
    let topo = pk("topo", &[40, 30, 30]) as u64;
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    o.script.extra = None;
    let auth = yes("auth", 1, 3);
    if auth && topo != 1 {
        o.auth(1);
    }
    if auth {
        o.client_cert(&m.ccert, &m.ckey);
    }
    let shared = topo == 0 && yes("kl.shared", 1, 3);
    if shared {
        o.srv.keylog = o.cli.keylog.clone();
    }
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.end = PeerEnd::Linger;
        o.peer = Some(p);
    } else if topo == 2 {
        let mut p = honest_client(0, None);
        p.end = PeerEnd::Linger;
        if auth {
            p.chain = vec![m.ccert.clone()];
            p.key = Some(m.ckey.clone());
        }
        o.peer = Some(p);
    }
    // the faults
    let lv = |l: &'static str| [0u64, 100, 500, 1000][pk(l, &[40, 25, 25, 10])];
    let mut kn = FileKnobs::default();
    let mode = pk("kl.mode", &[25, 30, 15, 30]);
    let mut partial = false;
    let mut lossy = false;
    match mode {
        0 => {
            // harmless faults: the log has to be complete all the same
            kn.open_eintr = lv("kl.oi").min(500);
            kn.wr_eintr = lv("kl.wi").min(500);
            kn.wr_short = lv("kl.ws");
        }
        1 => {
            kn.open_err = lv("kl.oe");
            kn.wr_err = lv("kl.we");
            lossy = true;
        }
        2 => {
            kn.open_err = lv("kl.oe");
            kn.wr_err = lv("kl.we");
            kn.wr_short = lv("kl.ws");
            kn.wr_eintr = lv("kl.wi").min(500);
            partial = true;
            lossy = true;
        }
        _ => {
            partial = true;
            lossy = true;
        }
    }
    w().vfs.knobs.insert("keylog", kn.clone());
    let pre = match c("kl.pre", 4) {
        0 => vec![],
        1 => EARLIER.to_vec(),
        2 => EARLIER.repeat(40),
        3 if yes("kl.big", 1, 3) => EARLIER.repeat(of("kl.n", &[300usize, 1200, 5000, 40_000])),
        _ => b"\n".to_vec(),
    };
    let gone = pre.is_empty() && yes("kl.gone", 1, 2);
    for k in ["/sim/keylog.c", "/sim/keylog.s"] {
        w().put_file(k, pre.clone());
        if mode == 3 {
            let room = c("kl.room", 700) as usize;
            w().vfs.fullat.insert(k.into(), pre.len() + room);
        }
    }
    let paths: Vec<String> = [&o.cli.keylog, &o.srv.keylog].into_iter().flatten().cloned().collect();
    let mut l = launch(o);
    if gone {
        for k in ["/sim/keylog.c", "/sim/keylog.s"] {
            w().vfs.files.remove(k);
        }
    }
    settle(&mut l);
    w().probe(format!("keylog.mode{mode}.topo{topo}.shared{shared}.gone{gone}"));
    must_succeed(&l, &["C12"], &["C12"]);
    for k in paths {
        let f = w().vfs.files.get(&k).cloned().unwrap_or_default();
        if !f.starts_with(&pre) {
            viol(&["C12"], "prefix", format!("{k} no longer starts with what it held before"));
            continue;
        }
        // nothing that was logged is altered later
        let wr: Vec<u8> = w().vfs.writes.get(&k).map(|v| v.iter().flat_map(|x| x.data.clone()).collect()).unwrap_or_default();
        if f[pre.len()..] != wr[..] {
            viol(&["C12"], "altered", format!("{k}: lines logged earlier were altered"));
        }
        if !partial && !(shared && kn.wr_short > 0) {
            let (_, bad) = parse_keylog(&f);
            if let Some(b) = bad.first() {
                viol(&["C12"], "malformed", format!("{k}: line {b:?}"));
            }
        }
    }
    let ks = peer_ks(&l);
    let quiet = lossy || (shared && kn.wr_short > 0);
    if shared && !quiet {
        // both ends log the same connection: every line appears twice
        let f = w().vfs.files.get("/sim/keylog.c").cloned().unwrap_or_default();
        let (m, _) = parse_keylog(&f);
        let cr = l.c.as_ref().and_then(|e| ch_of(&w().conns[e.conn].ends[e.side].tx));
        if let Some(cr) = cr {
            for lb in LABELS {
                let v = m.get(&hex(&cr.random)).and_then(|x| x.get(lb)).cloned().unwrap_or_default();
                if v.len() != 2 || v[0] != v[1] {
                    viol(&["C12"], "shared", format!("{lb}: {v:?} instead of the same secret from both ends"));
                }
            }
        }
    }
    // a log with holes must not be used to judge the traffic
    if !quiet && !shared {
        audit_all(&l, |_| AuditOpts { ks: ks.clone(), ..Default::default() });
    }
}

// ---------------------------------------------------------------- S13 PEM files
/// content of a file and whether a conforming loader has to accept it
fn pem_shape(r: &mut Rng, kind: &str, good: &str, others: &[String]) -> (Vec<u8>, bool) {
    let mut s = good.to_string();
    let mut must = true;
    match r.below(7) {
        0 => {
            // a chain: the own certificate comes first
            if kind == "cert" {
                for o in others {
                    s.push_str(o);
                }
            }
        }
        1 => {
            s = format!("subject=CN = server.test\nissuer=CN = server.test\n{s}");
            must = false;
        }
        2 => {
            s = s.replace('\n', "\r\n");
            must = false;
        }
        3 => {
            s.push_str("\n\n");
            must = false;
        }
        4 if kind == "cert" => {
            // the key of something else behind the certificate
            s.push_str(&pki::pem("EC PRIVATE KEY", &[0x30, 3, 2, 1, 1]));
            must = false;
        }
        _ => {}
    }
    (s.into_bytes(), must)
}
/// a well-formed private key that no P-256 certificate can belong to
fn foreign_key(k: &pki::Key) -> (&'static str, String) {
    use pki::tlv;
    let oid: &[(&'static str, &[u8], usize)] = &[
        ("secp256k1", &[0x2b, 0x81, 0x04, 0x00, 0x0a], 32),
        ("brainpoolP256r1", &[0x2b, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x07], 32),
        ("secp384r1", &[0x2b, 0x81, 0x04, 0x00, 0x22], 48),
        ("secp521r1", &[0x2b, 0x81, 0x04, 0x00, 0x23], 66),
        ("secp224r1", &[0x2b, 0x81, 0x04, 0x00, 0x21], 28),
        ("no length", &pki::OID_P256, 0),
        ("31 bytes", &pki::OID_P256, 31),
        ("33 bytes", &pki::OID_P256, 33),
        ("64 bytes", &pki::OID_P256, 64),
        ("48 bytes", &[], 48),
    ];
    let (name, o, n) = oid[c("pem.curve", oid.len() as u64) as usize];
    let mut d = crate::crypto::u_to(&k.d).to_vec();
    if n > 32 && yes("pem.front", 1, 2) {
        d = [vec![1; n - 32], d].concat();
    } else {
        d.resize(n, 5);
    }
    let mut v = vec![tlv(2, &[1]), tlv(4, &d)];
    if !o.is_empty() {
        v.push(tlv(0xa0, &tlv(6, o)));
    }
    if yes("pem.pub", 1, 2) {
        v.push(tlv(0xa1, &tlv(3, &[vec![0], k.point()].concat())));
    }
    (name, pki::pem("EC PRIVATE KEY", &pki::seq(&v)))
}
pub fn pem() {
    let topo = 1 + pk("topo", &[50, 50]) as u64;
    let mut o = One::new(topo);
    o.may_refuse = true;
    let m = o.mat;
    let mut r = rs("pem.rng");
    let mut must = true;
    let auth = topo == 2 && yes("auth", 2, 3);
    // which files exist
    let other = vec![pki::pem("CERTIFICATE", &m.inter), pki::pem("CERTIFICATE", &m.cacert)];
    let params = yes("pem.params", 1, 2);
    let mut files: Vec<(&str, &str, String)> = if topo == 1 {
        o.client_cert(&m.ccert, &m.ckey);
        vec![
            ("/sim/client.pem", "cert", pki::pem("CERTIFICATE", &m.ccert)),
            ("/sim/client.key", "key", pki::key_pem(&m.ckey, params)),
        ]
    } else {
        if auth {
            o.auth([0, 1, 2][c("verify", 3) as usize]);
        }
        let mut v = vec![
            ("/sim/server.pem", "cert", pki::pem("CERTIFICATE", &m.scert)),
            ("/sim/server.key", "key", pki::key_pem(&m.skey, params)),
        ];
        if auth {
            v.push(("/sim/ca.pem", "cert", pki::pem("CERTIFICATE", &m.cacert)));
        }
        v
    };
    // certificate and key in one file
    let mode = pk("pem.mode", &[20, 36, 32, 12, 8]);
    if mode != 4 && yes("pem.one", 1, 6) {
        let both = format!("{}{}", files[0].2, files[1].2);
        files[0].2 = both.clone();
        files[1].2 = both;
    }
    let hit = c("pem.hit", files.len() as u64) as usize;
    let mut note = String::new();
    if mode == 4 {
        // a key that is not one of this curve
        let i = files.iter().position(|f| f.1 == "key").unwrap();
        let (kind, b) = foreign_key(if topo == 1 { &m.ckey } else { &m.skey });
        files[i].2 = b;
        note = format!("{} holds a key of {kind}", files[i].0);
        w().probe(format!("pem.foreign.{kind}"));
        must = false;
    }
    let mut put: Vec<(&str, Vec<u8>)> = vec![];
    for (i, (p, k, good)) in files.iter().enumerate() {
        let (mut b, mu) = if yes("pem.shape", 1, 2) { pem_shape(&mut r, k, good, &other) } else { (good.clone().into_bytes(), true) };
        must &= mu;
        if mode == 1 && i == hit {
            let n = match c("pem.cut", 4) {
                0 => c("pem.at", b.len() as u64 + 1) as usize,
                1 => b.len() - (c("pem.tail", 80) as usize).min(b.len()),
                2 => {
                    // at the end of a line
                    let nl: Vec<usize> = b.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
                    let at = nl[c("pem.line", nl.len() as u64) as usize];
                    at + c("pem.nl", 2) as usize
                }
                _ => (c("pem.head", 120) as usize).min(b.len()),
            };
            note = format!("{p} cut at {n} of {}", b.len());
            b.truncate(n);
            if n < b.len() || good.len() != n {
                must = false;
            }
        }
        if mode == 3 && i == hit && !b.is_empty() {
            // a torn write: part of the encoded data never reached the disk
            let enc = |x: u8| x.is_ascii_alphanumeric() || b"+/=".contains(&x);
            let mut lines: Vec<(usize, usize)> = vec![];
            let (mut at, mut inside) = (0, false);
            for l in b.split(|x| *x == b'\n') {
                if l.starts_with(b"-----") {
                    inside = l.starts_with(b"-----BEGIN");
                } else if inside && l.len() > 20 && l.iter().all(|x| enc(*x)) {
                    lines.push((at, l.len()));
                }
                at += l.len() + 1;
            }
            if lines.is_empty() {
                lines.push((0, b.len()));
            }
            let (at, len) = lines[c("pem.holeline", lines.len() as u64) as usize];
            let k = c("pem.hole", len as u64) as usize;
            let n = of("pem.holen", &[1usize, 2, 4, 16, 64]).min(len - k);
            let at = at + k;
            let x = of("pem.holex", &[0u8, 0, 0xff, b'!', 0x80]);
            b[at..at + n].fill(x);
            note = format!("{p} holds {n} times {x:02x} at {at} of {}", b.len());
            w().count("file.torn");
            must = false;
        }
        put.push((p, b));
    }
    if mode == 2 {
        let lv = |l: &'static str| [0u64, 150, 500][pk(l, &[50, 25, 25])];
        let kn = FileKnobs {
            open_err: lv("pem.oe").min(150),
            open_eintr: lv("pem.oi"),
            rd_err: lv("pem.re").min(150),
            rd_eintr: lv("pem.ri"),
            rd_short: [0, 300, 900][pk("pem.rs", &[30, 35, 35])],
            rd_eof: lv("pem.rf").min(150),
            ..Default::default()
        };
        w().vfs.knobs.insert("pem", kn);
    }
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.creq = Some((vec![], exts(&[ext(13, &[0, 2, 4, 3])])[2..].to_vec()));
        p.expect_cert = Some(m.ccert.clone());
        p.expect_point = Some(m.ckey.q);
        p.need_client_cert = true;
        p.end = PeerEnd::Linger;
        o.peer = Some(p);
    } else {
        let mut p = honest_client(0, None);
        p.expect_cert = Some(m.scert.clone());
        p.expect_point = Some(m.skey.q);
        if auth {
            p.chain = vec![m.ccert.clone()];
            p.key = Some(m.ckey.clone());
        }
        p.end = PeerEnd::Linger;
        o.peer = Some(p);
    }
    PEM_FILES.with(|f| *f.borrow_mut() = put.iter().map(|(p, b)| (p.to_string(), b.clone())).collect());
    for (_, b) in &put {
        w().schedhash = crate::tape::mix(w().schedhash ^ b.iter().fold(7, |a: u64, x| a.wrapping_mul(0x100_0000_01b3) ^ *x as u64));
    }
    let mut l = launch(o);
    settle(&mut l);
    for (p, n) in &w().vfs.injected {
        w().schedhash = crate::tape::mix(w().schedhash ^ crate::tape::hash_str(p) ^ *n);
    }
    // refused?
    let faults: u64 = w().vfs.injected.values().sum();
    must &= faults == 0 && mode != 1 && mode != 3;
    let (ok, conn) = match (&l.c, &l.s) {
        (Some(e), _) => {
            let x = out(e.o);
            (x.cfg_ok, Some((e.conn, e.side)))
        }
        (_, Some(e)) => (true, Some((e.conn, e.side))),
        _ => (false, None),
    };
    let pan: Vec<String> = w().tasks.iter().filter_map(|t| t.panic.clone()).collect();
    w().probe(format!("pem.topo{topo}.mode{mode}.{}.loaded{ok}.faults{}", files[hit].1, (faults > 0) as u8));
    if !ok {
        if let Some((cn, sd)) = conn {
            if !w().conns[cn].ends[sd].tx.is_empty() {
                viol(&["C16"], "sent", "bytes were sent although the configuration was refused".to_string());
            }
        }
        if must {
            viol(&["C16", "C01"], "refused", format!("intact files were refused: {pan:?}"));
        }
        return;
    }
    if mode == 4 {
        viol(&["C16"], "foreign", format!("the configuration was accepted although {note}"));
        return;
    }
    must_succeed(&l, &["C16"], &["C16"]);
    if let Some(v) = w().viol.as_mut() {
        v.msg = format!("{} [{note} faults={faults}]", v.msg);
    }
    audit_all(&l, |_| AuditOpts::default());
}
thread_local! {
    pub static PEM_FILES: std::cell::RefCell<Vec<(String, Vec<u8>)>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn override_files() {
    PEM_FILES.with(|f| {
        for (p, b) in f.borrow_mut().drain(..) {
            w().put_file(&p, b);
        }
    });
}
#[allow(dead_code)]
fn unused(_: &Secrets, _: Suite) {}
