//! S2: an attacker on the path of an established connection.
use crate::env::*;
use crate::observer::*;
use crate::reftls::*;
use crate::scen::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;
use std::sync::{Arc, Mutex};

/// what the attacker knows and did; shared between the policy and the oracle
#[derive(Default)]
pub struct St {
    /// application bytes of the untouched records before the damage, per direction
    pub good: [usize; 2],
    pub napp: [usize; 2],
    pub hit: [bool; 2],
    pub what: String,
    /// old records per direction
    pub seen: [Vec<Vec<u8>>; 2],
    pub hs_seen: [Vec<Vec<u8>>; 2],
    dirs: [Option<Dir>; 2],
    keep: Option<Vec<u8>>,
}
/// secrets from whoever knows them
pub fn known_secrets(peer: Option<NodeId>) -> Option<Ks> {
    if let Some(p) = peer {
        return w().node::<Peer>(p).ks.clone();
    }
    None
}
fn app_secret(d: usize, st: &St) -> Option<Dir> {
    // the attacker does not need the keys, the harness uses them to tell records apart
    let ch = st.hs_seen[0].first()?;
    let sh = st.hs_seen[1].first()?;
    let ch = ch_of(ch)?;
    let sh = sh_of(sh)?;
    let suite = crate::crypto::Suite::from(sh.suite)?;
    for f in ["/sim/keylog.c", "/sim/keylog.s"] {
        let (m, _) = parse_keylog(w().vfs.files.get(f).map(|x| &x[..]).unwrap_or(&[]));
        let s = keylog_secrets(&m, &ch.random, Some(suite));
        let s = if d == 0 { s.c_ap } else { s.s_ap };
        if let Some(s) = s {
            return Some(Dir::new(suite, &s));
        }
    }
    None
}
/// Some(inner type, content length) if this is the next application-phase record
fn classify(st: &mut St, d: usize, r: &[u8]) -> Option<(u8, usize)> {
    if r[0] != 23 {
        return None;
    }
    if st.dirs[d].is_none() {
        let k = app_secret(d, st)?;
        let mut t = k.clone();
        if let Ok((ct, m, _)) = t.open(r) {
            st.dirs[d] = Some(t);
            return Some((ct, m.len()));
        }
        return None;
    }
    let t = st.dirs[d].as_mut().unwrap();
    t.open(r).ok().map(|(ct, m, _)| (ct, m.len()))
}

pub fn tamper() {
    let topo = pk("topo", &[50, 25, 25]) as u64;
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    let d = if topo == 0 { c("t.dir", 2) as usize } else if topo == 1 { 1 } else { 0 };
    // the receiver of the attacked direction reads once more at the end
    let rcv = 1 - d; // 0 client, 1 server
    o.script.extra = Some(rcv);
    if o.script.rounds.is_empty() || yes("t.more", 1, 2) {
        let mut len = [0usize; 2];
        len[d] = 1 + c("t.len", 3000) as usize;
        o.script.rounds.push(Round { len });
    }
    if yes("auth", 1, 4) && topo == 0 {
        o.auth(1);
        o.client_cert(&m.ccert, &m.ckey);
    }
    o.ac.post = 1 + c("post", 4) as usize;
    o.asv.post = o.ac.post;
    if topo == 1 {
        let mut p = honest_server(m, None);
        p.creq = None;
        p.end = PeerEnd::Linger;
        p.ignore_bad = true;
        o.peer = Some(p);
    } else if topo == 2 {
        let mut p = honest_client(0, None);
        p.end = PeerEnd::Linger;
        p.ignore_bad = true;
        o.peer = Some(p);
    }
    let st = Arc::new(Mutex::new(St::default()));
    let at = c("t.at", 12) as usize;
    let kind = c("t.kind", 28);
    let again = yes("t.again", 1, 3);
    let mut r = rs("t.rng");
    let s2 = st.clone();
    o.mitm = Some(Box::new(move |wd, ev| {
        let mut st = s2.lock().unwrap();
        match ev {
            MEv::Rec(dd, _, _, rc) => {
                let app = classify(&mut st, dd, rc);
                if app.is_none() || st.hit[dd] {
                    if dd == d && st.hit[dd] {
                        if let Some(k) = st.keep.take() {
                            return vec![MAct::Fwd(dd, rc.to_vec()), MAct::Fwd(dd, k)];
                        }
                    }
                    if app.is_none() && !st.hit[dd] {
                        st.hs_seen[dd].push(rc.to_vec());
                    }
                    if st.hit[dd] && again && dd == d && r.below(3) == 0 {
                        // keep damaging what follows
                        return mutate(&mut st, dd, rc, &mut r, 99).0;
                    }
                    return vec![MAct::Fwd(dd, rc.to_vec())];
                }
                let (ct, n) = app.unwrap();
                let idx = st.napp[dd];
                st.napp[dd] += 1;
                if dd != d || idx < at.min(if again { 2 } else { 12 }) {
                    st.seen[dd].push(rc.to_vec());
                    if ct == 23 {
                        st.good[dd] += n;
                    }
                    return vec![MAct::Fwd(dd, rc.to_vec())];
                }
                st.hit[dd] = true;
                let (acts, survives) = mutate(&mut st, dd, rc, &mut r, kind);
                if survives && ct == 23 {
                    st.good[dd] += n;
                }
                wd.count(KINDS[kind as usize].0);
                acts
            }
            MEv::Eof(dd, rst) => {
                forward(MEv::Eof(dd, rst))
            }
            MEv::Timer(_) => vec![],
        }
    }));
    let mut l = launch(o);
    settle(&mut l);
    let st = st.lock().unwrap();
    w().probe(format!("tamper.{}.{}", KINDS[kind as usize].0, st.hit[d]));
    for e in [&l.c, &l.s].into_iter().flatten() {
        let o = out(e.o);
        let dir = if e.server { 0 } else { 1 };
        let want = l.script.content(dir, 0, l.script.total(dir));
        if o.rx.len() > want.len() || o.rx[..] != want[..o.rx.len()] {
            let p = o.rx.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(want.len());
            viol(
                &["C03", "C02"],
                "prefix",
                format!("{} delivered bytes that are no prefix of what was written (from offset {p}; attack {}): {}", o.name, st.what, describe(&l)),
            );
        }
        if !st.hit[dir] || o.hs != Some(Ok(())) {
            continue;
        }
        if o.rx.len() > st.good[dir] {
            viol(
                &["C03"],
                "beyond",
                format!("{} delivered {} bytes although only {} precede the damage ({}): {}", o.name, o.rx.len(), st.good[dir], st.what, describe(&l)),
            );
        }
        if let Some(Ok(n)) = o.extra {
            viol(&["C03"], "accepted", format!("{} read {n} bytes behind the damage ({})", o.name, st.what));
        }
        let ended = o.err.is_some() || matches!(o.extra, Some(Err(_)));
        let panicked = w().tasks[e.tid].panic.is_some();
        if !ended && !panicked {
            viol(&["C03"], "unnoticed", format!("{} never reported the damage ({}): {}", o.name, st.what, describe(&l)));
        }
        // nobody who knows the keys sends an alert here, so none may be reported
        let said = [o.err.as_ref().map(|x| &x.1), o.extra.as_ref().and_then(|x| x.as_ref().err())];
        for e in said.into_iter().flatten().chain(o.post.iter().filter_map(|x| x.as_ref().err())) {
            if e == "CloseNotify" || e.starts_with("GotAlert") {
                viol(&["C03"], "forged_end", format!("{} reports {e}, which its peer did not send ({}): {}", o.name, st.what, describe(&l)));
            }
        }
        if o.post.iter().any(|x| x.is_ok()) {
            viol(&["C03"], "resumed", format!("{} continues after a failed read ({}): {:?}", o.name, st.what, o.post));
        }
    }
    panics(&["C03"]);
    let ks = peer_ks(&l);
    let nd = if is_pid("C11") { needles(&l) } else { vec![] };
    audit_all(&l, |_| AuditOpts { ks: ks.clone(), needles: nd.clone(), ..Default::default() });
}
/// name, whether the record itself stays intact
const KINDS: [(&str, bool); 28] = [
    ("tamper.flip_any", false),
    ("tamper.flip_tag", false),
    ("tamper.flip_first", false),
    ("tamper.type", false),
    ("tamper.cut_fixed_len", false),
    ("tamper.cut_raw", false),
    ("tamper.drop", false),
    ("tamper.dup", true),
    ("tamper.replay_old", false),
    ("tamper.swap", false),
    ("tamper.inject_garbage", false),
    ("tamper.inject_clear_data", false),
    ("tamper.inject_clear_handshake", false),
    ("tamper.inject_clear_alert", false),
    ("tamper.inject_ccs", false),
    ("tamper.inject_empty", false),
    ("tamper.reflect", false),
    ("tamper.replay_handshake", false),
    ("tamper.close_before", false),
    ("tamper.close_inside", false),
    ("tamper.reset", false),
    ("tamper.extend", false),
    ("tamper.split", false),
    ("tamper.len_field", false),
    ("tamper.zero_body", false),
    ("tamper.drop_two", false),
    ("tamper.version", false),
    ("tamper.blocks", false),
];
fn relen(mut r: Vec<u8>) -> Vec<u8> {
    let n = r.len() - 5;
    r[3] = (n >> 8) as u8;
    r[4] = n as u8;
    r
}
fn mutate(st: &mut St, d: usize, rc: &[u8], r: &mut Rng, kind: u64) -> (Vec<MAct>, bool) {
    let kind = if kind == 99 { r.below(28) } else { kind };
    let n = rc.len();
    let mut v = rc.to_vec();
    if n < 22 {
        return (vec![MAct::Fwd(d, v)], true);
    }
    if st.what.is_empty() {
        st.what = format!("{} at record {}", KINDS[kind as usize].0, st.napp[d].wrapping_sub(1));
    }
    let f = |b: Vec<u8>| MAct::Fwd(d, b);
    let acts = match kind {
        0 => {
            let p = if r.below(4) == 0 { 1 + r.below(2) as usize } else { 5 + r.below(n as u64 - 5) as usize };
            v[p] ^= 1 << r.below(8);
            vec![f(v)]
        }
        1 => {
            // one bit, or changes that a comparison of sums or of parts would miss
            let t = n - 16;
            let op = r.below(8);
            let (a, b) = (t + r.below(16) as usize, t + r.below(16) as usize);
            match op {
                0 if a != b => {
                    let x = 1 << r.below(8);
                    v[a] ^= x;
                    v[b] ^= x;
                }
                1 if a != b => {
                    v[a] = v[a].wrapping_add(1);
                    v[b] = v[b].wrapping_sub(1);
                }
                2 => v.swap(a, b),
                3 => v[t..].reverse(),
                4 => v[t..].rotate_left(1 + (a - t) % 15),
                5 => {
                    // only a part of it is right
                    let l = [1usize, 2, 4, 8, 12, 15][r.below(6) as usize];
                    let x = r.bytes(16);
                    if r.below(2) == 0 {
                        v[t + l..].copy_from_slice(&x[l..]);
                    } else {
                        v[t..n - l].copy_from_slice(&x[l..]);
                    }
                }
                6 => v[t..].iter_mut().for_each(|x| *x = !*x),
                _ => v[a] ^= 1 << r.below(8),
            }
            if v[..] == rc[..] {
                v[a] ^= 1 << r.below(8);
            }
            vec![f(v)]
        }
        27 => {
            // whole blocks moved, doubled, exchanged or changed alike
            let m = n - 21;
            let bl = [16usize, 16, 64, 1, 4][r.below(5) as usize];
            let k = m / bl;
            if k >= 2 {
                let (a, b) = (r.below(k as u64) as usize, r.below(k as u64) as usize);
                let (a, b) = (5 + a * bl, 5 + b * bl);
                match r.below(3) {
                    0 => (0..bl).for_each(|i| v.swap(a + i, b + i)),
                    1 => v.copy_within(a..a + bl, b),
                    _ => {
                        let x = 1 + r.below(255) as u8;
                        let i = r.below(bl as u64) as usize;
                        v[a + i] ^= x;
                        v[b + i] ^= x;
                    }
                }
            }
            if v[..] == rc[..] {
                let p = 5 + r.below(m.max(1) as u64) as usize;
                v[p] ^= 0x80;
            }
            vec![f(v)]
        }
        2 => {
            v[5] ^= 1 + r.below(255) as u8;
            vec![f(v)]
        }
        3 => {
            v[0] = [20, 21, 22, 24, 0, 255][r.below(6) as usize];
            vec![f(v)]
        }
        4 => {
            let cut = 1 + r.below(n as u64 - 5) as usize;
            v.truncate(n - cut);
            vec![f(relen(v))]
        }
        5 => {
            let cut = 1 + r.below(n as u64 - 1) as usize;
            v.truncate(n - cut);
            vec![f(v)]
        }
        6 | 25 => vec![],
        7 => vec![f(v.clone()), f(v)],
        8 => {
            let old = if st.seen[d].is_empty() { rc.to_vec() } else { st.seen[d][r.below(st.seen[d].len() as u64) as usize].clone() };
            if st.seen[d].is_empty() {
                // nothing older: twice the same and then the record
                return (vec![f(old.clone()), f(old.clone()), f(old)], true);
            }
            vec![f(old), f(v)]
        }
        9 => {
            st.keep = Some(v);
            vec![]
        }
        10 => {
            let k = [0, 1, 15, 16, 17, 40, 300][r.below(7) as usize];
            vec![f(rec(23, &r.bytes(k))), f(v)]
        }
        11 => vec![f(rec(23, b"attack at dawn")), f(v)],
        12 => {
            let h = [hs(EE, &[0, 0]), hs(4, &r.bytes(30)), hs(24, &[1]), hs(FIN, &r.bytes(32))][r.below(4) as usize].clone();
            vec![f(rec(22, &h)), f(v)]
        }
        13 => {
            let a = [[1u8, 0], [2, 20], [2, 80], [1, 90], [2, 0], [1, 255]][r.below(6) as usize];
            vec![f(rec(21, &a)), f(v)]
        }
        14 => vec![f(rec(20, &[1])), f(v)],
        15 => {
            let t = [22, 23, 21, 20][r.below(4) as usize];
            vec![f(rec(t, &[])), f(v)]
        }
        16 => {
            let o = st.seen[1 - d].last().cloned().or(st.hs_seen[1 - d].last().cloned()).unwrap_or(rec(23, &r.bytes(40)));
            vec![f(o), f(v)]
        }
        17 => {
            let o = st.hs_seen[d].iter().rev().find(|x| x[0] == 23).cloned().unwrap_or(rec(23, &r.bytes(40)));
            vec![f(o), f(v)]
        }
        18 => vec![MAct::Close(d)],
        19 => {
            let cut = 1 + r.below(n as u64 - 1) as usize;
            v.truncate(n - cut);
            vec![f(v), MAct::Close(d)]
        }
        20 => vec![MAct::Reset(d)],
        21 => {
            let k = 1 + r.below(20) as usize;
            v.extend(r.bytes(k));
            vec![f(relen(v))]
        }
        22 => {
            let k = 1 + r.below((n - 6) as u64) as usize;
            let (a, b) = v[5..].split_at(k);
            vec![f(rec(23, a)), f(rec(23, b))]
        }
        23 => {
            let old = (v[3], v[4]);
            while (v[3], v[4]) == old {
                match r.below(4) {
                    0 => {
                        v[3] = 0;
                        v[4] = 0
                    }
                    1 => {
                        v[3] = 0xff;
                        v[4] = 0xff
                    }
                    2 => v[4] = r.below(256) as u8,
                    _ => v[3] ^= 1 << r.below(8),
                }
            }
            vec![f(v)]
        }
        26 => {
            // the version in the header, which is authenticated with the record
            let x = [[3u8, 1], [3, 4], [3, 2], [3, 0], [2, 3], [0, 0]][r.below(6) as usize];
            v[1] = x[0];
            v[2] = x[1];
            vec![f(v)]
        }
        _ => {
            for b in v[5..].iter_mut() {
                *b = 0;
            }
            vec![f(v)]
        }
    };
    (acts, KINDS[kind as usize].1)
}
