//! S6: an attacker on the path during the handshake.
use crate::crypto::*;
use crate::env::*;
use crate::observer::*;
use crate::pki::{self, CertSpec};
use crate::reftls::*;
use crate::s_evil::named_all;
use crate::scen::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct St {
    what: Vec<String>,
    /// (original session id, the one the server saw)
    sid: Option<(Vec<u8>, Vec<u8>)>,
    held: Option<(usize, Vec<u8>)>,
    /// records of an older connection
    old: [Vec<Vec<u8>>; 2],
    seen: [Vec<Vec<u8>>; 2],
    xk: [u8; 32],
}
fn low_order(r: &mut Rng) -> Vec<u8> {
    let l = [
        vec![0u8; 32],
        [vec![1], vec![0; 31]].concat(),
        unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        unhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        unhex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        unhex("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
    ];
    l[r.below(7) as usize].clone()
}
fn edit_ch(ch: &mut Ch, r: &mut Rng, st: &mut St) -> &'static str {
    let at = |ch: &Ch, t: u16| ch.exts.iter().position(|x| x.0 == t);
    match r.below(27) {
        24 => {
            // an extension twice, one of them with other content
            let i = r.below(ch.exts.len() as u64) as usize;
            let mut x = ch.exts[i].clone();
            if r.below(2) == 0 && !x.1.is_empty() {
                let p = r.below(x.1.len() as u64) as usize;
                x.1[p] ^= 1 << r.below(8);
            }
            let at = r.below(ch.exts.len() as u64 + 1) as usize;
            ch.exts.insert(at, x);
            "extension twice"
        }
        25 => {
            let i = r.below(ch.exts.len() as u64) as usize;
            let n = 1 + r.below(6) as usize;
            let b = r.bytes(n);
            ch.exts[i].1.extend(b);
            "bytes behind an extension"
        }
        26 => {
            if let Some(i) = at(ch, 43) {
                let v: [&[u8]; 5] = [&[3, 3, 3, 4], &[3, 4], &[3, 4, 3, 4], &[0x7a, 0x7a, 3, 4], &[3, 5, 3, 4]];
                ch.exts[i].1 = v8(v[r.below(5) as usize]);
            }
            "other versions"
        }
        0 => {
            ch.suites.reverse();
            "suites reversed"
        }
        1 => {
            let i = r.below(ch.suites.len() as u64) as usize;
            ch.suites.remove(i);
            "suite removed"
        }
        2 => {
            let i = r.below(ch.suites.len() as u64) as usize;
            ch.suites = vec![ch.suites[i]];
            "one suite left"
        }
        3 => {
            ch.suites.insert(r.below(ch.suites.len() as u64 + 1) as usize, [0xc02b, 0x00ff, 0x0a0a, 0x5600, 0x1301][r.below(5) as usize]);
            "suite added"
        }
        4 => {
            let p = r.below(32) as usize;
            ch.random[p] ^= 1 << r.below(8);
            "random"
        }
        5 | 6 => {
            let n = r.below(33) as usize;
            let new = r.bytes(n);
            st.sid = Some((ch.sid.clone(), new.clone()));
            ch.sid = new;
            "session id, restored on the way back"
        }
        7 => {
            let n = r.below(33) as usize;
            ch.sid = r.bytes(n);
            "session id"
        }
        8 => {
            if let Some(i) = at(ch, 0) {
                ch.exts.remove(i);
                "server name removed"
            } else {
                ch.exts.push((0, v16(&[vec![0], v16(b"server.test")].concat())));
                "server name added"
            }
        }
        9 => {
            if let (Some(i), true) = (at(ch, 0), r.below(3) > 0) {
                // one letter of it
                let b = &mut ch.exts[i].1;
                let n = b.len();
                if n > 5 {
                    let p = if r.below(2) == 0 { n - 1 } else { 5 + r.below(n as u64 - 5) as usize };
                    b[p] ^= [1u8, 2, 32][r.below(3) as usize];
                }
                return "letter of the server name";
            }
            ch.exts.retain(|x| x.0 != 0);
            ch.exts.push((0, v16(&[vec![0], v16(b"other.test")].concat())));
            "server name changed"
        }
        10 | 11 => {
            // the attacker's own share
            let s = x25519_base(&st.xk);
            if let Some(i) = at(ch, 51) {
                ch.exts[i].1 = v16(&[vec![0, 29], v16(&s)].concat());
            }
            "own key share"
        }
        12 => {
            let s = low_order(r);
            if let Some(i) = at(ch, 51) {
                ch.exts[i].1 = v16(&[vec![0, 29], v16(&s)].concat());
            }
            "low order share"
        }
        13 => {
            if let Some(i) = at(ch, 51) {
                let p = ch.exts[i].1.len() - 1;
                ch.exts[i].1[p] ^= 0x80; // the bit X25519 ignores
            }
            "share with the ignored bit changed"
        }
        14 => {
            if let Some(i) = at(ch, 43) {
                ch.exts[i].1 = v8(&[3, 4, 3, 3]);
            }
            "version added"
        }
        15 => {
            if let Some(i) = at(ch, 13) {
                ch.exts[i].1 = v16(&[8, 4, 4, 3]);
            }
            "signature scheme added"
        }
        16 => {
            let n = r.below(200) as usize;
            ch.exts.push((21, vec![0; n]));
            "padding extension"
        }
        17 => {
            let b = r.bytes(5);
            ch.exts.insert(0, (0x7a7a, b));
            "unknown extension"
        }
        18 => {
            let n = ch.exts.len();
            if n > 1 {
                let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                ch.exts.swap(a, b);
            }
            "extensions in another order"
        }
        19 => {
            let n = ch.exts.len();
            ch.exts.remove(r.below(n as u64) as usize);
            "extension removed"
        }
        20 => {
            ch.ver = [0x0301, 0x0302, 0x0304, 0x0303][r.below(4) as usize];
            "legacy version"
        }
        21 => {
            ch.comp = [vec![], vec![1, 0], vec![0, 1], vec![1]][r.below(4) as usize].clone();
            "compression"
        }
        22 => {
            if let Some(i) = at(ch, 10) {
                ch.exts[i].1 = v16(&[0, 29, 0, 23]);
            }
            "group added"
        }
        _ => {
            if let Some(i) = at(ch, 51) {
                // a second share of another group
                let s = ch.exts[i].1[2..].to_vec();
                ch.exts[i].1 = v16(&[s, vec![0, 23], v16(&r.bytes(65))].concat());
            }
            "second share"
        }
    }
}
fn edit_sh(sh: &mut Sh, r: &mut Rng, st: &mut St) -> &'static str {
    match r.below(17) {
        13 => {
            let i = r.below(sh.exts.len().max(1) as u64) as usize;
            if let Some(mut x) = sh.exts.get(i).cloned() {
                if r.below(2) == 0 && !x.1.is_empty() {
                    let p = r.below(x.1.len() as u64) as usize;
                    x.1[p] ^= 1 << r.below(8);
                }
                let at = r.below(sh.exts.len() as u64 + 1) as usize;
                sh.exts.insert(at, x);
            }
            "extension twice"
        }
        14 => {
            let i = r.below(sh.exts.len().max(1) as u64) as usize;
            let n = 1 + r.below(6) as usize;
            let b = r.bytes(n);
            if let Some(x) = sh.exts.get_mut(i) {
                x.1.extend(b);
            }
            "bytes behind an extension"
        }
        15 => {
            sh.random.copy_from_slice(&sha256(b"HelloRetryRequest"));
            "hello retry request"
        }
        0 => {
            let p = r.below(32) as usize;
            sh.random[p] ^= 1 << r.below(8);
            "random"
        }
        1 | 2 => {
            sh.suite = match sh.suite {
                0x1301 => 0x1303,
                0x1303 => 0x1301,
                x => x ^ 1,
            };
            "suite of the same hash"
        }
        3 => {
            sh.suite = [0x1301, 0x1302, 0x1303, 0x1304, 0xc02b][r.below(5) as usize];
            "suite"
        }
        4 => {
            let n = r.below(33) as usize;
            sh.sid = r.bytes(n);
            "session id"
        }
        5 => {
            for e in sh.exts.iter_mut().filter(|e| e.0 == 51) {
                e.1 = [vec![0, 29], v16(&x25519_base(&st.xk))].concat();
            }
            "own key share"
        }
        6 => {
            let l = low_order(r);
            for e in sh.exts.iter_mut().filter(|e| e.0 == 51) {
                e.1 = [vec![0, 29], v16(&l)].concat();
            }
            "low order share"
        }
        7 => {
            for e in sh.exts.iter_mut().filter(|e| e.0 == 51) {
                let p = e.1.len() - 1;
                e.1[p] ^= 0x80;
            }
            "share with the ignored bit changed"
        }
        8 => {
            sh.exts.reverse();
            "extensions in another order"
        }
        9 => {
            let b = r.bytes(4);
            sh.exts.push((0x7a7a, b));
            "unknown extension"
        }
        10 => {
            sh.exts.retain(|x| x.0 != 43);
            "supported_versions removed"
        }
        11 => {
            sh.random[24..].copy_from_slice(b"DOWNGRD\x01");
            "downgrade sentinel"
        }
        12 => {
            sh.ver = [0x0302, 0x0304, 0x0301][r.below(3) as usize];
            "legacy version"
        }
        _ => {
            sh.comp = 1;
            "compression"
        }
    }
}
/// sometimes more behind the message: within its length, or a message of its own in the same record
fn tail(b: Vec<u8>, r: &mut Rng, st: &mut St) -> Vec<u8> {
    let n = 1 + r.below(20) as usize;
    match r.below(16) {
        0 => {
            st.what.push(format!("{n} bytes behind the message"));
            hs(b[0], &[&b[4..], &r.bytes(n)].concat())
        }
        1 => {
            let t = STRAY[r.below(9) as usize];
            st.what.push(format!("message {t} in the same record"));
            let l = if r.below(2) == 0 { 0 } else { n };
            [b, hs(t, &r.bytes(l))].concat()
        }
        2 => {
            st.what.push(format!("{n} bytes behind the message, not counted"));
            [b, r.bytes(n)].concat()
        }
        _ => b,
    }
}
const STRAY: [u8; 9] = [0, 1, 3, 4, 6, 21, 24, 254, 255];
/// what to do with record `i` of direction `d`
fn attack(st: &mut St, d: usize, b: &[u8], r: &mut Rng) -> Vec<MAct> {
    let f = |v: Vec<u8>| MAct::Fwd(d, v);
    let mut v = b.to_vec();
    let n = v.len();
    if v[0] == 22 && n > 9 && r.below(10) < 7 {
        if d == 0 {
            if let Ok(mut ch) = Ch::parse(&v[9..]) {
                let mut w_ = vec![];
                for _ in 0..1 + r.below(5) / 3 {
                    w_.push(edit_ch(&mut ch, r, st));
                    if ch.suites.is_empty() || ch.exts.is_empty() {
                        break;
                    }
                }
                st.what.push(format!("CH: {}", w_.join(", ")));
                let b = tail(ch.build(), r, st);
                return vec![f(rec(22, &b))];
            }
        } else if let Ok(mut sh) = Sh::parse(&v[9..]) {
            let w_ = edit_sh(&mut sh, r, st);
            st.what.push(format!("SH: {w_}"));
            let b = tail(sh.build(), r, st);
            return vec![f(rec(22, &b))];
        }
    }
    let k = r.below(24);
    st.what.push(format!("record type {} dir {d} op {k}", v[0]));
    match k {
        0 => {
            let p = 5 + r.below(n as u64 - 5) as usize;
            v[p] ^= 1 << r.below(8);
        }
        1 => {
            v[0] = [20, 21, 22, 23, 24][r.below(5) as usize];
        }
        2 => {
            v[1] = 3;
            v[2] = [0, 1, 2, 4][r.below(4) as usize];
        }
        3 => return vec![],
        4 => return vec![f(v.clone()), f(v)],
        5 => {
            st.held = Some((d, v));
            return vec![];
        }
        6 => {
            let l = &st.old[d];
            if !l.is_empty() {
                v = l[r.below(l.len() as u64) as usize].clone();
            }
        }
        7 => {
            let l = &st.old[d];
            if !l.is_empty() {
                let o = l[r.below(l.len() as u64) as usize].clone();
                return vec![f(o), f(v)];
            }
        }
        8 => {
            let l = &st.seen[1 - d];
            if !l.is_empty() {
                v = l[r.below(l.len() as u64) as usize].clone();
            }
        }
        9 => {
            // split into two records (legal for the clear ones)
            let p = 1 + r.below((n - 6) as u64) as usize;
            return vec![f(rec(v[0], &v[5..5 + p])), f(rec(v[0], &v[5 + p..]))];
        }
        10 => return vec![f(rec(20, &[1])), f(v)],
        11 => return vec![f(v), f(rec(20, &[1]))],
        12 => return vec![f(rec(22, &hs(EE, &[0, 0]))), f(v)],
        13 => return vec![f(rec(22, &hs([CERT, CV, CREQ, FIN][r.below(4) as usize], &r.bytes(40)))), f(v)],
        14 => return vec![f(v), f(rec(22, &hs([EE, CERT, CREQ, FIN, NST][r.below(5) as usize], &r.bytes(32))))],
        15 => return vec![f(rec(21, &[1 + r.below(2) as u8, [0, 40, 90, 80][r.below(4) as usize]])), f(v)],
        16 => return vec![f(v), MAct::Close(d)],
        17 => return vec![f(rec(23, &r.bytes(40))), f(v)],
        18 => {
            // several pieces
            let p = 1 + r.below(7) as usize;
            return v[5..].chunks(p.max((n - 5) / 20 + 1)).map(|c| f(rec(v[0], c))).collect();
        }
        19 => {
            let p = r.below(n as u64) as usize;
            v.truncate(p);
        }
        20 => {
            // hand it back to the sender
            return vec![MAct::Fwd(1 - d, v.clone()), f(v)];
        }
        21 => {
            // messages nobody expects, most of them empty
            let l = if r.below(3) == 0 { r.below(30) as usize } else { 0 };
            let m = rec(22, &hs(STRAY[r.below(9) as usize], &r.bytes(l)));
            return if r.below(3) == 0 { vec![f(v), f(m)] } else { vec![f(m), f(v)] };
        }
        22 => {
            // within the clear message: other content in the bytes behind it
            if v[0] == 22 && n > 9 {
                let m = hs(v[5], &[&v[9..], &r.bytes(1 + k as usize % 5)].concat());
                return vec![f(rec(22, &m))];
            }
        }
        _ => return vec![f(rec(v[0], &[])), f(v)],
    }
    vec![f(v)]
}
fn restore_sid(st: &St, b: &[u8]) -> Option<Vec<u8>> {
    let (orig, fake) = st.sid.clone()?;
    if b[0] != 22 || b.len() < 10 {
        return None;
    }
    let mut sh = Sh::parse(&b[9..]).ok()?;
    if sh.sid == fake {
        sh.sid = orig;
    }
    Some(rec(22, &sh.build()))
}
/// handshake messages of one direction; the last value tells whether all of it could be read
fn hs_msgs(stream: &[u8], from_server: bool, sec: &Secrets) -> (Vec<Vec<u8>>, bool) {
    let d = decode(stream, from_server, sec, true);
    let m: Vec<Vec<u8>> = d.msgs.iter().filter(|m| m.0 < 2).map(|m| m.1.clone()).collect();
    let fin = m.iter().any(|m| m[0] == FIN);
    (m, fin)
}
fn upto_fin(m: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let n = m.iter().position(|x| x[0] == FIN).map(|x| x + 1).unwrap_or(m.len());
    m[..n].to_vec()
}
fn names_of(m: &[Vec<u8>]) -> Vec<String> {
    m.iter().map(|x| format!("{}:{}", name(x[0]), hex(&sha256(x)[..4]))).collect()
}
fn log_secrets(path: &str, ch: &[u8], sh: &[u8]) -> Secrets {
    let (Some(ch), Some(sh)) = (ch_of(ch), sh_of(sh)) else { return Secrets::default() };
    let (m, _) = parse_keylog(w().vfs.files.get(path).map(|x| &x[..]).unwrap_or(&[]));
    keylog_secrets(&m, &ch.random, Suite::from(sh.suite))
}
pub fn mitm_handshake() {
    let mut old: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let mut o = One::new(0);
    let mati = o.mat;
    let auth = yes("auth", 1, 2);
    let sni = yes("sni", 1, 2);
    let host = if yes("sni.long", 1, 2) { of("sni.name", &NAMES) } else { "server.test" };
    let open = yes("sni.open", 1, 3);
    let setup = |o: &mut One| {
        if auth {
            o.auth(1);
            o.client_cert(&mati.ccert, &mati.ckey);
        }
        if sni {
            o.cli.sni = Some(host.into());
            o.srv.sni = if open { None } else { Some(host.into()) };
        }
    };
    if yes("m.old", 1, 3) {
        // an older connection whose records the attacker kept
        let sv: Arc<Mutex<[Vec<Vec<u8>>; 2]>> = Default::default();
        let s2 = sv.clone();
        let mut o1 = One::new(0);
        o1.mat = mati;
        setup(&mut o1);
        o1.mitm = Some(Box::new(move |_, ev| {
            if let MEv::Rec(d, _, _, b) = &ev {
                s2.lock().unwrap()[*d].push(b.to_vec());
            }
            forward(ev)
        }));
        let mut l = launch(o1);
        settle(&mut l);
        must_succeed(&l, &["C01"], &[]);
        old = sv.lock().unwrap().clone();
    }
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    setup(&mut o);
    o.script = gen_script(usize::MAX, false);
    o.script.rounds.truncate(1);
    let dir = c("m.dir", 2) as usize;
    let at = c("m.at", 8) as usize;
    let more = c("m.more", 4);
    let mut r = rs("m.rng");
    let mut xk = [0u8; 32];
    xk.copy_from_slice(&r.bytes(32));
    let st = Arc::new(Mutex::new(St { old, xk, ..Default::default() }));
    let s2 = st.clone();
    o.mitm = Some(Box::new(move |wd, ev| {
        let mut st = s2.lock().unwrap();
        match ev {
            MEv::Rec(d, i, _, b) => {
                st.seen[d].push(b.to_vec());
                let mut post = vec![];
                if let Some((hd, h)) = st.held.take() {
                    if hd == d {
                        post.push(MAct::Fwd(d, h));
                    } else {
                        st.held = Some((hd, h));
                    }
                }
                let b2 = if d == 1 && i == 0 { restore_sid(&st, b).unwrap_or_else(|| b.to_vec()) } else { b.to_vec() };
                let first = d == dir && i == at.saturating_sub(2);
                let extra = !st.what.is_empty() && more == 1 && r.below(4) == 0;
                let mut acts = if first || extra {
                    wd.count("attack.handshake");
                    attack(&mut st, d, &b2, &mut r)
                } else {
                    vec![MAct::Fwd(d, b2)]
                };
                acts.extend(post);
                acts
            }
            e => forward(e),
        }
    }));
    let mut l = launch(o);
    settle(&mut l);
    let what = st.lock().unwrap().what.join("; ");
    w().probe(format!("mitm.{}", what.split(';').next().unwrap_or("")));
    agreement(&l, &what);
    panics(&[]);
    audit_all(&l, |_| AuditOpts::default());
}
fn agreement(l: &Live, what: &str) {
    let (Some(ce), Some(se)) = (&l.c, &l.s) else { return };
    let ctx = w().conns[ce.conn].ends[0].tx.clone();
    let crx = rx_bytes(ce.conn, 0);
    let stx = w().conns[se.conn].ends[1].tx.clone();
    let srx = rx_bytes(se.conn, 1);
    let csec = log_secrets("/sim/keylog.c", &ctx, &crx);
    let ssec = log_secrets("/sim/keylog.s", &srx, &stx);
    let (c_sent, _) = hs_msgs(&ctx, false, &csec);
    let (c_got, c_fin) = hs_msgs(&crx, true, &csec);
    let (s_sent, s_fin) = hs_msgs(&stx, true, &ssec);
    let (s_got, sg_fin) = hs_msgs(&srx, false, &ssec);
    let cok = out(ce.o).hs == Some(Ok(()));
    let sok = out(se.o).hs == Some(Ok(()));
    w().probe(format!("mitm.outcome.{cok}.{sok}"));
    if cok {
        if c_sent.first() != s_got.first() {
            viol(&["C07"], "client_hello", format!("client completed although the server saw another ClientHello ({what})"));
        }
        let a = upto_fin(&c_got);
        let b = upto_fin(&s_sent);
        if c_got.first() != s_sent.first() {
            viol(&["C07"], "server_hello", format!("client completed with another ServerHello than the server sent ({what})"));
        }
        if c_fin && s_fin && a != b {
            viol(&["C07"], "client_view", format!("client completed with {:?}, the server sent {:?} ({what})", names_of(&a), names_of(&b)));
        }
    }
    if sok {
        if c_sent.first() != s_got.first() || c_got.first() != s_sent.first() {
            viol(&["C07"], "server_view_hello", format!("server completed although the hellos differ ({what})"));
        }
        let a = (upto_fin(&s_got), upto_fin(&s_sent));
        let b = (upto_fin(&c_sent), upto_fin(&c_got));
        if sg_fin && c_fin && a != b {
            viol(&["C07"], "server_view", format!("server completed with {:?}/{:?}, the client has {:?}/{:?} ({what})", names_of(&a.0), names_of(&a.1), names_of(&b.0), names_of(&b.1)));
        }
    }
    if cok && sok && (csec.c_ap != ssec.c_ap || csec.s_ap != ssec.s_ap) {
        viol(&["C07"], "secrets", format!("both completed with different secrets ({what})"));
    }
}

/// S6b: an attacker in the middle with own keys forwards one side's credentials to the other
pub fn relay() {
    let mut o = One::new(0);
    let m = o.mat;
    let client_creds = yes("relay.client", 1, 2);
    let auth = client_creds || yes("auth", 1, 3);
    if auth {
        o.auth(1);
    }
    if client_creds || yes("clicert", 1, 2) {
        o.client_cert(&m.ccert, &m.ckey);
    }
    let d = c("relay.delay", 3);
    o.knobs.delay = d;
    let mut r = rs("relay.rng");
    // copy the victim's Certificate and CertificateVerify, or only the latter under an own certificate
    let mode = c("relay.mode", 3);
    let same_hello = yes("relay.same", 1, 2);
    // the world: client <-> evil server, evil client <-> server
    let mut es = honest_server(m, None);
    es.creq = None;
    es.ignore_bad = true;
    es.end = PeerEnd::Linger;
    let mut ec = honest_client(0, None);
    ec.ignore_bad = true;
    ec.end = PeerEnd::Linger;
    put_server_files(m);
    if let Some((cert, key)) = &o.cli_cert {
        put_client_files(cert, key);
    }
    for k in ["/sim/keylog.c", "/sim/keylog.s"] {
        w().put_file(k, vec![]);
    }
    let ca = w().connect(Owner::None, Owner::None); // client - evil server
    let cb = w().connect(Owner::None, Owner::None); // evil client - server
    es.conn = ca;
    es.side = 1;
    ec.conn = cb;
    ec.side = 0;
    // what the two halves of the attacker share
    type Loot = Arc<Mutex<[Vec<Vec<u8>>; 2]>>;
    let loot: Loot = Default::default();
    let stranger = m.stranger.clone();
    let own = pki::cert(&CertSpec::plain("server.test", "server.test"), &stranger, &stranger, &mut r);
    let copy = |k: u8| -> Step {
        Step::Fun(Box::new(move |p: &mut Peer, _| {
            let src = &p.saved;
            if let Some(b) = src.iter().rev().find(|x| x.first() == Some(&k)).cloned() {
                p.transcript.extend_from_slice(&b);
                p.sent_msgs.push(("copy", b.clone()));
                p.pend.push(b);
            }
        }))
    };
    if !client_creds {
        // server credentials towards the client
        let l2 = loot.clone();
        ec.flight = Some(Box::new(move |p| {
            l2.lock().unwrap()[0] = p.got_msgs.clone();
            named_all(&["keyhs", "fin", "keyap"])
        }));
        let l3 = loot.clone();
        es.flight = Some(Box::new(move |p| {
            p.saved = l3.lock().unwrap()[0].clone();
            let mut st = vec![];
            if same_hello {
                // the very ServerHello of the other connection, with the own share
                st.push(msg("sh", |p| {
                    let b = p.saved.iter().find(|x| x[0] == SH).cloned();
                    let mut sh = b.and_then(|b| Sh::parse(&b[4..]).ok()).unwrap_or_default();
                    p.suite = Suite::from(sh.suite).or(p.suite);
                    sh.sid = p.ch.sid.clone();
                    let share = p.pubshare();
                    for e in sh.exts.iter_mut().filter(|e| e.0 == 51) {
                        e.1 = [vec![0, 29], v16(&share)].concat();
                    }
                    p.sh = Some(sh.clone());
                    sh.build()
                }));
            } else {
                st.extend(named_all(&["sh"]));
            }
            st.extend(named_all(&["keyhs", "ee"]));
            match mode {
                0 => {
                    st.push(copy(CERT));
                    st.push(copy(CV));
                }
                1 => {
                    st.push(copy(CERT));
                    st.extend(named_all(&["cv"]));
                }
                _ => {
                    st.extend(named_all(&["cert"]));
                    st.push(copy(CV));
                }
            }
            st.extend(named_all(&["fin", "keyap", "go"]));
            st
        }));
        es.key = Some(stranger.clone());
        es.chain = if mode == 2 { vec![own] } else { vec![m.scert.clone()] };
    } else {
        // client credentials towards the server
        es.key = Some(stranger.clone());
        es.chain = vec![own];
        let l2 = loot.clone();
        let l3 = loot.clone();
        let l4 = loot.clone();
        es.flight = Some(Box::new(move |p| {
            // ask the client with the context of the real server
            let q = l2.lock().unwrap()[0].iter().find(|x| x[0] == CREQ).cloned();
            if let Some(q) = q {
                let n = q[4] as usize;
                p.creq = Some((q[5..5 + n].to_vec(), q[7 + n..].to_vec()));
            }
            let mut st = p.server_steps();
            st.push(Step::Go);
            st
        }));
        ec.chain = if mode == 2 { vec![m.ocert.clone()] } else { vec![m.ccert.clone()] };
        ec.key = Some(stranger);
        ec.flight = Some(Box::new(move |p| {
            l3.lock().unwrap()[0] = p.got_msgs.clone();
            let mut st = vec![
                Step::Fun(Box::new(move |p, w| {
                    let _ = p;
                    let cn = ca;
                    w.after(0, Ev::Call(Box::new(move |w| w.hold(cn, 1, false))));
                })),
                Step::Sleep(20 * SEC),
                Step::Fun(Box::new(move |p, _| {
                    p.saved = l4.lock().unwrap()[1].clone();
                })),
                Step::KeyHs,
            ];
            match mode {
                0 | 2 if mode == 0 => {
                    st.push(copy(CERT));
                    st.push(copy(CV));
                }
                1 => {
                    st.push(copy(CERT));
                    st.extend(named_all(&["cv"]));
                }
                _ => {
                    st.extend(named_all(&["cert"]));
                    st.push(copy(CV));
                }
            }
            st.extend(named_all(&["fin", "keyap", "go"]));
            st
        }));
    }
    let ei = w().add_node(Box::new(es));
    let ci = w().add_node(Box::new(ec));
    w().conns[ca].ends[1].owner = Owner::Node(ei);
    w().conns[cb].ends[0].owner = Owner::Node(ci);
    w().hold(ca, 1, true);
    // the server
    let (lid, lfd) = w().listener();
    let so = new_out("server", true);
    let Some(srv) = make_server(lfd, &o.srv) else {
        viol(&["C01", "C16"], "config", "server configuration refused".to_string());
        return;
    };
    let stid = spawn_server("server", &srv, &[so], &Script::none(), &After::default());
    drop(srv);
    w().dial(lid, cb, 1, 0);
    let fd = w().sock_fd(ca, 0);
    let co = new_out("client", false);
    let ctid = spawn_client("client", fd, co, &o.cli, &Script::none(), &After::default());
    w().k = o.knobs.clone();
    w().start_node(ei);
    w().start_node(ci);
    // release the evil server when the loot is there; hand the client's messages over when they arrive
    for t in 1..40u64 {
        let l5 = loot.clone();
        let cc = client_creds;
        w().after(t * SEC / 2, Ev::Call(Box::new(move |w| {
            if !cc && !l5.lock().unwrap()[0].is_empty() {
                w.hold(ca, 1, false);
            }
            let g = w.node::<Peer>(ei).got_msgs.clone();
            l5.lock().unwrap()[1] = g;
        })));
    }
    w().count("attack.relay");
    let e1 = drive();
    if e1 != End_::Steps {
        w().hold(ca, 1, false);
        quiesce();
        drive();
    }
    let (c_, s_) = (out(co), out(so));
    w().probe(format!("relay.{client_creds}.{mode}.{:?}.{:?}", c_.hs, s_.hs));
    if !client_creds && c_.hs == Some(Ok(())) && mode != 3 {
        viol(&["C07", "C04"], "relay", format!("client accepted credentials forwarded from another connection (mode {mode})"));
    }
    if client_creds && s_.hs == Some(Ok(())) {
        viol(&["C07", "C05"], "relay", format!("server accepted credentials forwarded from another connection (mode {mode})"));
    }
    let _ = (ctid, stid);
    panics(&[]);
}
