//! S7: whatever arrives, the process survives, moves on and stays small.
use crate::env::*;
use crate::pki::{self, der_get, tlv};
use crate::reftls::*;
use crate::s_evil::{named, named_all};
use crate::scen::*;
use crate::tape::Rng;
use crate::world::*;

// ---------------------------------------------------------------- mutation
fn count_tlv(b: &[u8]) -> usize {
    let mut n = 0;
    let mut rest = b;
    while let Ok((t, c, r)) = der_get(rest) {
        n += 1;
        if t & 0x20 != 0 {
            n += count_tlv(c);
        }
        rest = r;
        if rest.is_empty() {
            break;
        }
    }
    n
}
/// rewrite element number `target` (in document order), all lengths around it are corrected
fn rebuild(b: &[u8], cnt: &mut usize, target: usize, f: &mut dyn FnMut(u8, &[u8]) -> Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    let mut rest = b;
    while !rest.is_empty() {
        match der_get(rest) {
            Ok((t, c, r)) => {
                let me = *cnt;
                *cnt += 1;
                if me == target {
                    o.extend(f(t, c));
                    if t & 0x20 != 0 {
                        *cnt += count_tlv(c);
                    }
                } else if t & 0x20 != 0 {
                    o.extend(tlv(t, &rebuild(c, cnt, target, f)));
                } else {
                    o.extend_from_slice(&rest[..rest.len() - r.len()]);
                }
                rest = r;
            }
            Err(_) => {
                o.extend_from_slice(rest);
                break;
            }
        }
    }
    o
}
/// the same element around itself many times
fn nest(tag: u8, x: &[u8], depth: usize) -> Vec<u8> {
    let mut n = x.len();
    let mut heads = vec![];
    for _ in 0..depth {
        let h = match n {
            0..=127 => vec![tag, n as u8],
            128..=255 => vec![tag, 0x81, n as u8],
            256..=65535 => vec![tag, 0x82, (n >> 8) as u8, n as u8],
            _ => vec![tag, 0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8],
        };
        n += h.len();
        heads.push(h);
    }
    heads.reverse();
    [heads.concat(), x.to_vec()].concat()
}
pub fn der_mutate(b: &[u8], r: &mut Rng) -> (String, Vec<u8>) {
    let n = count_tlv(b).max(1);
    let t = r.below(n as u64) as usize;
    let k = r.below(16);
    let mut what = String::new();
    let v = rebuild(b, &mut 0, t, &mut |tag, c| {
        what = format!("der element {t} (tag {tag:02x}, {} bytes) op {k}", c.len());
        let k = match (tag, k) {
            (0x17 | 0x18, 0..=9) => 11,
            (6, 0..=5) => 12,
            (2, 0..=5) => 13,
            (3, 0..=7) => 14,
            _ => k,
        };
        match k {
            0 => vec![],
            1 => [tlv(tag, c), tlv(tag, c)].concat(),
            2 => vec![tag, 0],
            3 => tlv(r.below(256) as u8, c),
            4 => {
                let l = c.len() as u8;
                let h: Vec<u8> = match r.below(10) {
                    0 => vec![0x80],
                    1 => vec![0x84, 0xff, 0xff, 0xff, 0xff],
                    2 => vec![0x81, l],
                    3 => vec![0xff],
                    4 => [vec![0x88], vec![0xff; 8]].concat(),
                    5 => [vec![0x89], vec![0; 8], vec![l]].concat(),
                    6 => vec![l.wrapping_add(1)],
                    7 => vec![l.wrapping_sub(1)],
                    8 => vec![0x83, 0, 0, l],
                    _ => vec![0x7f],
                };
                [vec![tag], h, c.to_vec()].concat()
            }
            5 => {
                let n = r.below(c.len() as u64 + 20) as usize;
                tlv(tag, &r.bytes(n))
            }
            6 => tlv(tag, &c[..r.below(c.len() as u64 + 1) as usize]),
            7 => {
                let n = 1 + r.below(300) as usize;
                tlv(tag, &[c, &r.bytes(n)].concat())
            }
            8 => {
                let depth = [3, 30, 31, 32, 33, 200, 1500, 3500, 8000, 16_000, 40_000][r.below(11) as usize];
                let tg = [0x30, 0x31, 0xa3, tag][r.below(4) as usize];
                nest(tg, &c[..c.len().min(40)], depth)
            }
            9 => {
                let mut x = tlv(tag, c);
                let p = r.below(x.len() as u64) as usize;
                x[p] ^= 1 << r.below(8);
                x
            }
            10 => {
                let n = 200 + r.below(12_000) as usize;
                tlv(tag, &vec![[0xff, 0, 0x30, 0x80][r.below(4) as usize]; n])
            }
            11 => {
                let l: [&[u8]; 18] = [
                    b"000000000000Z", b"991399999999Z", b"250230000000Z", b"250229000000Z", b"25023", b"", b"Z", b"-50101000000Z", b"2501010000Z",
                    b"250101000000+0100", b"20250101000000Z", b"99991231235959Z", b"00000000000000Z", b"+50101000000Z", b"25 101000000Z", b"250101246060Z",
                    b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"999999999999999999999999999999999999999999Z",
                ];
                let tag = [0x17, 0x18, tag][r.below(3) as usize];
                tlv(tag, l[r.below(18) as usize])
            }
            12 => {
                let l: [Vec<u8>; 8] = [vec![], vec![0x80; 1], vec![0xff; 40], vec![0x2b, 0x80], vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], vec![0; 3], vec![0xff], r.bytes(6)];
                tlv(6, &l[r.below(8) as usize])
            }
            13 => {
                let l: [Vec<u8>; 7] = [vec![], vec![0x80], vec![0; 40], vec![0xff; 33], vec![0x7f; 5000], vec![0, 0, 0, 1], r.bytes(64)];
                tlv(2, &l[r.below(7) as usize])
            }
            14 => {
                let q = c.get(1..).unwrap_or(&[]).to_vec();
                let l: [Vec<u8>; 12] = [
                    vec![],
                    vec![0],
                    [vec![7], q.clone()].concat(),
                    [vec![9], q.clone()].concat(),
                    [vec![255], q.clone()].concat(),
                    vec![0, 4],
                    [vec![0, 2], r.bytes(32)].concat(),
                    [vec![0, 3], r.bytes(32)].concat(),
                    [vec![0, 4], r.bytes(63)].concat(),
                    [vec![0, 4], vec![0; 64]].concat(),
                    [vec![0, 4], vec![0xff; 64]].concat(),
                    [vec![0, 4], r.bytes(400)].concat(),
                ];
                tlv(3, &l[r.below(12) as usize])
            }
            _ => r.bytes(3),
        }
    });
    (what, v)
}
/// generic mutation of one handshake message
fn generic(m: &[u8], r: &mut Rng) -> (String, Vec<u8>) {
    let n = m.len();
    let body = &m[4..];
    let t = m[0];
    let bl = body.len();
    let p = r.below(bl.max(1) as u64) as usize;
    let k = r.below(18);
    let v = match k {
        0 => {
            let mut v = m.to_vec();
            v[r.below(n as u64) as usize] ^= 1 << r.below(8);
            v
        }
        1 if bl > 0 => {
            let mut b = body.to_vec();
            b[p] = [0, 1, 0x7f, 0x80, 0xff][r.below(5) as usize];
            hs(t, &b)
        }
        2 if bl > 1 => {
            let mut b = body.to_vec();
            let p = p.min(bl - 2);
            let x = [0u16, 1, 0xff, 0xffff, 0x4000, 0x0100][r.below(6) as usize].to_be_bytes();
            b[p] = x[0];
            b[p + 1] = x[1];
            hs(t, &b)
        }
        3 => hs(t, &body[..p]),
        4 => {
            let k = 1 + r.below(40) as usize;
            let x = r.bytes(k);
            hs(t, &[body, &x].concat())
        }
        5 => {
            let k = 1 + r.below(40) as usize;
            let x = r.bytes(k);
            hs(t, &[&body[..p.min(bl)], &x, &body[p.min(bl)..]].concat())
        }
        6 if bl > 0 => {
            let e = (p + 1 + r.below(20) as usize).min(bl);
            hs(t, &[&body[..p], &body[e..]].concat())
        }
        7 => hs(t, &[]),
        8 => {
            let k = [1, 2, 3, 4, 5, 31, 32, 33, 64, 300][r.below(10) as usize];
            hs(t, &r.bytes(k))
        }
        9 => {
            // length of the message too small or too large
            let mut v = m.to_vec();
            let l = [0usize, 1, bl.saturating_sub(1), bl + 1, 0xffff, 0xff_ffff, 0x8000_00, bl / 2][r.below(8) as usize];
            v[1] = (l >> 16) as u8;
            v[2] = (l >> 8) as u8;
            v[3] = l as u8;
            v
        }
        10 => {
            let mut v = m.to_vec();
            v[0] = [0, 1, 2, 4, 5, 6, 8, 11, 13, 15, 20, 24, 254, 255, r.below(256) as u8][r.below(15) as usize];
            v
        }
        11 => [m, m].concat(),
        12 => m[..(1 + r.below(n as u64) as usize).min(n)].to_vec(),
        13 => {
            let k = [20_000usize, 70_000, 200_000][r.below(3) as usize];
            let f = [0u8, 0xff, 0x41, 1][r.below(4) as usize];
            hs(t, &[body, &vec![f; k]].concat())
        }
        14 => {
            let k = 1 + r.below(3000) as usize;
            hs(t, &vec![[0, 0xff, 1][r.below(3) as usize]; k])
        }
        15 => {
            // several flips
            let mut v = m.to_vec();
            for _ in 0..1 + r.below(8) {
                let p = 4.min(n - 1) + r.below((n - 4.min(n - 1)) as u64) as usize;
                v[p] = r.below(256) as u8;
            }
            v
        }
        16 => vec![],
        _ => {
            // a plausible message in place of this one
            let k = r.below(200) as usize;
            let b = r.bytes(k);
            hs([CH, SH, EE, CERT, CREQ, CV, FIN, NST, 24][r.below(9) as usize], &b)
        }
    };
    (format!("message {t} op {k}"), v)
}
fn ext_mutate(l: &mut Vec<(u16, Vec<u8>)>, r: &mut Rng) -> String {
    let n = l.len().max(1) as u64;
    let i = r.below(n) as usize;
    if l.is_empty() {
        l.push((r.below(60) as u16, vec![]));
        return "extension added".into();
    }
    let k = r.below(13);
    let id = l[i].0;
    match k {
        0 => {
            l.remove(i);
        }
        1 => {
            let x = l[i].clone();
            l.push(x);
        }
        2 => l[i].1.clear(),
        3 => l[i].1.push(0),
        4 => {
            let n = r.below(l[i].1.len() as u64 + 1) as usize;
            l[i].1.truncate(n);
        }
        5 if !l[i].1.is_empty() => {
            let p = r.below(l[i].1.len() as u64) as usize;
            l[i].1[p] ^= 1 << r.below(8);
        }
        6 => {
            let n = r.below(80) as usize;
            l[i].1 = r.bytes(n);
        }
        7 => {
            let n = r.below(30) as usize;
            let t = [0u16, 10, 13, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51, 0x0a0a, 0xffff, 5, 16][r.below(17) as usize];
            let b = r.bytes(n);
            let at = r.below(l.len() as u64 + 1) as usize;
            l.insert(at, (t, b));
        }
        8 => {
            // wrong inner length
            if l[i].1.len() >= 2 {
                let x = [0u8, 1, 0xff, l[i].1.len() as u8, (l[i].1.len() - 1) as u8][r.below(5) as usize];
                let p = r.below(2) as usize;
                l[i].1[p] = x;
            }
        }
        9 => l[i].0 = r.below(60) as u16,
        10 => {
            let n = 1000 + r.below(14_000) as usize;
            l[i].1 = vec![[0u8, 0xff, 0x0a, 0x1d][r.below(4) as usize]; n];
        }
        11 => {
            for j in 0..r.below(400) {
                l.push((1000 + j as u16, vec![]));
            }
        }
        _ => {
            let b = l[i].1.clone();
            l[i].1.extend(b);
        }
    }
    format!("extension {id} op {k}")
}
/// one mutated message of the given kind
fn mutate_msg(label: &'static str, m: Vec<u8>, r: &mut Rng) -> (String, Vec<u8>) {
    let aware = r.below(3) > 0;
    if aware {
        match label {
            "ch" => {
                if let Ok(mut ch) = Ch::parse(&m[4..]) {
                    let what = match r.below(10) {
                        0 => {
                            let n = r.below(60) as usize;
                            ch.sid = r.bytes(n);
                            "sid".into()
                        }
                        1 => {
                            let n = r.below(5000) as usize;
                            ch.suites = (0..n).map(|_| r.next() as u16).collect();
                            "suites".into()
                        }
                        2 => {
                            ch.suites.clear();
                            "no suites".into()
                        }
                        3 => {
                            let n = r.below(4) as usize;
                            ch.comp = r.bytes(n);
                            "comp".into()
                        }
                        4 => {
                            ch.ver = r.next() as u16;
                            "version".into()
                        }
                        5 => {
                            ch.exts.clear();
                            "no extensions".into()
                        }
                        _ => ext_mutate(&mut ch.exts, r),
                    };
                    return (format!("ch {what}"), ch.build());
                }
            }
            "sh" => {
                if let Ok(mut sh) = Sh::parse(&m[4..]) {
                    let what = match r.below(8) {
                        0 => {
                            let n = r.below(40) as usize;
                            sh.sid = r.bytes(n);
                            "sid".into()
                        }
                        1 => {
                            sh.suite = r.next() as u16;
                            "suite".into()
                        }
                        2 => {
                            sh.comp = r.next() as u8;
                            "comp".into()
                        }
                        3 => {
                            sh.exts.clear();
                            "no extensions".into()
                        }
                        _ => ext_mutate(&mut sh.exts, r),
                    };
                    return (format!("sh {what}"), sh.build());
                }
            }
            "ee" => {
                if let Ok(mut l) = parse_exts(&m[6..]) {
                    let what = ext_mutate(&mut l, r);
                    return (format!("ee {what}"), hs(EE, &exts(&l)));
                }
            }
            "creq" => {
                let n = m[4] as usize;
                if let Ok(mut l) = parse_exts(&m[7 + n..]) {
                    let what = ext_mutate(&mut l, r);
                    let c = r.below(40) as usize;
                    return (format!("creq {what}"), hs(CREQ, &[v8(&r.bytes(c)), exts(&l)].concat()));
                }
            }
            "cert" => {
                if let Ok(mut c) = CertMsg::parse(&m[4..]) {
                    let what: String = match r.below(10) {
                        0 => {
                            let n = r.below(40) as usize;
                            c.ctx = r.bytes(n);
                            "context".into()
                        }
                        1 => {
                            for _ in 0..r.below(300) {
                                c.chain.push((vec![0x30, 0], vec![]));
                            }
                            "many entries".into()
                        }
                        2 => {
                            let n = 1 + r.below(3) as usize;
                            let e = r.bytes(n);
                            if let Some(x) = c.chain.last_mut() {
                                x.1 = e;
                            }
                            "entry extensions".into()
                        }
                        3 => {
                            c.chain.insert(0, (vec![], vec![]));
                            "empty entry".into()
                        }
                        _ => {
                            if c.chain.is_empty() {
                                c.chain.push((vec![0x30, 3, 0x30, 1, 0], vec![]));
                            }
                            let i = r.below(c.chain.len() as u64) as usize;
                            let i = if r.below(3) > 0 { 0 } else { i };
                            let mut w_ = String::new();
                            for _ in 0..1 + r.below(3) {
                                let (x, y) = der_mutate(&c.chain[i].0, r);
                                w_ = x;
                                if y.len() < 60_000 {
                                    c.chain[i].0 = y;
                                }
                            }
                            w_
                        }
                    };
                    return (format!("cert {what}"), c.build());
                }
            }
            "cv" => {
                if let Ok((s, sig)) = parse_cv(&m[4..]) {
                    let (w_, x) = der_mutate(&sig, r);
                    let s = if r.below(4) == 0 { r.next() as u16 } else { s };
                    return (format!("cv {w_}"), Peer::cv_bytes(s, &x));
                }
            }
            _ => {}
        }
    }
    let (a, b) = generic(&m, r);
    (format!("{label} {a}"), b)
}
fn maker(l: &str) -> fn(&mut Peer) -> Vec<u8> {
    match l {
        "ch" => |p| p.ch.build(),
        "sh" => |p| p.mk_sh(),
        "ee" => |p| p.mk_ee(),
        "creq" => |p| p.mk_creq(),
        "cert" => |p| p.mk_cert(),
        "cv" => |p| p.mk_cv(),
        _ => |p| p.mk_fin(),
    }
}
fn mutated(l: &'static str, mut r: Rng) -> Step {
    msg(l, move |p| {
        let good = maker(l)(p);
        let (what, v) = mutate_msg(l, good, &mut r);
        w().probe(format!("fuzz.{l}"));
        w().log("mutated", v.len() as u64, 0, 0);
        w().note.push(format!("mutation: {what}"));
        v
    })
}
/// something unexpected put between the messages
fn oddity(r: &mut Rng) -> (String, Vec<Step>) {
    let k = r.below(26);
    let ty = [0u8, 19, 20, 21, 22, 23, 24, 255][r.below(8) as usize];
    let n = [0usize, 1, 2, 3, 4, 5, 15, 16, 17, 18, 100, 1000, 16_384, 16_385, 16_640, 16_641, 65_535][r.below(17) as usize];
    let s: Vec<Step> = match k {
        0 => {
            let b = r.bytes(n);
            vec![Step::Raw(rec(ty, &b))]
        }
        1 => {
            let mut x = rec(ty, &r.bytes(20));
            x[1] = r.next() as u8;
            x[2] = r.next() as u8;
            vec![Step::Raw(x)]
        }
        2 => (0..50 + r.below(1500)).map(|_| Step::Raw(rec(ty, &[]))).collect(),
        3 => (0..50 + r.below(1500)).map(|_| Step::Raw(rec(20, &[1]))).collect(),
        4 => vec![Step::Raw(vec![22, 3, 3, 255, 255]), Step::Raw(r.bytes(3000))],
        5 => {
            // a record that never ends
            let k = r.below(300) as usize;
            vec![Step::Raw([vec![23, 3, 3, 0x40, 0], r.bytes(k)].concat()), Step::Close]
        }
        6 => vec![Step::Alert(r.next() as u8, r.next() as u8)],
        7 => {
            let n = r.below(5) as usize;
            let b = r.bytes(n);
            vec![Step::Enc(21, b)]
        }
        8 => {
            let b = r.bytes(n.min(MAX_PLAIN));
            vec![Step::Enc(ty, b)]
        }
        9 => vec![Step::Enc(0, vec![0; n.min(MAX_PLAIN)])],
        10 => (0..20 + r.below(600)).map(|_| Step::Enc(23, vec![])).collect(),
        11 => (0..20 + r.below(600)).map(|_| Step::Enc(22, vec![])).collect(),
        12 => {
            // a huge message in many records, never finished
            let l = [0xff_ffffusize, 0x10_0000, 100_000][r.below(3) as usize];
            let kb = 1 + r.below(40) as usize;
            let mut v = vec![Step::Enc(22, vec![r.next() as u8, (l >> 16) as u8, (l >> 8) as u8, l as u8])];
            for _ in 0..kb {
                v.push(Step::Enc(22, vec![0x30; MAX_PLAIN]));
            }
            v
        }
        13 => (0..100 + r.below(3000)).map(|_| Step::Enc(22, vec![[0u8, 1, 8, 24][r.below(4) as usize]])).collect(),
        14 => vec![Step::Enc(22, hs(NST, &r.bytes(80)))],
        15 => vec![Step::Enc(22, hs(24, &[r.below(3) as u8]))],
        16 => vec![Step::Enc(22, hs(CREQ, &[vec![4], r.bytes(4), exts(&[ext(13, &v16(&[4, 3]))])].concat()))],
        17 => vec![Step::Enc(22, [hs(NST, &r.bytes(8)), hs(24, &[1]), hs(0, &[])].concat())],
        18 => {
            // many small messages in one record
            let one = hs([0u8, EE, CERT, CV, FIN, 24][r.below(6) as usize], &[]);
            vec![Step::Enc(22, one.repeat(1 + r.below(4000) as usize))]
        }
        19 => vec![Step::Close],
        20 => vec![Step::Reset],
        21 => vec![Step::Sleep(1 + r.below(3) * SEC)],
        22 => vec![Step::KeyRand],
        23 => vec![Step::KeyNone],
        24 => {
            let n = 1 + r.below(8) as usize;
            vec![Step::Raw(r.bytes(n))]
        }
        _ => {
            let n = r.below(5000) as usize;
            vec![Step::Raw(r.bytes(n))]
        }
    };
    (format!("oddity {k} ({ty},{n})"), s)
}
fn plan(base: Vec<&'static str>, server: bool, r: &mut Rng) -> (String, Vec<Step>) {
    let mut what = String::new();
    let nm = [1u64, 1, 1, 2, 3, 0][c("fz.n", 6) as usize];
    let names: Vec<usize> = base.iter().enumerate().filter(|(_, x)| !x.starts_with("key") && **x != "ccs" && **x != "go").map(|(i, _)| i).collect();
    let mut hit: Vec<usize> = vec![];
    for _ in 0..nm {
        if !names.is_empty() {
            hit.push(names[c("fz.at", names.len() as u64) as usize]);
        }
    }
    let mut no = [0u64, 0, 1, 1, 2, 4][c("fz.odd", 6) as usize];
    if hit.is_empty() && no == 0 {
        no = 1;
    }
    let mut odd: Vec<(usize, Vec<Step>)> = vec![];
    for _ in 0..no {
        let (w_, s) = oddity(r);
        what += &format!(" {w_}");
        odd.push((c("fz.oddat", base.len() as u64 + 2) as usize, s));
    }
    let mut steps = vec![];
    let n = base.len();
    for (i, l) in base.into_iter().enumerate() {
        for o in odd.iter_mut().filter(|o| o.0 == i) {
            steps.append(&mut o.1);
        }
        if hit.contains(&i) {
            what += &format!(" mutated {l}");
            steps.push(mutated(l, Rng::new(r.next())));
        } else {
            steps.push(named(l));
        }
    }
    for o in odd.iter_mut().filter(|o| o.0 >= n) {
        steps.append(&mut o.1);
    }
    let _ = server;
    (what, steps)
}
pub fn fuzz() {
    let topo = pk("topo", &[20, 40, 40]) as u64;
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    o.ac.post = c("post", 5) as usize;
    o.asv.post = o.ac.post;
    o.ac.post_write = yes("postw", 1, 2);
    o.asv.post_write = o.ac.post_write;
    let mut r = rs("fz.rng");
    let auth = yes("auth", 1, 2);
    if yes("sni", 1, 3) {
        o.cli.sni = Some("server.test".into());
        o.srv.sni = Some("server.test".into());
    }
    let sni = o.cli.sni.clone();
    let mut what = String::new();
    match topo {
        0 => {
            if auth {
                o.auth(1);
                o.client_cert(&m.ccert, &m.ckey);
            }
            o.script.extra = [None, Some(0), Some(1)][c("fz.extra", 3) as usize];
            let at = [0, 1, 2, 3, 4, 5, 6, 8, 12][c("fz.at", 9) as usize];
            let dir = c("fz.dir", 2) as usize;
            let den = [1, 2, 5, 1000][c("fz.rate", 4) as usize];
            let mut hit = false;
            let mut old: Vec<Vec<u8>> = vec![];
            o.mitm = Some(Box::new(move |wd, ev| match ev {
                MEv::Rec(d, i, _, b) => {
                    old.push(b.to_vec());
                    if i < at || d != dir || (hit && r.below(den) > 0) {
                        return vec![MAct::Fwd(d, b.to_vec())];
                    }
                    hit = true;
                    wd.count("fuzz.mitm");
                    let mut v = b.to_vec();
                    let n = v.len();
                    match r.below(14) {
                        0 => v[r.below(n as u64) as usize] ^= 1 << r.below(8),
                        1 => v.truncate(r.below(n as u64) as usize),
                        2 => {
                            let k = r.below(50) as usize;
                            v.extend(r.bytes(k));
                        }
                        3 => v[3] ^= 1 << r.below(8),
                        4 => v[4] ^= 1 << r.below(8),
                        5 => v[0] = [20, 21, 22, 23, 0, 255][r.below(6) as usize],
                        6 => return vec![],
                        7 => return vec![MAct::Fwd(d, v.clone()), MAct::Fwd(d, v)],
                        8 => {
                            let k = r.below(old.len() as u64) as usize;
                            v = old[k].clone();
                        }
                        9 => return vec![MAct::Fwd(d, v), MAct::Close(d)],
                        10 => return vec![MAct::Reset(d)],
                        11 => {
                            let k = r.below(n as u64) as usize;
                            v.truncate(k);
                            return vec![MAct::Fwd(d, v), MAct::Close(d)];
                        }
                        12 => {
                            // mutate the clear message inside
                            if v[0] == 22 && n > 9 {
                                let l = if d == 0 { "ch" } else { "sh" };
                                let (_, x) = mutate_msg(l, v[5..].to_vec(), &mut r);
                                let mut o = vec![];
                                for c in x.chunks(MAX_PLAIN) {
                                    o.extend(rec(22, c));
                                }
                                v = o;
                            } else {
                                v[n - 1] ^= 1;
                            }
                        }
                        _ => {
                            let (_, s) = oddity(&mut r);
                            let mut o = vec![];
                            for x in s {
                                match x {
                                    Step::Raw(b) => o.extend(b),
                                    Step::Enc(t, b) => o.extend(rec(t, &b)),
                                    _ => {}
                                }
                            }
                            return vec![MAct::Fwd(d, o), MAct::Fwd(d, v)];
                        }
                    }
                    vec![MAct::Fwd(d, v)]
                }
                e => forward(e),
            }));
        }
        1 => {
            let mut p = honest_server(m, sni.as_deref());
            if yes("clicert", 1, 2) {
                o.client_cert(&m.ccert, &m.ckey);
            }
            let mut base: Vec<&'static str> = vec!["sh"];
            if p.frame.ccs {
                base.push("ccs");
            }
            base.extend(["keyhs", "ee"]);
            if p.creq.is_some() {
                base.push("creq");
            }
            base.extend(["cert", "cv", "fin", "keyap"]);
            if yes("fz.half", 1, 2) {
                base.push("go");
            }
            let (w_, steps) = plan(base, true, &mut r);
            what = w_;
            p.flight = Some(Box::new(move |_| steps));
            fuzz_end(&mut p);
            o.peer = Some(p);
        }
        _ => {
            let rich = c("rich", 3);
            let mut p = honest_client(rich, sni.as_deref());
            if auth {
                o.auth(c("verify", 4) as u8);
                if yes("fz.cert", 5, 6) {
                    p.chain = vec![m.ccert.clone()];
                    p.key = Some(m.ckey.clone());
                }
            }
            if c("fz.first", 3) == 0 {
                let (w_, s) = plan(vec!["ch"], false, &mut r);
                what = w_;
                p.on_start = s;
            }
            let has = auth && !p.chain.is_empty();
            let mut base: Vec<&'static str> = vec![];
            if p.frame.ccs {
                base.push("ccs");
            }
            base.push("keyhs");
            if auth {
                base.push("cert");
                if has {
                    base.push("cv");
                }
            }
            base.extend(["fin", "keyap", "go"]);
            let (w_, steps) = if what.is_empty() { plan(base, false, &mut r) } else { (String::new(), named_all(&base)) };
            what += &w_;
            p.flight = Some(Box::new(move |_| steps));
            fuzz_end(&mut p);
            o.peer = Some(p);
        }
    }
    w().count("fuzz.input");
    let mut l = launch(o);
    settle(&mut l);
    w().probe(format!("fuzz.topo{topo}"));
    survive(&l, &what);
    let ks = peer_ks(&l);
    audit_all(&l, |_| AuditOpts { ks: None, ..Default::default() });
    let _ = ks;
}
fn fuzz_end(p: &mut Peer) {
    p.ignore_bad = true;
    p.end = of("fz.end", &[PeerEnd::Linger, PeerEnd::Close, PeerEnd::NotifyClose, PeerEnd::Reset]);
}
/// C08: no panic, nothing left running, memory in proportion to what came in
pub fn survive(l: &Live, what: &str) {
    panics(&[]);
    for e in [&l.c, &l.s].into_iter().flatten() {
        let o = crate::sut::out(e.o);
        w().probe(format!("result.{}.{:?}.{:?}", o.name, o.hs, o.err));
        let t = &w().tasks[e.tid];
        let rx = w().conns[e.conn].ends[e.side].rcv_total;
        let lim = MEM_BASE + MEM_FACTOR * (rx + e.write_script as u64);
        if t.peak > lim {
            let (p, n) = (t.peak, t.name.clone());
            viol(&["C08"], "memory_use", format!("{n} held {p} bytes after receiving {rx} ({what})"));
        }
    }
    let _ = pki::seq(&[]);
}
pub const MEM_BASE: u64 = 1 << 20;
pub const MEM_FACTOR: u64 = 16;
