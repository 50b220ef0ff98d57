//! S19: a peer that holds every key but does not keep to the message sequence.
//! What it sent is judged afterwards by a strict receiver that reads the bytes themselves.
use crate::env::*;
use crate::reftls::*;
use crate::scen::*;
use crate::sut::*;
use crate::tape::Rng;
use crate::world::*;

// ---------------------------------------------------------------- the strict receiver
#[derive(Clone, Debug, PartialEq)]
pub enum Lv {
    /// the sender's Finished ends at this offset
    Done(usize),
    More,
    Bad(String),
}
/// What a receiver following RFC 8446 makes of a stream.
/// `from_server`: who sent it; `auth`: the receiver asked for a certificate.
pub fn receive(b: &[u8], from_server: bool, auth: bool, hs: Option<Dir>) -> Lv {
    let bad = |s: String| Lv::Bad(s);
    let mut pos = 0;
    let mut keyed = false;
    let mut dir = hs;
    let mut buf: Vec<u8> = vec![];
    let mut st = if from_server { "sh" } else { "ch" };
    while b.len() >= pos + 5 {
        let n = 5 + ((b[pos + 3] as usize) << 8 | b[pos + 4] as usize);
        if b.len() < pos + n {
            break;
        }
        let r = &b[pos..pos + n];
        pos += n;
        if r[0] == 20 {
            if r[5..] != [1] {
                return bad(format!("change_cipher_spec of {:?}", &r[5..r.len().min(9)]));
            }
            if st == "ch" {
                return bad("change_cipher_spec before the ClientHello".into());
            }
            if !buf.is_empty() {
                return bad("change_cipher_spec within a message".into());
            }
            continue;
        }
        let m = if keyed {
            if r[0] != 23 {
                return bad(format!("record of type {} where protection is due (state {st})", r[0]));
            }
            match dir.as_mut().map(|d| d.open(r)) {
                Some(Ok((22, m, _))) => m,
                Some(Ok((t, _, _))) => return bad(format!("protected content type {t} in state {st}")),
                Some(Err(e)) => return bad(e),
                None => return bad("no keys".into()),
            }
        } else {
            if r[0] != 22 {
                return bad(format!("record of type {} in the clear (state {st})", r[0]));
            }
            r[5..].to_vec()
        };
        if m.is_empty() {
            return bad("empty handshake record".into());
        }
        buf.extend_from_slice(&m);
        loop {
            if buf.len() < 4 {
                break;
            }
            let l = 4 + ((buf[1] as usize) << 16 | (buf[2] as usize) << 8 | buf[3] as usize);
            if buf.len() < l {
                break;
            }
            let m: Vec<u8> = buf.drain(..l).collect();
            st = match (st, m[0]) {
                ("ch", CH) => {
                    keyed = true;
                    if auth {
                        "ccert"
                    } else {
                        "fin"
                    }
                }
                ("ccert", CERT) => {
                    // an empty list is followed by no CertificateVerify
                    match CertMsg::parse(&m[4..]) {
                        Ok(c) if c.chain.is_empty() => "fin",
                        Ok(_) => "cv",
                        Err(e) => return bad(e),
                    }
                }
                ("sh", SH) => {
                    keyed = true;
                    "ee"
                }
                ("ee", EE) => "creq",
                ("creq", CREQ) => "cert",
                ("creq" | "cert", CERT) => "cv",
                ("cv", CV) => "fin",
                ("fin", FIN) => "end",
                (s, t) => return bad(format!("message of type {t} in state {s}")),
            };
            if matches!(m[0], CH | SH | FIN) && !buf.is_empty() {
                return bad(format!("{} bytes behind message {} before the change of keys", buf.len(), m[0]));
            }
        }
        if st == "end" {
            return Lv::Done(pos);
        }
    }
    Lv::More
}
/// Application data that may be delivered from what follows the Finished message, and whether
/// something stands behind it that ends the connection.
pub fn receive_app(b: &[u8], mut d: Dir) -> (Vec<u8>, Option<String>) {
    let mut o = vec![];
    let mut pos = 0;
    while b.len() >= pos + 5 {
        let n = 5 + ((b[pos + 3] as usize) << 8 | b[pos + 4] as usize);
        if b.len() < pos + n {
            break;
        }
        let r = &b[pos..pos + n];
        pos += n;
        if r[0] != 23 {
            return (o, Some(format!("record of type {}", r[0])));
        }
        match d.open(r) {
            Ok((23, m, _)) => o.extend(m),
            Ok((t, _, _)) => return (o, Some(format!("content type {t}"))),
            Err(e) => return (o, Some(e)),
        }
    }
    (o, None)
}

// ---------------------------------------------------------------- what is sent
#[derive(Clone, Debug)]
enum Put {
    /// with the others, as the framing of this peer has it
    Normal,
    /// in a record of this content type
    As(u8),
    /// protected, but with this outer type
    Outer(u8),
    /// in the clear
    Clear(u8),
    /// cut at this part (of 1000), something in between
    Cut(u64, Vec<It>),
    /// the first bytes of the message went with an earlier record already
    Rest(usize),
}
#[derive(Clone, Debug)]
enum It {
    /// message, type put into it, transcript
    M(&'static str, Option<u8>, bool, Put),
    /// (type, body, transcript)
    X(u8, Vec<u8>, bool),
    /// a Finished message that does not verify
    BadFin(u64, u64),
    /// message together with bytes that belong behind the change of keys; in one record?
    Glue(&'static str, Vec<u8>, bool),
    /// the server's first message with this many bytes of its second one
    GlueEe(usize, bool),
    Ccs(Vec<u8>),
    E(u8, Vec<u8>),
    Clear(u8, Vec<u8>),
    Zeros(usize),
    KeyHs,
    KeyAp,
    /// so much of the script's data
    D(usize),
    Go,
}
fn maker(p: &mut Peer, l: &'static str) -> Vec<u8> {
    match l {
        "ch" => p.ch.build(),
        "sh" => p.mk_sh(),
        "ee" => p.mk_ee(),
        "creq" => {
            if p.creq.is_none() {
                p.creq = Some((vec![], exts(&[ext(13, &v16(&[4, 3]))])[2..].to_vec()));
            }
            p.mk_creq()
        }
        "cert" => p.mk_cert(),
        "cv" => p.mk_cv(),
        _ if p.ks.is_some() => p.mk_fin(),
        _ => hs(FIN, &[7; 32]),
    }
}
fn note(p: &mut Peer, l: &'static str, b: &[u8], in_th: bool) {
    if in_th {
        p.transcript.extend_from_slice(b);
    }
    p.sent_msgs.push((l, b.to_vec()));
    if l == "sh" && p.ks.is_none() {
        p.derive_hs();
        p.rx = Some(p.dirs(false).1);
        p.stage = "second";
    }
    if matches!(l, "fin" | "badfin") && p.server && p.th_server_fin.is_none() {
        p.th_server_fin = Some(p.transcript.clone());
        let t = p.transcript.clone();
        if let Some(k) = p.ks.as_mut() {
            k.app(&t);
        }
    }
}
fn clear(p: &mut Peer, w: &mut World, ct: u8, b: &[u8]) {
    p.frame_out(w);
    let t = p.tx.take();
    p.put(w, ct, b);
    p.tx = t;
}
fn small(p: &mut Peer, w: &mut World, i: It) {
    match i {
        It::Ccs(b) => {
            p.frame_out(w);
            p.out.extend_from_slice(&rec(20, &b));
        }
        It::E(ct, b) => {
            p.frame_out(w);
            p.put(w, ct, &b);
        }
        It::Clear(ct, b) => clear(p, w, ct, &b),
        It::Zeros(n) => {
            p.frame_out(w);
            if let Some(d) = p.tx.as_mut() {
                let r = d.seal(0, &vec![0; n], 0);
                p.out.extend_from_slice(&r);
            } else {
                p.put(w, 22, &[]);
            }
        }
        It::D(n) => {
            p.frame_out(w);
            let my = p.server as usize;
            let d = p.script.content(my, p.sent, n);
            p.sent += n;
            p.put(w, 23, &d);
        }
        _ => {}
    }
}
fn step(i: It) -> Step {
    match i {
        It::KeyAp => Step::KeyAp,
        It::Go => Step::Go,
        It::KeyHs => Step::Fun(Box::new(|p, w| {
            p.frame_out(w);
            if p.ks.is_some() {
                p.tx = Some(p.dirs(false).0);
            }
        })),
        It::M(l, ty, th, put) => Step::Fun(Box::new(move |p, w| {
            let mut b = maker(p, l);
            if let Some(t) = ty {
                b[0] = t;
            }
            note(p, l, &b, th);
            match put {
                Put::Normal => p.pend.push(b),
                Put::As(ct) => {
                    p.frame_out(w);
                    for c in b.chunks(MAX_PLAIN) {
                        p.put(w, ct, c);
                    }
                }
                Put::Outer(o) => {
                    p.frame_out(w);
                    for c in b.chunks(MAX_PLAIN) {
                        match p.tx.as_mut() {
                            Some(d) => {
                                let r = d.seal_as(o, 22, c, 0);
                                p.out.extend_from_slice(&r);
                            }
                            None => p.put(w, o, c),
                        }
                    }
                }
                Put::Clear(ct) => {
                    for c in b.chunks(MAX_PLAIN) {
                        clear(p, w, ct, c);
                    }
                }
                Put::Cut(f, between) => {
                    p.frame_out(w);
                    let n = ((b.len() as u64 * f / 1000) as usize).clamp(1, b.len() - 1);
                    for c in b[..n].chunks(MAX_PLAIN) {
                        p.put(w, 22, c);
                    }
                    for x in between {
                        small(p, w, x);
                    }
                    for c in b[n..].chunks(MAX_PLAIN) {
                        p.put(w, 22, c);
                    }
                }
                Put::Rest(n) => {
                    let n = n.min(b.len());
                    if n < b.len() {
                        p.pend.push(b[n..].to_vec());
                    }
                }
            }
        })),
        It::BadFin(k, x) => Step::Fun(Box::new(move |p, _| {
            let good = maker(p, "fin");
            let mut v = good[4..].to_vec();
            let bit = (x as usize) % (8 * v.len());
            match k {
                0 => v[bit / 8] ^= 1 << (bit % 8),
                1 => v.truncate(bit / 8),
                2 => v.push(x as u8),
                3 => v.fill(0),
                4 => v = Rng::new(x).bytes(v.len()),
                5 => v.reverse(),
                6 => {
                    let n = 1 + bit / 8 % (v.len() - 1);
                    v.rotate_left(n);
                }
                7 => {
                    // that of the other side
                    if let Some(k) = p.ks.as_ref() {
                        let other = if p.server { &k.c_hs } else { &k.s_hs };
                        v = finished(k.suite, other, &p.transcript);
                    }
                }
                _ => {
                    // two bytes that cancel each other
                    let j = (bit / 8 + 1 + (x >> 32) as usize % (v.len() - 1)) % v.len();
                    v[bit / 8] ^= 1 << (bit % 8);
                    v[j] ^= 1 << (bit % 8);
                }
            }
            if v == good[4..] {
                v[0] ^= 1;
            }
            let b = hs(FIN, &v);
            note(p, "badfin", &b, true);
            p.pend.push(b);
        })),
        It::X(t, body, th) => Step::Fun(Box::new(move |p, _| {
            let b = hs(t, &body);
            note(p, "extra", &b, th);
            p.pend.push(b);
        })),
        It::Glue(l, tail, one) => Step::Fun(Box::new(move |p, w| {
            let b = maker(p, l);
            note(p, l, &b, true);
            p.frame_out(w);
            if one {
                for c in [b, tail].concat().chunks(MAX_PLAIN) {
                    p.put(w, 22, c);
                }
            } else {
                for c in b.chunks(MAX_PLAIN).chain(tail.chunks(MAX_PLAIN)) {
                    p.put(w, 22, c);
                }
            }
        })),
        It::GlueEe(n, one) => Step::Fun(Box::new(move |p, w| {
            let b = maker(p, "sh");
            note(p, "sh", &b, true);
            let e = p.mk_ee();
            let e = &e[..n.min(e.len())];
            p.frame_out(w);
            if one {
                p.put(w, 22, &[&b, e].concat());
            } else {
                p.put(w, 22, &b);
                p.put(w, 22, e);
            }
        })),
        i => Step::Fun(Box::new(move |p, w| small(p, w, i))),
    }
}
const TYPES: [u8; 20] = [0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 14, 15, 16, 20, 21, 22, 24, 25, 254];
fn extra(r: &mut Rng) -> It {
    let t = if r.below(12) == 0 { r.next() as u8 } else { TYPES[r.below(TYPES.len() as u64) as usize] };
    let body = match (t, r.below(4)) {
        (_, 0) => vec![],
        (_, 1) => {
            let n = 1 + r.below(80) as usize;
            r.bytes(n)
        }
        (NST, _) => [vec![0, 0, 14, 16, 1, 2, 3, 4], v8(&[0]), v16(&r.bytes(32)), vec![0, 0]].concat(),
        (EE, _) => vec![0, 0],
        (CREQ, _) => [v8(&[]), exts(&[ext(13, &v16(&[4, 3]))])].concat(),
        (CERT, _) => vec![0, 0, 0, 0],
        (CV, _) => [vec![4, 3], v16(&r.bytes(70))].concat(),
        (FIN, _) => r.bytes(32),
        (24, _) => vec![r.below(2) as u8],
        (_, n) => r.bytes(n as usize),
    };
    It::X(t, body, r.below(2) == 0)
}
fn bad_ccs(r: &mut Rng) -> It {
    It::Ccs(match r.below(7) {
        0 => vec![0],
        1 => vec![2],
        2 => vec![1, 1],
        3 => vec![],
        4 => vec![r.next() as u8],
        5 => vec![1, 0],
        _ => vec![1],
    })
}
fn noise(r: &mut Rng) -> It {
    match r.below(8) {
        0 => bad_ccs(r),
        1 => It::Ccs(vec![1]),
        2 => It::E(22, vec![]),
        3 => It::E(23, [&b""[..], b"early data"][r.below(2) as usize].to_vec()),
        4 => It::E([0u8, 19, 20, 24, 25, 255][r.below(6) as usize], vec![[0u8, 1, 22][r.below(3) as usize]]),
        5 => It::Zeros([0, 1, 16, 1000][r.below(4) as usize]),
        6 => It::Clear([22u8, 23, 24][r.below(3) as usize], vec![[1u8, 0, 20][r.below(3) as usize]; [0, 1, 4, 36][r.below(4) as usize]]),
        _ => It::E(20, vec![1]),
    }
}
fn is_msg(i: &It) -> bool {
    matches!(i, It::M(..))
}
/// one change of the sequence; `lo`: no change in front of this item
fn edit(v: &mut Vec<It>, server: bool, r: &mut Rng) -> String {
    let ms: Vec<usize> = (0..v.len()).filter(|i| is_msg(&v[*i])).collect();
    if ms.is_empty() {
        v.push(extra(r));
        return "extra".into();
    }
    let i = ms[r.below(ms.len() as u64) as usize];
    let label = |x: &It| match x {
        It::M(l, ..) => *l,
        _ => "",
    };
    let l = label(&v[i]);
    // where something may be put in: anywhere up to behind the last message
    let any = |r: &mut Rng| r.below(ms[ms.len() - 1] as u64 + 1) as usize;
    match r.below(14) {
        13 => {
            let k = r.below(9);
            match v.iter().position(|x| matches!(x, It::M("fin", ..))) {
                Some(f) => {
                    v[f] = It::BadFin(k, r.next());
                    format!("wrong fin {k}")
                }
                None => {
                    let x = noise(r);
                    v.insert(i, x);
                    "noise".into()
                }
            }
        }
        0 => {
            v.remove(i);
            format!("no {l}")
        }
        1 => {
            let at = if r.below(2) == 0 { i + 1 } else { i + 1 + r.below((v.len() - i) as u64) as usize };
            let x = v[i].clone();
            v.insert(at.min(v.len()), x);
            format!("{l} twice")
        }
        2 => {
            let j = ms[r.below(ms.len() as u64) as usize];
            let s = format!("{l} and {} swapped", label(&v[j]));
            v.swap(i, j);
            s
        }
        3 => {
            let x = extra(r);
            let s = format!("{x:?}");
            let at = any(r);
            v.insert(at, x);
            s[..s.len().min(6)].to_string()
        }
        4 | 5 => {
            // the right message under the wrong name
            let t = if r.below(3) == 0 { r.next() as u8 } else { TYPES[r.below(TYPES.len() as u64) as usize] };
            if let It::M(_, ty, ..) = &mut v[i] {
                *ty = Some(t);
            }
            format!("{l} as type {t}")
        }
        6 => {
            let x = bad_ccs(r);
            let s = format!("{x:?}");
            let at = any(r);
            v.insert(at, x);
            s
        }
        7 => {
            let ct = [20u8, 21, 23, 23, 23, 24, 0, 255][r.below(8) as usize];
            let o = r.below(3);
            if let It::M(.., put) = &mut v[i] {
                *put = if o == 0 { Put::Outer([22u8, 21, 20, 24, 0][r.below(5) as usize]) } else { Put::As(ct) };
            }
            format!("{l} in a record of another type ({ct},{o})")
        }
        8 => {
            if let It::M(.., put) = &mut v[i] {
                *put = Put::Clear(if r.below(4) == 0 { 23 } else { 22 });
            }
            format!("{l} unprotected")
        }
        9 => {
            let f = r.below(1001);
            let b = (0..1 + r.below(2)).map(|_| noise(r)).collect();
            let s = format!("{b:?}");
            if let It::M(.., put) = &mut v[i] {
                *put = Put::Cut(f, b);
            }
            format!("{s} within {l}")
        }
        10 => {
            let x = noise(r);
            let s = format!("{x:?}");
            let at = any(r);
            v.insert(at, x);
            s
        }
        11 => {
            // bytes on the wrong side of a change of keys
            let one = r.below(3) > 0;
            let k = r.below(2);
            let fin = v.iter().position(|x| matches!(x, It::M("fin", ..)));
            let sh = v.iter().position(|x| matches!(x, It::M("sh", ..)));
            match (sh, fin) {
                (Some(a), _) if server && k == 0 => {
                    let n = [1, 2, 3, 4, 5, 6, 100][r.below(7) as usize];
                    v[a] = It::GlueEe(n, one);
                    if r.below(4) > 0 {
                        if let Some(It::M("ee", _, _, put)) = v.iter_mut().find(|x| matches!(x, It::M("ee", ..))) {
                            *put = Put::Rest(n);
                        }
                    }
                    format!("{n} bytes of ee with sh, one record: {one}")
                }
                (_, Some(f)) => {
                    let t = [NST, 24, EE, FIN, 0][r.below(5) as usize];
                    let b = r.bytes(3);
                    let mut m = hs(t, &b);
                    if r.below(2) == 0 {
                        m.truncate(1 + r.below(m.len() as u64) as usize);
                    }
                    v[f] = It::Glue("fin", m, true);
                    "bytes behind fin".into()
                }
                _ => {
                    let m = [&[CERT][..], &[FIN], &[FIN, 0, 0], &[CV, 0], &[0, 0, 0, 0]][r.below(5) as usize].to_vec();
                    v[i] = It::Glue(l, m, true);
                    format!("bytes behind {l}")
                }
            }
        }
        _ => {
            // a key change at the wrong place
            let k = v.iter().position(|x| matches!(x, It::KeyHs));
            let a = v.iter().position(|x| matches!(x, It::KeyAp));
            match (k, a) {
                (Some(k), _) if r.below(2) == 0 => {
                    let x = v.remove(k);
                    let at = (k + 1 + r.below(3) as usize).min(v.len());
                    v.insert(at, x);
                    "keys changed late".into()
                }
                (_, Some(a)) => {
                    let x = v.remove(a);
                    let at = a.saturating_sub(1 + r.below(2) as usize);
                    v.insert(at, x);
                    "keys changed early".into()
                }
                _ => {
                    let x = noise(r);
                    v.insert(i, x);
                    "noise".into()
                }
            }
        }
    }
}
pub fn sequence() {
    let topo = 1 + c("topo", 2);
    let server = topo == 1; // the peer is the server
    let mut o = One::new(topo);
    o.knobs = net_knobs();
    o.knobs.sndcap = usize::MAX;
    let m = o.mat;
    o.script = gen_script(usize::MAX, false);
    o.script.extra = None;
    let mut r = rs("st.rng");
    let mut auth = false;
    let mut p = if server {
        if yes("clicert", 1, 2) {
            o.client_cert(&m.ccert, &m.ckey);
        }
        honest_server(m, None)
    } else {
        auth = yes("auth", 3, 5);
        if auth {
            good_client(&mut o)
        } else {
            let mut p = honest_client(pk("rich", &[60, 40]) as u64, None);
            // a certificate nobody asked for
            p.chain = vec![m.ccert.clone()];
            p.key = Some(m.ckey.clone());
            p
        }
    };
    p.half_rtt = false;
    p.expect_cert = None;
    p.expect_point = None;
    // the plan
    let mode = pk("st.mode", &[16, 60, 12, 14]); // control, one edit, two edits, after the handshake
    let mut first: Vec<It> = vec![];
    let mut v: Vec<It> = vec![];
    let mm = |l: &'static str| It::M(l, None, true, Put::Normal);
    if server {
        v.push(mm("sh"));
        if p.frame.ccs {
            v.push(It::Ccs(vec![1]));
        }
        v.push(It::KeyHs);
        v.push(mm("ee"));
        if p.creq.is_some() {
            v.push(mm("creq"));
        }
        v.extend([mm("cert"), mm("cv"), mm("fin")]);
    } else {
        first.push(mm("ch"));
        if p.frame.ccs {
            v.push(It::Ccs(vec![1]));
        }
        v.push(It::KeyHs);
        if auth {
            v.extend([mm("cert"), mm("cv")]);
        }
        v.push(mm("fin"));
    }
    v.push(It::KeyAp);
    let mut what = vec![];
    let mut total = 0;
    match mode {
        0 => v.push(It::Go),
        3 => {
            // a legal handshake, then data with something illegal in it
            let my = server as usize;
            total = 1 + r.below(400) as usize;
            let a = r.below(total as u64) as usize;
            o.script = Script { rounds: vec![Round { len: [0, 0] }], seed: r.next(), ..o.script };
            o.script.rounds[0].len[my] = total;
            let ac = if server { &mut o.ac } else { &mut o.asv };
            ac.post = r.below(4) as usize;
            ac.post_write = r.below(3) == 0;
            let mut cut = |v: &mut Vec<It>, n: usize| {
                let mut n = n;
                while n > 0 {
                    let k = 1 + r.below(n as u64) as usize;
                    v.push(It::D(k));
                    n -= k;
                }
            };
            cut(&mut v, a);
            let at = v.len();
            cut(&mut v, total - a);
            let x = match r.below(9) {
                0 => It::Ccs(vec![1]),
                1 => bad_ccs(&mut r),
                2 => It::E(20, vec![1]),
                3 => It::E(22, vec![]),
                4 => It::X([FIN, CH, SH, EE, CERT, CV, 0, 254][r.below(8) as usize], r.bytes(32), false),
                5 => It::Zeros([0, 1, 20, 300][r.below(4) as usize]),
                6 => It::E([0u8, 19, 24, 25, 255][r.below(5) as usize], r.bytes(9)),
                7 => It::Clear([22u8, 23, 24, 0, 255][r.below(5) as usize], r.bytes(20)),
                _ => It::Clear(22, hs([CH, FIN, NST, 24][r.below(4) as usize], &r.bytes(8))),
            };
            what.push(format!("later {x:?}").chars().take(12).collect::<String>());
            v.insert(at, x);
        }
        n => {
            for _ in 0..n {
                if !server && r.below(12) == 0 && first.len() == 1 {
                    // the next message begins in the clear already
                    let h = p.ch.suites.first().is_some_and(|s| *s == 0x1302);
                    let b = if auth { vec![CERT] } else { vec![FIN, 0, 0, if h { 48 } else { 32 }] };
                    let b = b[..1 + r.below(b.len() as u64) as usize].to_vec();
                    if let Some(It::M(.., put)) = v.iter_mut().find(|x| is_msg(x)) {
                        *put = Put::Rest(b.len());
                    }
                    what.push("message begun in the clear".into());
                    first[0] = It::Glue("ch", b, r.below(4) > 0);
                } else if !server && r.below(3) == 0 {
                    what.push(edit(&mut first, server, &mut r));
                } else {
                    what.push(edit(&mut v, server, &mut r));
                }
            }
            v.push(It::Go);
        }
    }
    let what = what.join(", ");
    if !first.is_empty() || mode == 1 || mode == 2 {
        p.on_start = first.into_iter().map(step).collect();
        if !server && p.on_start.is_empty() {
            p.on_start.push(Step::Flush);
        }
    }
    // foreign messages may stand where their type is expected, but do not prove anything
    let honest = !v.iter().any(|x| matches!(x, It::X(..) | It::BadFin(..)));
    let steps: Vec<Step> = v.into_iter().map(step).collect();
    p.flight = Some(Box::new(move |_| steps));
    p.ignore_bad = mode != 0;
    p.end = if mode == 0 { PeerEnd::Linger } else { of("st.end", &[PeerEnd::Linger, PeerEnd::Close]) };
    o.peer = Some(p);
    if mode > 0 {
        w().count("peer.sequence");
    }
    let mut l = launch(o);
    settle(&mut l);
    let e = if server { l.c.as_ref() } else { l.s.as_ref() };
    let Some(e) = e else { return };
    let res = out(e.o);
    let b = rx_bytes(e.conn, e.side);
    let sent = w().conns[e.conn].ends[1 - e.side].tx.clone();
    let ks = w().node::<Peer>(l.peer.unwrap()).ks.clone();
    let my = |k: &Ks, app: bool| {
        let s = match (server, app) {
            (true, false) => &k.s_hs,
            (true, true) => &k.s_ap,
            (false, false) => &k.c_hs,
            (false, true) => &k.c_ap,
        };
        Dir::new(k.suite, s)
    };
    let wrong = w().node::<Peer>(l.peer.unwrap()).sent_msgs.iter().find(|m| m.1.first() == Some(&FIN)).is_some_and(|m| m.0 == "badfin");
    if wrong {
        w().probe("sequence.wrong_fin");
    }
    let v = receive(&b, server, auth, ks.as_ref().map(|k| my(k, false)));
    let whole = receive(&sent, server, auth, ks.as_ref().map(|k| my(k, false)));
    w().probe(format!("sequence.{}", match &whole {
        Lv::Done(_) => "legal".to_string(),
        Lv::More => "incomplete".to_string(),
        Lv::Bad(s) => {
            // unknown types are all the same
            let t: Vec<&str> = s.split(" [").next().unwrap_or("").split(' ').collect();
            let l: Vec<&str> = t.iter().map(|x| match x.parse::<u64>() {
                Ok(n) if n > 25 || (n == 0 || n > 3) && s.contains("behind") => "n",
                _ => x,
            }).collect();
            l.join(" ")
        }
    }));
    if res.hs == Some(Ok(())) {
        match &v {
            Lv::Done(_) if wrong => viol(&["C19"], "accepted", format!("{} completed the handshake although the Finished message does not verify ({what})", res.name)),
            Lv::Done(n) => {
                if let (Some(k), 3) = (&ks, mode) {
                    let (data, stop) = receive_app(&sent[*n..], my(k, true));
                    if res.rx.len() > data.len() || res.rx[..] != data[..res.rx.len()] {
                        viol(&["C19"], "went_on", format!("{} delivered {} bytes, {} were in front of {stop:?} ({what})", res.name, res.rx.len(), data.len()));
                    }
                    if stop.is_some() && data.len() < total && res.err.is_none() && res.done {
                        viol(&["C19"], "no_error", format!("{} reported no error at {stop:?} ({what})", res.name));
                    }
                }
            }
            v => viol(&["C19"], "accepted", format!("{} completed the handshake although: {v:?} ({what})", res.name)),
        }
    } else if honest && matches!(whole, Lv::Done(_)) {
        viol(&["C19"], "refused", format!("{} failed with {:?} on a legal sequence ({what})", res.name, res.hs));
    }
    if mode == 0 {
        must_succeed(&l, &["C19"], &[]);
    }
    panics(&[]);
    audit_all(&l, |_| AuditOpts::default());
}
fn good_client(o: &mut One) -> Peer {
    let mut r = Rng::new(1);
    let p = crate::s_evil::good_client_setup(o, &mut r);
    o.srv.verify = o.srv.verify.min(1);
    p
}
