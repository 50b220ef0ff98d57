//! The real code under simulation: tasks that call the public API.
use crate::os;
use crate::reftls::*;
use crate::tape::{mix, Rng};
use crate::world::*;
use anothertls::net::TlsStream;
use anothertls::rand::PRNG;
use anothertls::utils::x509::X509;
use anothertls::*;
use std::net::{TcpListener, TcpStream};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub name: String,
    pub server: bool,
    pub started: bool,
    pub hs: Option<Result<(), String>>,
    pub port: u16,
    pub rx: Vec<u8>,
    pub rx_calls: usize,
    pub wrote: usize,
    pub err: Option<(char, String)>,
    pub post: Vec<Result<usize, String>>,
    pub extra: Option<Result<usize, String>>,
    pub zero_reads: usize,
    /// bytes sent when the handshake was complete
    pub tx0: usize,
    /// reads repeated after a timeout of the socket
    pub retries: usize,
    pub script_done: bool,
    pub done: bool,
    pub hs_time: u64,
    /// simulated time and wall clock second at the start and the end of connect or accept
    pub t0: u64,
    pub w0: i64,
    pub w1: i64,
    pub cfg_ok: bool,
    pub conn: Option<usize>,
    /// bytes the accepting thread held after this accept returned an error
    pub live: i64,
    /// bytes and descriptors the thread held when this connection was over, stream dropped
    pub after: i64,
    pub held: usize,
    pub cfg: Option<String>, // configuration refused
}
static OUTS: Mutex<Vec<Out>> = Mutex::new(vec![]);
pub fn reset() {
    OUTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    VERIFY_CALLS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    *SHARED.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
pub fn new_out(name: &str, server: bool) -> usize {
    let mut o = OUTS.lock().unwrap_or_else(|e| e.into_inner());
    o.push(Out { name: name.into(), server, ..Default::default() });
    o.len() - 1
}
pub fn out(i: usize) -> Out {
    OUTS.lock().unwrap_or_else(|e| e.into_inner())[i].clone()
}
pub fn outs() -> Vec<Out> {
    OUTS.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
pub fn upd(i: usize, f: impl FnOnce(&mut Out)) {
    os::outside(|| f(&mut OUTS.lock().unwrap_or_else(|e| e.into_inner())[i]));
}

#[derive(Clone, Debug, Default)]
pub struct CliOpts {
    pub sni: Option<String>,
    pub cert: Option<(String, String)>,
    pub keylog: Option<String>,
    /// the configuration object of the connection before, if there is one
    pub share: bool,
}
#[derive(Clone, Debug, Default)]
pub struct SrvOpts {
    pub cert: String,
    pub key: String,
    pub ca: Option<String>,
    pub verify: u8, // 0 none, 1 accept all, 2 only subjects starting with "good", 3 refuse all, 4 as REVOKED says
    pub sni: Option<String>,
    pub keylog: Option<String>,
    pub simple: bool,
}
pub static VERIFY_CALLS: Mutex<Vec<(String, bool)>> = Mutex::new(vec![]);
fn cn(c: &X509) -> String {
    c.tbs_certificate.subject.get("commonName").map(|s| s.to_string()).unwrap_or_default()
}
fn note_verify(c: &X509, r: bool) -> bool {
    let n = cn(c);
    os::outside(|| VERIFY_CALLS.lock().unwrap_or_else(|e| e.into_inner()).push((n.to_string(), r)));
    r
}
fn v_all(c: &X509) -> bool {
    note_verify(c, true)
}
fn v_good(c: &X509) -> bool {
    let r = cn(c).starts_with("good");
    note_verify(c, r)
}
fn v_none(c: &X509) -> bool {
    note_verify(c, false)
}

/// verdict of the function right now
pub static REVOKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn v_now(c: &X509) -> bool {
    note_verify(c, !REVOKED.load(std::sync::atomic::Ordering::SeqCst))
}

/// the log file that the builder uses by default stands for this one
fn log_default(server: bool, path: &str) -> bool {
    let x = || matches!(&w().log_alias, Some((s, p)) if *s == server && p == path);
    os::outside(x)
}
pub fn client_cfg(o: &CliOpts) -> Result<anothertls::net::client::ClientConfig, String> {
    let mut b = ClientConfigBuilder::new();
    // any order of the calls
    let order = w().cfg_order;
    for i in 0..4 {
        match (i + order) % 4 {
            0 => {
                if let Some(s) = &o.sni {
                    b = b.set_server_name(s.clone());
                }
            }
            1 => {
                if let Some((c, k)) = &o.cert {
                    if order & 4 == 0 {
                        b = b.add_client_cert_pem(c.clone()).add_client_key_pem(k.clone());
                    } else {
                        b = b.add_client_key_pem(k.clone()).add_client_cert_pem(c.clone());
                    }
                }
            }
            2 => {
                if let Some(k) = &o.keylog {
                    b = if log_default(false, k) { b.enable_keylog() } else { b.set_keylog_path(k.clone()) };
                }
            }
            _ => {}
        }
    }
    b.build()
}
pub fn server_cfg(o: &SrvOpts) -> Result<anothertls::net::server::ServerConfig, String> {
    let mut b = ServerConfigBuilder::new();
    let order = w().cfg_order;
    for i in 0..5 {
        match (i + order) % 5 {
            0 => {
                if order & 8 == 0 {
                    b = b.add_cert_pem(o.cert.clone()).add_privkey_pem(o.key.clone());
                } else {
                    b = b.add_privkey_pem(o.key.clone()).add_cert_pem(o.cert.clone());
                }
            }
            1 => {
                if let Some(c) = &o.ca {
                    b = b.add_client_cert_ca(c.clone());
                }
            }
            2 => match o.verify {
                1 => b = b.set_client_cert_custom_verify_fn(v_all),
                2 => b = b.set_client_cert_custom_verify_fn(v_good),
                3 => b = b.set_client_cert_custom_verify_fn(v_none),
                4 => b = b.set_client_cert_custom_verify_fn(v_now),
                _ => {}
            },
            3 => {
                if let Some(s) = &o.sni {
                    b = b.set_server_name(s.clone());
                }
                if o.simple {
                    b = b.set_prng(PRNG::Simple);
                }
            }
            _ => {
                if let Some(k) = &o.keylog {
                    b = if log_default(true, k) { b.enable_keylog() } else { b.set_keylog_path(k.clone()) };
                }
            }
        }
    }
    b.build()
}

#[derive(Clone, Debug)]
pub struct After {
    /// further reads after the first failing read
    pub post: usize,
    /// close immediately after the handshake
    pub drop_now: bool,
    /// pause (simulated ns) before the script starts
    pub pause: u64,
    /// one more write after the first failing read
    pub post_write: bool,
    /// the application gives its socket a read timeout (ns) after the handshake and repeats reads
    /// that fail because of it
    pub timeo: u64,
    /// sends fail once at these offsets (counted from the end of the handshake) ...
    pub wbreaks: Vec<usize>,
    /// ... and the application repeats that many failing writes
    pub wretry: usize,
}
impl Default for After {
    fn default() -> Self {
        After { post: 0, drop_now: false, pause: 0, post_write: false, timeo: 0, wbreaks: vec![], wretry: 0 }
    }
}
fn pause(ns: u64) {
    if ns > 0 {
        std::thread::sleep(std::time::Duration::from_nanos(ns));
    }
}
pub fn run_script(s: &mut TlsStream, my: usize, sc: &Script, o: usize, af: &After) {
    pause(af.pause);
    let mut rng = Rng::new(mix(sc.seed ^ 0x5157 ^ ((my as u64) << 8)));
    let mut wrote = 0usize;
    let mut got = 0usize;
    let mut buf = os::outside(|| vec![0u8; 1 << 20]);
    let mut need = 0usize;
    let mut tries = 0;
    let timed = out(o).conn.filter(|_| af.timeo > 0).map(|cn| (cn, my));
    if let Some((cn, sd)) = timed {
        w().conns[cn].ends[sd].rcvtimeo = af.timeo;
    }
    let mut wretry = af.wretry;
    if let Some(cn) = out(o).conn {
        let e = &mut w().conns[cn].ends[my];
        upd(o, |x| x.tx0 = e.tx.len());
        os::outside(|| e.tx_break.extend(af.wbreaks.iter().map(|b| b + e.tx.len())));
    }
    'all: for (ri, r) in sc.rounds.iter().enumerate() {
        let mut left = r.len[my];
        let mut n_w = 0;
        let mut zero = 0;
        while left > 0 {
            let mut l = if n_w > 300 && sc.wmode[my] != TINY { left } else { write_size(sc.wmode[my], &mut rng, left) };
            if l == 0 {
                zero += 1;
                if zero > 3 {
                    l = left.min(64);
                }
            }
            let d = os::outside(|| sc.content(my, wrote, l));
            match s.tls_write(&d) {
                Ok(()) => {
                    wrote += l;
                    left -= l;
                    n_w += 1;
                    upd(o, |x| x.wrote = wrote);
                }
                Err(e) => {
                    let e = os::outside(|| format!("{e:?}"));
                    if wretry > 0 {
                        wretry -= 1;
                        // the application can not know how much of it was sent
                        wrote += l;
                        left -= l;
                        os::outside(|| drop((d, e)));
                        continue;
                    }
                    upd(o, |x| x.err = Some(('w', e)));
                    os::outside(|| drop(d));
                    break 'all;
                }
            }
            os::outside(|| drop(d));
        }
        need += r.len[1 - my];
        let _ = ri;
        let mut zeros = 0;
        while got < need {
            let n = read_size(sc.rmode[my], &mut rng).min(buf.len());
            // was there nothing left to wait for before this call?
            let ended = timed.is_some_and(|(cn, sd)| {
                let end = &w().conns[cn].ends[sd];
                end.rst || end.fin && end.rx.is_empty()
            });
            match s.tls_read(&mut buf[..n]) {
                Ok(0) => {
                    zeros += 1;
                    upd(o, |x| x.zero_reads += 1);
                    if zeros > 5000 {
                        upd(o, |x| x.err = Some(('r', "endless empty reads".into())));
                        break 'all;
                    }
                }
                Ok(k) => {
                    got += k;
                    upd(o, |x| {
                        x.rx_calls += 1;
                        if k > n {
                            x.err = Some(('r', "read returned more than the buffer holds".into()));
                        } else {
                            x.rx.extend_from_slice(&buf[..k]);
                        }
                    });
                    if k > n {
                        break 'all;
                    }
                }
                Err(e) => {
                    let e = os::outside(|| format!("{e:?}"));
                    if timed.is_some() {
                        if e == "BrokenPipe" && !ended && tries < 30_000 {
                            tries += 1;
                            upd(o, |x| x.retries = tries);
                            continue;
                        }
                    }
                    upd(o, |x| x.err = Some(('r', e)));
                    if af.post_write {
                        let _ = s.tls_write(b"one more");
                    }
                    for _ in 0..af.post {
                        let n = read_size(sc.rmode[my], &mut rng).min(buf.len());
                        let r = s.tls_read(&mut buf[..n]);
                        upd(o, |x| {
                            x.post.push(match r {
                                Ok(k) => {
                                    x.rx.extend_from_slice(&buf[..k.min(n)]);
                                    Ok(k)
                                }
                                Err(e) => Err(format!("{e:?}")),
                            })
                        });
                    }
                    break 'all;
                }
            }
        }
    }
    let ok = out(o).err.is_none();
    upd(o, |x| x.script_done = x.err.is_none());
    if ok && sc.extra == Some(my) {
        // data must not appear, the end of the stream must be an error; empty records may surface as Ok(0)
        let mut k = 0;
        loop {
            let r = s.tls_read(&mut buf[..1000]);
            k += 1;
            let stop = !matches!(r, Ok(0)) || k > 3000;
            let v = match r {
                Ok(n) => Ok(n),
                Err(e) => os::outside(|| Err(format!("{e:?}"))),
            };
            if stop {
                upd(o, |x| x.extra = Some(v));
                break;
            }
        }
        for _ in 0..af.post {
            let r = s.tls_read(&mut buf[..1000]);
            upd(o, |x| x.post.push(r.map_err(|e| format!("{e:?}"))));
        }
    }
    os::outside(|| drop(buf));
}

struct Shared(Arc<anothertls::net::client::ClientConfig>);
unsafe impl Send for Shared {}
static SHARED: Mutex<Option<Shared>> = Mutex::new(None);
fn shared_cfg(o: &CliOpts) -> Result<Arc<anothertls::net::client::ClientConfig>, String> {
    if !o.share {
        return client_cfg(o).map(Arc::new);
    }
    let old = SHARED.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map(|x| x.0.clone());
    if let Some(c) = old {
        return Ok(c);
    }
    let c = Arc::new(client_cfg(o)?);
    *SHARED.lock().unwrap_or_else(|e| e.into_inner()) = Some(Shared(c.clone()));
    Ok(c)
}
pub struct Dial {
    pub fd: i32,
    pub o: usize,
    pub opts: CliOpts,
    pub sc: Script,
    pub af: After,
}
pub fn spawn_client(name: &str, fd: i32, o: usize, opts: &CliOpts, sc: &Script, af: &After) -> Tid {
    spawn_clients(name, vec![Dial { fd, o, opts: opts.clone(), sc: sc.clone(), af: af.clone() }])
}
/// one thread that connects several times, one after the other
pub fn spawn_clients(name: &str, list: Vec<Dial>) -> Tid {
    for d in &list {
        let conn = match w().fds.get(&d.fd) {
            Some(FdObj::Sock(c, _)) => Some(*c),
            _ => None,
        };
        upd(d.o, |x| x.conn = conn);
    }
    spawn(name, move || {
        for d in &list {
            let o = d.o;
            upd(o, |x| x.started = true);
            let cfg = match shared_cfg(&d.opts) {
                Ok(c) => c,
                Err(e) => {
                    upd(o, |x| {
                        x.cfg = Some(e);
                        x.done = true
                    });
                    continue;
                }
            };
            upd(o, |x| {
                x.cfg_ok = true;
                x.t0 = w().now;
                x.w0 = w().wall().0;
            });
            let sock = unsafe { TcpStream::from_raw_fd(d.fd) };
            let r = ClientConnection::connect(sock, &cfg);
            finish_hs(r, 0, &d.sc, o, &d.af);
        }
        os::outside(|| drop(list));
    })
}
fn finish_hs(r: Result<TlsStream, anothertls::net::alert::TlsError>, my: usize, sc: &Script, o: usize, af: &After) {
    match r {
        Ok(mut st) => {
            upd(o, |x| {
                x.hs = Some(Ok(()));
                x.hs_time = w().now;
                x.w1 = w().wall().0;
            });
            if !af.drop_now {
                run_script(&mut st, my, sc, o, af);
            }
            drop(st);
        }
        Err(e) => {
            let e = os::outside(|| format!("{e:?}"));
            upd(o, |x| {
                x.hs = Some(Err(e));
                x.hs_time = w().now;
                x.w1 = w().wall().0;
            });
        }
    }
    let live = os::live();
    upd(o, |x| {
        x.done = true;
        x.after = live;
        if let Some(t) = os::cur() {
            x.held = w().held(t);
        }
        if let Some(cn) = x.conn {
            if w().sock_open(cn, my) {
                let h = &x.hs;
                let m = format!("{}: the socket of connection {cn} is still open after hs={h:?} and the end of the stream", x.name);
                crate::env::viol(&["C20"], "socket_kept", m);
            }
        }
    });
}
/// when all is over: whatever the tasks went through, their sockets are closed, and once only
pub fn released() {
    for (t, fd) in w().bad_close.clone() {
        let n = w().tasks[t].name.clone();
        crate::env::viol(&["C20"], "closed_twice", format!("{n} closed descriptor {fd}, which was not open"));
    }
    let over: Vec<bool> = w().tasks.iter().map(|t| t.state == TState::Done).collect();
    for (fd, o) in w().fds.iter() {
        if let (FdObj::Sock(c, s), Some(t)) = (o, w().fd_owner.get(fd)) {
            if over[*t] {
                let n = w().tasks[*t].name.clone();
                crate::env::viol(&["C20"], "socket_kept", format!("{n} is over, its descriptor of side {s} of connection {c} is open"));
                break;
            }
        }
    }
    for o in outs() {
        if let (true, Some(c)) = (o.started && o.done, o.conn) {
            if w().sock_open(c, o.server as usize) {
                crate::env::viol(&["C20"], "socket_kept", format!("{}: the socket of connection {c} is open", o.name));
                break;
            }
        }
    }
}
/// a series of connections of one thread: nothing may pile up
pub fn no_growth(v: &[Out], what: &str) {
    if v.len() < 20 {
        return;
    }
    let (a, b) = (&v[4], &v[v.len() - 1]);
    let n = (v.len() - 5) as i64;
    // buffers that are kept for the next connections show as a few steps
    let (mut top, mut steps) = (a.after, 0);
    for x in &v[5..] {
        if x.after > top {
            top = x.after;
            steps += 1;
        }
    }
    if b.after - a.after > 16_384.min(128 * n) || (steps >= 4 && b.after - a.after > 20 * n) {
        let (x, y) = (a.after, b.after);
        crate::env::viol(&["C20"], "memory", format!("{} connections of {} left {} bytes behind ({what})", n, a.name, y - x));
    }
    if b.held > a.held + 2 {
        crate::env::viol(&["C20"], "descriptors", format!("{} connections of {} left {} descriptors open ({what})", n, a.name, b.held - a.held));
    }
}
pub type Srv = Arc<ServerConnection>;
/// build the server object (inside the simulated OS)
pub fn make_server(lfd: i32, opts: &SrvOpts) -> Option<Srv> {
    let opts = opts.clone();
    exec("cfg", move || {
        server_cfg(&opts).ok().map(|c| Arc::new(ServerConnection::new(unsafe { TcpListener::from_raw_fd(lfd) }, c)))
    })
    .flatten()
}
/// one thread that accepts `outs.len()` connections one after the other
pub fn spawn_server(name: &str, srv: &Srv, outs: &[usize], sc: &Script, af: &After) -> Tid {
    let scs = vec![sc.clone(); outs.len()];
    let afs = vec![af.clone(); outs.len()];
    spawn_server_with(name, srv, outs, move |_, i| (scs[i].clone(), afs[i].clone()))
}
/// the script of each connection is chosen by the accepted port
pub fn spawn_server_with(
    name: &str,
    srv: &Srv,
    outs: &[usize],
    pick: impl Fn(Option<u16>, usize) -> (Script, After) + Send + 'static,
) -> Tid {
    let srv = srv.clone();
    let outs = outs.to_vec();
    spawn(name, move || {
        for (i, o) in outs.iter().enumerate() {
            let o = *o;
            upd(o, |x| {
                x.started = true;
                x.t0 = w().now;
                x.w0 = w().wall().0;
            });
            let seen = w().accepted.len();
            let r = srv.accept();
            let port = r.as_ref().ok().map(|x| x.1.port());
            let live = os::live();
            let me = os::cur();
            upd(o, |x| {
                x.port = port.unwrap_or(0);
                x.live = live;
                // the connection that was taken from the listener
                x.conn = w().accepted[seen..].iter().rev().find(|a| Some(a.0) == me && a.2).map(|a| a.1);
            });
            let port = os::outside(|| out(o).conn.map(|c| c as u16 + 10_000));
            let (sc, af) = os::outside(|| pick(port, i));
            finish_hs(r.map(|x| x.0), 1, &sc, o, &af);
            os::outside(|| drop((sc, af)));
        }
        drop(srv);
        os::outside(|| drop(outs));
    })
}
