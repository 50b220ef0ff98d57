//! The simulated world: tasks, network, files, clock, RNG device, event queue.
use crate::os;
use crate::tape::{mix, Tape};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

pub type Tid = usize;
pub type NodeId = usize;
pub const FD_BASE: i32 = 0x4000_0000;
pub const NS: u64 = 1;
pub const MS: u64 = 1_000_000 * NS;
pub const SEC: u64 = 1000 * MS;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EPERM: i32 = 1;
pub const ENOMEM: i32 = 12;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;
pub const ENOENT: i32 = 2;
pub const EEXIST: i32 = 17;
pub const EISDIR: i32 = 21;
pub const ENFILE: i32 = 23;
pub const EPROTO: i32 = 71;
pub const ECONNABORTED: i32 = 103;
pub const ECONNRESET: i32 = 104;
pub const ETIMEDOUT: i32 = 110;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Wait {
    Rx(usize, usize),
    Tx(usize, usize),
    Accept(usize),
    Futex(usize),
    Lock(String),
    Sleep,
    User(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub enum TState {
    Runnable,
    Blocked(Wait),
    Done,
}
pub struct Task {
    pub name: String,
    pub state: TState,
    pub go: Arc<AtomicU32>,
    pub handle: Option<std::thread::JoinHandle<()>>,
    pub panic: Option<String>,
    pub timed_out: bool,
    pub syscalls: u64,
    pub rnd_key: u64,
    pub rnd_off: u64,
    pub alloc0: u64,
    pub peak: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Owner {
    None,
    Fd,
    Node(NodeId),
}
pub struct End {
    pub owner: Owner,
    pub rx: VecDeque<u8>,
    pub fin: bool,
    pub rst: bool,
    pub closed: bool,
    pub wr_shut: bool,
    pub rd_shut: bool,
    pub last_at: u64,   // last delivery time INTO this end
    pub inflight: usize, // bytes travelling into this end
    pub tx: Vec<u8>,    // everything this end sent (accepted by the kernel)
    pub rcv_total: u64, // everything delivered into this end
    pub rcvtimeo: u64,
    pub sndtimeo: u64,
    /// a send that reaches this offset of what was sent fails once (as after a send timeout)
    pub tx_break: VecDeque<usize>,
    pub tx_broke: Vec<usize>,
    pub nonblock: bool,
    pub fdrefs: u32,
    pub closed_at_tx: Option<usize>,
}
pub struct Conn {
    pub ends: [End; 2],
    pub hold: [bool; 2], // deliveries into this side are held back (stalled network)
    pub held: [Vec<Ev>; 2],
}
pub struct Listener {
    pub backlog: VecDeque<(usize, usize)>,
    pub errs: VecDeque<i32>,
    pub closed: bool,
    pub nonblock: bool,
}
#[derive(Clone, Debug)]
pub enum FdObj {
    Sock(usize, usize),
    Listener(usize),
    File { path: String, pos: usize, append: bool, rd: bool, wr: bool },
    Urandom { dead: bool, reads: u64 },
    Null,
}
pub enum Ev {
    Data(usize, usize, Vec<u8>),
    Fin(usize, usize),
    Rst(usize, usize),
    Timer(NodeId, u64),
    Wake(Tid, u64),
    Backlog(usize, usize, usize),
    Call(Box<dyn FnOnce(&mut World)>),
}
pub trait Node {
    fn start(&mut self, _w: &mut World, _me: NodeId) {}
    fn data(&mut self, w: &mut World, me: NodeId, conn: usize, side: usize, bytes: &[u8]);
    fn eof(&mut self, w: &mut World, me: NodeId, conn: usize, side: usize, rst: bool);
    fn timer(&mut self, _w: &mut World, _me: NodeId, _id: u64) {}
    fn any(&mut self) -> &mut dyn Any;
}
#[derive(Clone, Debug)]
pub struct Knobs {
    pub seg: u64,
    pub seg_k: u64,
    pub delay: u64,
    pub rd_short: u64, // per 1000
    pub wr_short: u64,
    pub eintr: u64,
    pub preempt: u64,
    /// longest run of allocations without a preemption (0: only at system calls)
    pub alloc_gap: u64,
    /// preemption between the basic blocks of the library: bits of the longest run of
    /// blocks without one (0: never)
    pub edge_gap: u64,
    pub sndcap: usize,
}
impl Knobs {
    pub fn plain() -> Self {
        Knobs { seg: 0, seg_k: 1, delay: 0, rd_short: 0, wr_short: 0, eintr: 0, preempt: 0, alloc_gap: 0, edge_gap: 0, sndcap: usize::MAX }
    }
}
#[derive(Clone, Debug, Default)]
pub struct FileKnobs {
    pub open_err: u64, // per 1000
    pub open_eintr: u64,
    pub rd_err: u64,
    pub rd_eintr: u64,
    pub rd_short: u64,
    pub rd_eof: u64,
    pub wr_err: u64,
    pub wr_eintr: u64,
    pub wr_short: u64,
}
impl FileKnobs {
    pub fn any(&self) -> bool {
        self.open_err + self.rd_err + self.rd_short + self.rd_eof + self.wr_err + self.wr_short + self.rd_eintr + self.wr_eintr + self.open_eintr > 0
    }
}
#[derive(Clone, Debug)]
pub struct FileWrite {
    pub tid: Tid,
    pub off: usize,
    pub data: Vec<u8>,
    pub append: bool,
    pub asked: usize,
}
#[derive(Default)]
pub struct Vfs {
    pub files: BTreeMap<String, Vec<u8>>,
    pub writes: BTreeMap<String, Vec<FileWrite>>,
    pub knobs: BTreeMap<&'static str, FileKnobs>, // class -> knobs
    pub locks: BTreeMap<String, i32>,
    pub fullat: BTreeMap<String, usize>, // capacity: ENOSPC beyond
    pub injected: BTreeMap<String, u64>, // faults injected per path
    pub injected_task: BTreeMap<Tid, Vec<&'static str>>,
}
pub fn path_class(p: &str) -> &'static str {
    if p == "/dev/urandom" || p == "/dev/random" {
        "rnd"
    } else if p.contains("keylog") {
        "keylog"
    } else {
        "pem"
    }
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End_ {
    AllDone,
    Stuck,
    Steps,
}

/// Overrides for the RNG device.
#[derive(Default, Clone)]
pub struct RndPlan {
    /// task -> stream key (default: unique per task)
    pub key: BTreeMap<Tid, u64>,
    /// (task, stream offset) -> xor
    pub flips: BTreeMap<(Tid, u64), u8>,
    /// getrandom-syscall style fills: same stream
    pub consumed: BTreeMap<Tid, u64>,
    /// constant device (all bytes equal)
    pub constant: Option<u8>,
    /// some blocks make a nonce whose signature is short (1), or that is above the group order (2)
    pub shape: u8,
    /// what goes wrong, by number of the operation (open or read) on the device within one task
    pub faults: BTreeMap<u64, RndFault>,
    pub ops: BTreeMap<Tid, u64>,
    /// faults of reading that were due when the device was opened
    pub late: BTreeMap<Tid, RndFault>,
    /// tasks the faults apply to (None: all)
    pub fault_tasks: Option<BTreeSet<Tid>>,
    pub hit: BTreeMap<Tid, Vec<&'static str>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RndFault {
    Err(i32),
    Short(usize),
    Eof,
    /// from here on nothing but the end of the file
    Dead,
}

pub struct World {
    pub tape: Tape,
    pub now: u64,
    /// who was waiting for input when nothing could happen any more: (conn, side, bytes sent by then)
    pub stuck_rx: Vec<(usize, usize, usize)>,
    pub wall0: i64, // seconds since 1970 at now=0
    pub wall_ns: i64,
    seq: u64,
    heap: BinaryHeap<std::cmp::Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub fds: BTreeMap<i32, FdObj>,
    next_fd: i32,
    pub vfs: Vfs,
    pub rnd: RndPlan,
    pub tasks: Vec<Task>,
    nodes: Vec<Option<Box<dyn Node>>>,
    pub k: Knobs,
    pub stats: BTreeMap<&'static str, u64>,
    pub loghash: u64,
    pub schedhash: u64,
    pub steps: u64,
    pub max_steps: u64,
    /// open files the process may have (0: any number)
    pub fd_limit: usize,
    pub fd_owner: std::collections::BTreeMap<i32, Tid>,
    /// closed although not open: (task, number)
    /// the default log file of the side that uses it (server?), and the file that it stands for
    pub log_alias: Option<(bool, String)>,
    /// order in which the builders are called
    pub cfg_order: u64,
    pub bad_close: Vec<(Tid, i32)>,
    pub trace: Option<Vec<String>>,
    pub viol: Option<Violation>,
    pub aborting: bool,
    pub stdout_bytes: u64,
    pub probes: BTreeSet<String>,
    pub driver_go: Arc<AtomicU32>,
    pub clock_reads: u64,
    pub clock_jump: Option<Box<dyn FnMut(&mut Tape, u64) -> i64>>, // may change wall offset at a clock read
    pub escapes: u64,
    pub accept_err: u64,
    pub note: Vec<String>,
    pub lastsched: String,
    /// which task took which connection from a listener, and whether accept reported it
    pub accepted: Vec<(Tid, usize, bool)>,
    /// wall clock seconds handed out: (task, time, seconds)
    pub clock_obs: Vec<(Tid, u64, i64)>,
    /// jumps of the wall clock: (time, second before, second after)
    pub jumps: Vec<(u64, i64, i64)>,
}

static mut WPTR: *mut World = std::ptr::null_mut();
pub fn w() -> &'static mut World {
    unsafe { &mut *WPTR }
}
pub fn install(world: Box<World>) {
    unsafe {
        if !WPTR.is_null() {
            drop(Box::from_raw(WPTR));
        }
        WPTR = Box::into_raw(world);
    }
}
pub fn uninstall() {
    unsafe {
        if !WPTR.is_null() {
            drop(Box::from_raw(WPTR));
        }
        WPTR = std::ptr::null_mut();
    }
}

impl World {
    pub fn new(tape: Tape) -> Box<World> {
        Box::new(World {
            tape,
            now: 0,
            stuck_rx: vec![],
            wall0: 1_790_000_000,
            wall_ns: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            evs: BTreeMap::new(),
            conns: vec![],
            listeners: vec![],
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            vfs: Vfs::default(),
            rnd: RndPlan::default(),
            tasks: vec![],
            nodes: vec![],
            k: Knobs::plain(),
            stats: BTreeMap::new(),
            loghash: 0xcbf2_9ce4_8422_2325,
            schedhash: 0x1234_5678,
            steps: 0,
            max_steps: 300_000,
            fd_limit: 0,
            fd_owner: Default::default(),
            log_alias: None,
            cfg_order: 0,
            bad_close: vec![],
            trace: None,
            viol: None,
            aborting: false,
            stdout_bytes: 0,
            probes: BTreeSet::new(),
            driver_go: Arc::new(AtomicU32::new(0)),
            clock_reads: 0,
            clock_jump: None,
            escapes: 0,
            accept_err: 0,
            note: vec![],
            lastsched: String::new(),
            accepted: vec![],
            clock_obs: vec![],
            jumps: vec![],
        })
    }
    pub fn count(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn probe(&mut self, s: impl Into<String>) {
        self.probes.insert(s.into());
    }
    pub fn log(&mut self, kind: &'static str, a: u64, b: u64, c: u64) {
        let mut h = self.loghash;
        for x in [crate::tape::hash_str(kind), a, b, c, self.now] {
            h = mix(h ^ x).wrapping_mul(0x1000_0000_01b3);
        }
        self.loghash = h;
        if let Some(t) = self.trace.as_mut() {
            if t.len() < 20_000 {
                t.push(format!("t={:>12} {kind} {a} {b} {c}", self.now));
            }
        }
    }
    pub fn logbytes(&mut self, kind: &'static str, a: u64, bytes: &[u8]) {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for b in bytes {
            h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.log(kind, a, bytes.len() as u64, h);
    }
    pub fn violate(&mut self, class: impl Into<String>, msg: impl Into<String>) {
        if self.viol.is_none() && !self.aborting {
            let v = Violation { class: class.into(), msg: msg.into() };
            if let Some(t) = self.trace.as_mut() {
                t.push(format!("VIOLATION {}: {}", v.class, v.msg));
            }
            self.viol = Some(v);
        }
    }
    pub fn violate_force(&mut self, class: impl Into<String>, msg: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(Violation { class: class.into(), msg: msg.into() });
        }
    }
    // ---- events -------------------------------------------------------
    pub fn at(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        self.heap.push(std::cmp::Reverse((t.max(self.now), self.seq)));
        self.evs.insert(self.seq, ev);
    }
    pub fn after(&mut self, d: u64, ev: Ev) {
        self.at(self.now.saturating_add(d), ev);
    }
    // ---- nodes ---------------------------------------------------------
    pub fn add_node(&mut self, n: Box<dyn Node>) -> NodeId {
        self.nodes.push(Some(n));
        self.nodes.len() - 1
    }
    pub fn start_node(&mut self, id: NodeId) {
        self.with_node(id, |n, w| n.start(w, id));
    }
    pub fn with_node<R>(&mut self, id: NodeId, f: impl FnOnce(&mut Box<dyn Node>, &mut World) -> R) -> Option<R> {
        let mut n = self.nodes[id].take()?;
        let r = f(&mut n, self);
        self.nodes[id] = Some(n);
        Some(r)
    }
    pub fn node<T: 'static>(&mut self, id: NodeId) -> &mut T {
        self.nodes[id].as_mut().expect("node busy").any().downcast_mut::<T>().expect("node type")
    }
    // ---- network ---------------------------------------------------------
    fn new_end(owner: Owner) -> End {
        End {
            owner,
            rx: VecDeque::new(),
            fin: false,
            rst: false,
            closed: false,
            wr_shut: false,
            rd_shut: false,
            last_at: 0,
            inflight: 0,
            tx: vec![],
            rcv_total: 0,
            rcvtimeo: 0,
            sndtimeo: 0,
            tx_break: VecDeque::new(),
            tx_broke: vec![],
            nonblock: false,
            fdrefs: 0,
            closed_at_tx: None,
        }
    }
    pub fn connect(&mut self, a: Owner, b: Owner) -> usize {
        self.conns.push(Conn {
            ends: [Self::new_end(a), Self::new_end(b)],
            hold: [false, false],
            held: [vec![], vec![]],
        });
        self.conns.len() - 1
    }
    pub fn sock_fd(&mut self, conn: usize, side: usize) -> i32 {
        let e = &mut self.conns[conn].ends[side];
        e.owner = Owner::Fd;
        e.fdrefs += 1;
        self.alloc_fd(FdObj::Sock(conn, side))
    }
    pub fn alloc_fd(&mut self, o: FdObj) -> i32 {
        // the lowest free number, as a kernel does
        let mut fd = self.next_fd;
        while self.fds.contains_key(&fd) {
            fd += 1;
        }
        self.fds.insert(fd, o);
        if let Some(t) = crate::os::cur() {
            self.fd_owner.insert(fd, t);
        } else {
            self.fd_owner.remove(&fd);
        }
        fd
    }
    /// descriptors that are no sockets, opened by this task and still open
    pub fn held(&self, t: Tid) -> usize {
        self.fds.iter().filter(|(f, o)| !matches!(o, FdObj::Sock(..)) && self.fd_owner.get(f) == Some(&t)).count()
    }
    /// is any descriptor of this end of the connection open?
    pub fn sock_open(&self, c: usize, s: usize) -> bool {
        self.fds.values().any(|o| matches!(o, FdObj::Sock(a, b) if *a == c && *b == s))
    }
    pub fn listener(&mut self) -> (usize, i32) {
        self.listeners.push(Listener { backlog: VecDeque::new(), errs: VecDeque::new(), closed: false, nonblock: false });
        let id = self.listeners.len() - 1;
        let fd = self.alloc_fd(FdObj::Listener(id));
        (id, fd)
    }
    /// `side` of `conn` will be handed to whoever accepts on the listener.
    pub fn dial(&mut self, listener: usize, conn: usize, side: usize, delay: u64) {
        self.after(delay, Ev::Backlog(listener, conn, side));
    }
    fn cut(&mut self, conn: usize, from: usize, bytes: &[u8]) -> Vec<Vec<u8>> {
        let key = (conn * 2 + from) as u32;
        let mut out = vec![];
        let mut rest = bytes;
        let mode = self.k.seg;
        let mut first = true;
        while !rest.is_empty() {
            let n = rest.len();
            let l = if out.len() >= 96 {
                n
            } else {
                match mode {
                    0 => n,
                    1 => n - self.tape.choose("seg", key, n as u64) as usize,
                    2 => 1,
                    3 => (self.k.seg_k as usize).max(1),
                    4 => {
                        let r = self.tape.choose("seg", key, 17) as usize;
                        if r == 0 {
                            n
                        } else {
                            r
                        }
                    }
                    5 => {
                        if first {
                            1 + self.tape.choose("seg", key, 6) as usize
                        } else {
                            n
                        }
                    }
                    _ => {
                        // cut around TLS record boundaries
                        let rl = if n >= 5 { 5 + ((rest[3] as usize) << 8 | rest[4] as usize) } else { n };
                        let d = self.tape.choose("seg", key, 7) as usize;
                        match d {
                            0 => n,
                            1 => rl,
                            2 => rl + 1,
                            3 => rl + 5,
                            4 => rl.saturating_sub(1),
                            5 => 5,
                            _ => rl + 2,
                        }
                    }
                }
            };
            first = false;
            let l = l.clamp(1, n);
            out.push(rest[..l].to_vec());
            rest = &rest[l..];
        }
        if out.len() > 1 {
            *self.stats.entry("net.segmented_sends").or_insert(0) += 1;
        }
        out
    }
    fn delay(&mut self, conn: usize, from: usize) -> u64 {
        let key = (conn * 2 + from) as u32;
        match self.k.delay {
            0 => 0,
            1 => self.tape.choose("delay", key, 10) * MS,
            2 => [0, 0, MS, 40 * MS, SEC, 75 * SEC][self.tape.choose("delay", key, 6) as usize],
            _ => self.tape.choose("delay", key, 3) * 200 * MS,
        }
    }
    /// bytes accepted from `from` are put on the wire towards the other side
    pub fn transmit(&mut self, conn: usize, from: usize, bytes: &[u8]) {
        if bytes.is_empty() {
            return;
        }
        self.logbytes("tx", (conn * 2 + from) as u64, bytes);
        self.conns[conn].ends[from].tx.extend_from_slice(bytes);
        let to = 1 - from;
        for seg in self.cut(conn, from, bytes) {
            let d = self.delay(conn, from);
            if d > 0 {
                self.count("net.delayed_segments");
            }
            let e = &mut self.conns[conn].ends[to];
            e.inflight += seg.len();
            let t = (self.now + d).max(e.last_at);
            e.last_at = t;
            self.at(t, Ev::Data(conn, to, seg));
        }
    }
    fn ctl(&mut self, conn: usize, to: usize, ev: Ev) {
        let d = self.delay(conn, 1 - to);
        let e = &mut self.conns[conn].ends[to];
        let t = (self.now + d).max(e.last_at);
        e.last_at = t;
        self.at(t, ev);
    }
    pub fn node_send(&mut self, conn: usize, side: usize, bytes: &[u8]) {
        let e = &self.conns[conn].ends[side];
        if e.closed || e.rst || e.wr_shut {
            return;
        }
        self.transmit(conn, side, bytes);
    }
    /// orderly end of sending (and of receiving) by a node
    pub fn node_close(&mut self, conn: usize, side: usize) {
        if self.conns[conn].ends[side].closed {
            return;
        }
        self.conns[conn].ends[side].closed = true;
        self.wake(&Wait::Tx(conn, 1 - side));
        self.ctl(conn, 1 - side, Ev::Fin(conn, 1 - side));
    }
    /// half close: FIN to the peer, still receiving
    pub fn node_shut_wr(&mut self, conn: usize, side: usize) {
        if self.conns[conn].ends[side].closed || self.conns[conn].ends[side].wr_shut {
            return;
        }
        self.conns[conn].ends[side].wr_shut = true;
        self.ctl(conn, 1 - side, Ev::Fin(conn, 1 - side));
    }
    pub fn node_reset(&mut self, conn: usize, side: usize) {
        if self.conns[conn].ends[side].closed {
            return;
        }
        self.conns[conn].ends[side].closed = true;
        self.count("net.rst");
        self.ctl(conn, 1 - side, Ev::Rst(conn, 1 - side));
    }
    pub fn close_sock(&mut self, conn: usize, side: usize) {
        let e = &mut self.conns[conn].ends[side];
        e.fdrefs -= 1;
        if e.fdrefs > 0 {
            return;
        }
        if e.closed {
            return;
        }
        e.closed = true;
        e.closed_at_tx = Some(e.tx.len());
        let unread = !e.rx.is_empty();
        let was_rst = e.rst;
        self.log("close", conn as u64, side as u64, unread as u64);
        if was_rst {
            return;
        }
        if unread {
            self.ctl(conn, 1 - side, Ev::Rst(conn, 1 - side));
        } else if !self.conns[conn].ends[side].wr_shut {
            self.ctl(conn, 1 - side, Ev::Fin(conn, 1 - side));
        }
    }
    pub fn wake(&mut self, k: &Wait) {
        for t in self.tasks.iter_mut() {
            if t.state == TState::Blocked(k.clone()) {
                t.state = TState::Runnable;
            }
        }
    }
    pub fn hold(&mut self, conn: usize, side: usize, on: bool) {
        self.conns[conn].hold[side] = on;
        if !on {
            let held = std::mem::take(&mut self.conns[conn].held[side]);
            for ev in held {
                self.process(ev);
            }
        }
    }
    pub fn process(&mut self, ev: Ev) {
        match &ev {
            Ev::Data(c, s, _) | Ev::Fin(c, s) | Ev::Rst(c, s) => {
                if self.conns[*c].hold[*s] {
                    let (c, s) = (*c, *s);
                    self.conns[c].held[s].push(ev);
                    return;
                }
            }
            _ => {}
        }
        match ev {
            Ev::Data(c, s, bytes) => {
                self.log("rx", (c * 2 + s) as u64, bytes.len() as u64, 0);
                let e = &mut self.conns[c].ends[s];
                e.inflight -= bytes.len();
                e.rcv_total += bytes.len() as u64;
                if e.closed {
                    let fd = e.owner == Owner::Fd;
                    self.wake(&Wait::Tx(c, 1 - s));
                    // peer is gone: RST back
                    if fd {
                        self.ctl(c, 1 - s, Ev::Rst(c, 1 - s));
                    }
                    return;
                }
                if e.rst {
                    return;
                }
                match e.owner {
                    Owner::Node(n) => {
                        // a node takes everything at once
                        self.wake(&Wait::Tx(c, 1 - s));
                        self.with_node(n, |nd, w| nd.data(w, n, c, s, &bytes));
                    }
                    _ => {
                        e.rx.extend(bytes.iter());
                        self.wake(&Wait::Rx(c, s));
                    }
                }
            }
            Ev::Fin(c, s) => {
                self.log("fin", c as u64, s as u64, 0);
                let e = &mut self.conns[c].ends[s];
                e.fin = true;
                if e.closed {
                    return;
                }
                match e.owner {
                    Owner::Node(n) => {
                        self.with_node(n, |nd, w| nd.eof(w, n, c, s, false));
                    }
                    _ => self.wake(&Wait::Rx(c, s)),
                }
            }
            Ev::Rst(c, s) => {
                self.log("rst", c as u64, s as u64, 0);
                let e = &mut self.conns[c].ends[s];
                if e.rst {
                    return;
                }
                e.rst = true;
                if e.closed {
                    return;
                }
                match e.owner {
                    Owner::Node(n) => {
                        self.with_node(n, |nd, w| nd.eof(w, n, c, s, true));
                    }
                    _ => {
                        self.wake(&Wait::Rx(c, s));
                        self.wake(&Wait::Tx(c, s));
                    }
                }
            }
            Ev::Timer(n, id) => {
                self.log("timer", n as u64, id, 0);
                self.with_node(n, |nd, w| nd.timer(w, n, id));
            }
            Ev::Wake(t, tok) => {
                if self.tasks[t].syscalls == tok && matches!(self.tasks[t].state, TState::Blocked(_)) {
                    self.tasks[t].timed_out = true;
                    self.tasks[t].state = TState::Runnable;
                }
            }
            Ev::Backlog(l, c, s) => {
                self.log("syn", l as u64, c as u64, s as u64);
                self.listeners[l].backlog.push_back((c, s));
                self.wake(&Wait::Accept(l));
            }
            Ev::Call(f) => f(self),
        }
    }
    pub fn pop_event(&mut self) -> bool {
        if let Some(std::cmp::Reverse((t, id))) = self.heap.pop() {
            self.now = self.now.max(t);
            let ev = self.evs.remove(&id).unwrap();
            self.process(ev);
            true
        } else {
            false
        }
    }
    pub fn has_events(&self) -> bool {
        !self.heap.is_empty()
    }
    pub fn jump(&mut self, d: i64) {
        self.count("clock.jump");
        let a = self.wall().0;
        self.wall0 = self.wall0.saturating_add(d);
        let b = self.wall().0;
        let now = self.now;
        self.jumps.push((now, a, b));
    }
    pub fn wall(&self) -> (i64, i64) {
        let ns = self.wall_ns + self.now as i64;
        let s = self.wall0 + ns.div_euclid(1_000_000_000);
        (s, ns.rem_euclid(1_000_000_000))
    }
    /// the planned fault of the next operation on the RNG device
    pub fn rnd_fault(&mut self, tid: Tid, open: bool) -> Option<RndFault> {
        let n = self.rnd.ops.entry(tid).or_insert(0);
        let i = *n;
        *n += 1;
        if self.rnd.faults.is_empty() || self.rnd.fault_tasks.as_ref().map(|t| !t.contains(&tid)).unwrap_or(false) {
            return None;
        }
        let dead = self.rnd.faults.range(..=i).any(|(_, f)| *f == RndFault::Dead);
        let mut f = if dead { Some(RndFault::Dead) } else { self.rnd.faults.get(&i).copied() };
        // what is said of reading, of the number before too if that was opening
        let of_read = |f: &Option<RndFault>| matches!(f, Some(RndFault::Short(_) | RndFault::Eof));
        if open && of_read(&f) {
            self.rnd.late.insert(tid, f.unwrap());
            f = None;
        } else if !open {
            if let Some(l) = self.rnd.late.remove(&tid) {
                if f.is_none() {
                    f = Some(l);
                } else if of_read(&f) && !dead {
                    // both: the one after the other
                    self.rnd.late.insert(tid, f.unwrap());
                    f = Some(l);
                }
            }
        }
        if let Some(f) = f {
            let what = match f {
                RndFault::Err(EINTR) => "rng.eintr",
                RndFault::Err(_) => "rng.error",
                RndFault::Short(_) => "rng.short",
                RndFault::Eof => "rng.eof",
                RndFault::Dead => "rng.dead",
            };
            self.count(what);
            self.rnd.hit.entry(tid).or_default().push(what);
        }
        f
    }
    /// byte `o` of the stream `key` of the device
    pub fn rnd_at(&self, key: u64, o: u64) -> u8 {
        let seed = self.tape.seed;
        let (block, i) = (o / 100, (o % 100) as usize);
        if self.rnd.shape != 0 && i < 50 {
            let x = mix(mix(seed ^ key).wrapping_add(block));
            if x % 2 == 0 && self.rnd.shape == 2 {
                if i < 26 {
                    return if i < 18 { 0 } else { 0xff };
                }
            } else if x % 2 == 0 {
                // chosen as the library reads it: 8 bytes of length, 42 of the number
                let l = crate::env::short_nonces();
                let mut k = crate::crypto::u_to(&l[(x >> 8) as usize % l.len()]);
                // 2^8 is added to the number
                for b in k[..31].iter_mut().rev() {
                    let (v, borrow) = b.overflowing_sub(1);
                    *b = v;
                    if !borrow {
                        break;
                    }
                }
                return if i < 18 { 0 } else { k[i - 18] };
            }
        }
        let word = mix(mix(seed ^ 0xA5A5_1234).wrapping_add(mix(key ^ 0x77)).wrapping_add((o / 8).wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        self.rnd.constant.unwrap_or(word.to_le_bytes()[(o % 8) as usize])
    }
    /// next bytes of the simulated RNG device for a task
    pub fn rnd_bytes(&mut self, tid: Tid, n: usize) -> Vec<u8> {
        let key = *self.rnd.key.get(&tid).unwrap_or(&self.tasks[tid].rnd_key);
        let off = self.tasks[tid].rnd_off;
        self.tasks[tid].rnd_off += n as u64;
        *self.rnd.consumed.entry(tid).or_insert(0) += n as u64;
        (0..n as u64)
            .map(|i| {
                let o = off + i;
                self.rnd_at(key, o) ^ self.rnd.flips.get(&(tid, o)).copied().unwrap_or(0)
            })
            .collect()
    }
    pub fn file_fault(&mut self, path: &str, tid: Tid, what: &'static str) {
        *self.vfs.injected.entry(path.to_string()).or_insert(0) += 1;
        self.vfs.injected_task.entry(tid).or_default().push(what);
        self.count(what);
    }
    pub fn put_file(&mut self, path: &str, data: impl Into<Vec<u8>>) {
        self.vfs.files.insert(path.to_string(), data.into());
    }
}

// ---- tasks & scheduler (free functions: no &mut World held across switches) ----

pub fn futex_wait(a: &AtomicU32) {
    loop {
        if a.swap(0, Ordering::AcqRel) == 1 {
            return;
        }
        os::raw_futex_wait(a as *const AtomicU32 as *const u32, 0);
    }
}
pub fn futex_post(a: &AtomicU32) {
    a.store(1, Ordering::Release);
    os::raw_futex_wake(a as *const AtomicU32 as *const u32);
}

pub fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> Tid {
    let wd = w();
    let tid = wd.tasks.len();
    let go = Arc::new(AtomicU32::new(0));
    let go2 = go.clone();
    let drv = wd.driver_go.clone();
    let handle = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            futex_wait(&go2);
            os::enter_task(tid);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                let m = os::take_panic();
                w().tasks[tid].panic = Some(m);
            }
            w().tasks[tid].peak = os::leave_task();
            w().tasks[tid].state = TState::Done;
            futex_post(&drv);
        })
        .expect("spawn");
    wd.tasks.push(Task {
        name: name.to_string(),
        state: TState::Runnable,
        go,
        handle: Some(handle),
        panic: None,
        timed_out: false,
        syscalls: 0,
        rnd_key: tid as u64 + 1,
        rnd_off: 0,
        alloc0: 0,
        peak: 0,
    });
    tid
}

/// called on a task thread: hand the baton to the driver and wait to be resumed
pub fn switch_to_driver(tid: Tid) {
    let go = w().tasks[tid].go.clone();
    let drv = w().driver_go.clone();
    let n = os::pause_task();
    futex_post(&drv);
    futex_wait(&go);
    os::resume_task(n);
}
pub fn yield_task(tid: Tid) {
    w().tasks[tid].state = TState::Runnable;
    switch_to_driver(tid);
}
/// returns true if woken by timeout
pub fn block_task(tid: Tid, k: Wait, timeout: u64) -> bool {
    let wd = w();
    if wd.aborting {
        return true;
    }
    wd.tasks[tid].timed_out = false;
    if timeout > 0 {
        wd.tasks[tid].syscalls += 1;
        let tok = wd.tasks[tid].syscalls;
        wd.after(timeout, Ev::Wake(tid, tok));
    }
    wd.tasks[tid].state = TState::Blocked(k);
    switch_to_driver(tid);
    w().tasks[tid].timed_out
}

fn resume(tid: Tid) {
    let go = w().tasks[tid].go.clone();
    let drv = w().driver_go.clone();
    futex_post(&go);
    futex_wait(&drv);
    if w().tasks[tid].state == TState::Done {
        if let Some(h) = w().tasks[tid].handle.take() {
            let _ = h.join();
        }
    }
}

/// Run until every task is done and no event is left, or nothing can move.
pub fn drive() -> End_ {
    loop {
        let wd = w();
        if wd.viol.is_some() && !wd.aborting {
            return End_::Stuck;
        }
        wd.steps += 1;
        if wd.steps > wd.max_steps {
            return End_::Steps;
        }
        let run: Vec<Tid> = wd
            .tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| t.state == TState::Runnable)
            .map(|(i, _)| i)
            .collect();
        let has_ev = wd.has_events();
        let n = run.len() + has_ev as usize;
        if n == 0 {
            return if wd.tasks.iter().all(|t| t.state == TState::Done) { End_::AllDone } else { End_::Stuck };
        }
        let c = if n == 1 { 0 } else { wd.tape.choose("sched", 0, n as u64) as usize };
        if c < run.len() {
            let t = run[c];
            wd.schedhash = mix(wd.schedhash ^ (t as u64 + 1));
            wd.log("run", t as u64, 0, 0);
            resume(t);
        } else {
            wd.schedhash = mix(wd.schedhash ^ 0xEE);
            wd.pop_event();
        }
    }
}
/// unwind all remaining tasks: every simulated call fails from now on
pub fn kill_all() {
    w().aborting = true;
    let mut guard = 0u64;
    loop {
        let wd = w();
        let next = wd.tasks.iter().position(|t| t.state != TState::Done);
        match next {
            None => return,
            Some(t) => {
                guard += 1;
                if guard > 100_000 {
                    eprintln!("sim: task '{}' does not stop after abort", w().tasks[t].name);
                    std::process::exit(97);
                }
                wd.tasks[t].state = TState::Runnable;
                resume(t);
            }
        }
    }
}
/// run a closure as a task to completion (used for set-up under the simulated OS)
pub fn exec<R: Send + 'static>(name: &str, f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    let out = Arc::new(std::sync::Mutex::new(None));
    let o2 = out.clone();
    let tid = spawn(name, move || {
        let r = f();
        *o2.lock().unwrap() = Some(r);
    });
    while w().tasks[tid].state != TState::Done {
        if w().tasks[tid].state == TState::Runnable {
            resume(tid);
        } else if !w().pop_event() {
            return None;
        }
    }
    let r = out.lock().unwrap().take();
    r
}
