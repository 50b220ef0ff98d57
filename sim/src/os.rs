//! The seam: libc symbols defined in this executable. In a simulated task they
//! reach the World, everywhere else they are plain system calls.
#![allow(clippy::missing_safety_doc)]
use crate::world::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

const NOTASK: usize = usize::MAX;
thread_local! {
    static TASK: Cell<usize> = const { Cell::new(NOTASK) };
    static ALLOC: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNTING: Cell<bool> = const { Cell::new(false) };
    /// allocations left until this task is preempted between two system calls (0: never)
    static GAP: Cell<u64> = const { Cell::new(0) };
}
fn gap(tid: Tid) -> u64 {
    let wd = w();
    if wd.k.alloc_gap == 0 {
        0
    } else {
        1 + wd.tape.choose("apre", tid as u32, wd.k.alloc_gap)
    }
}
/// a task may lose the processor in the middle of a computation
#[cold]
fn preempt_here() {
    let _q = Quiet::new();
    let Some(t) = cur() else { return };
    if w().aborting {
        GAP.with(|g| g.set(0));
        EGAP.with(|g| g.set(0));
        return;
    }
    w().count("sched.compute_preemptions");
    yield_task(t);
    let (n, e) = if w().aborting { (0, 0) } else { (gap(t), egap(t)) };
    GAP.with(|g| g.set(n));
    EGAP.with(|g| g.set(e));
}
#[inline]
fn tick() {
    if COUNTING.try_with(|c| c.get()).unwrap_or(false) {
        let n = GAP.with(|g| g.get());
        if n > 0 {
            GAP.with(|g| g.set(n - 1));
            if n == 1 {
                preempt_here();
            }
        }
    }
}
// ---- the calls at the basic blocks of the library (rustc-wrap.sh) ----
/// blocks: seen by any run of this process and its parents (shared memory)
static mut COV: *mut u8 = std::ptr::null_mut();
/// blocks: how often in this run, up to RARE
static mut CNT: [u8; 1 << 16] = [0; 1 << 16];
static mut BLOCKS: u32 = 0;
/// blocks until the task is said to compute for ever
static mut FUEL: u64 = FUEL_PER_CALL;
static mut LEAST: u64 = FUEL_PER_CALL;
pub const FUEL_PER_CALL: u64 = 1_000_000_000;
const RARE: u8 = 24;
thread_local! {
    /// rare blocks left until this task is preempted (0: never)
    static EGAP: Cell<u64> = const { Cell::new(0) };
}
fn egap(tid: Tid) -> u64 {
    let wd = w();
    if wd.k.edge_gap == 0 {
        0
    } else {
        // runs of very different lengths
        let bits = wd.tape.choose("epre.b", tid as u32, wd.k.edge_gap);
        1 + wd.tape.choose("epre", tid as u32, 1 << bits)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b {
        if *a == 0 {
            if BLOCKS < (1 << 16) - 1 {
                BLOCKS += 1;
            }
            *a = BLOCKS;
        }
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g as usize & 0xFFFF;
    FUEL = FUEL.wrapping_sub(1);
    if FUEL == 0 {
        out_of_fuel();
    }
    if CNT[id] < RARE {
        rare_block(id);
    }
}
#[cold]
unsafe fn out_of_fuel() {
    if COUNTING.try_with(|c| c.get()).unwrap_or(false) {
        crate::driver::exit_spinning();
    }
}
#[cold]
unsafe fn rare_block(id: usize) {
    if !COUNTING.try_with(|c| c.get()).unwrap_or(false) {
        return;
    }
    CNT[id] += 1;
    if !COV.is_null() {
        *COV.add(id) = 1;
    }
    let n = EGAP.with(|g| g.get());
    if n > 0 {
        EGAP.with(|g| g.set(n - 1));
        if n == 1 {
            preempt_here();
        }
    }
}
static mut PCS: (*const [usize; 2], usize) = (std::ptr::null(), 0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const [usize; 2], b: *const [usize; 2]) {
    PCS = (a, b.offset_from(a) as usize);
}
/// addresses of the blocks of the library, as the debug information has them
pub fn block_addresses() -> Vec<usize> {
    extern "C" {
        static __executable_start: u8;
    }
    unsafe {
        let base = &raw const __executable_start as usize;
        (0..PCS.1).map(|i| (*PCS.0.add(i))[0].wrapping_sub(base)).collect()
    }
}
/// shared with the processes forked from now on
pub fn share_coverage() {
    unsafe {
        // mmap: read, write; shared, anonymous
        COV = raw6(9, 0, 1 << 16, 3, 0x21, usize::MAX, 0) as *mut u8;
    }
}
/// (all, reached) blocks of the library
pub fn coverage() -> Vec<u8> {
    unsafe {
        if COV.is_null() {
            return vec![];
        }
        std::slice::from_raw_parts(COV, BLOCKS as usize + 1)[1..].to_vec()
    }
}
fn refuel() {
    unsafe {
        LEAST = LEAST.min(FUEL);
        FUEL = FUEL_PER_CALL;
    }
}
/// most blocks between two calls of a task
pub fn longest_computation() -> u64 {
    refuel();
    unsafe { FUEL_PER_CALL - LEAST }
}
pub fn cur() -> Option<Tid> {
    let t = TASK.with(|c| c.get());
    if t == NOTASK {
        None
    } else {
        Some(t)
    }
}
pub fn enter_task(t: Tid) {
    TASK.with(|c| c.set(t));
    ALLOC.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    let n = gap(t);
    GAP.with(|g| g.set(n));
    let n = egap(t);
    EGAP.with(|g| g.set(n));
    refuel();
    COUNTING.with(|c| c.set(true));
    CURTASK.store(t, Ordering::SeqCst);
}
pub fn leave_task() -> u64 {
    COUNTING.with(|c| c.set(false));
    TASK.with(|c| c.set(NOTASK));
    CURTASK.store(NOTASK, Ordering::SeqCst);
    PEAK.with(|c| c.get()) as u64
}
pub fn pause_task() -> (usize, bool) {
    let t = TASK.with(|c| c.replace(NOTASK));
    let q = COUNTING.with(|c| c.replace(false));
    CURTASK.store(NOTASK, Ordering::SeqCst);
    (t, q)
}
pub fn resume_task(t: (usize, bool)) {
    TASK.with(|c| c.set(t.0));
    COUNTING.with(|c| c.set(t.1));
    CURTASK.store(t.0, Ordering::SeqCst);
}
/// memory accounting off while a simulated call runs harness code
pub struct Quiet(bool);
impl Quiet {
    pub fn new() -> Quiet {
        Quiet(COUNTING.with(|c| c.replace(false)))
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        let c = self.0;
        let _ = COUNTING.try_with(|x| x.set(c));
    }
}
/// bytes the current task holds
pub fn live() -> i64 {
    ALLOC.with(|c| c.get())
}
pub fn peak() -> u64 {
    PEAK.with(|c| c.get()) as u64
}
pub static CURTASK: AtomicUsize = AtomicUsize::new(NOTASK);

/// Run harness code on a task thread without simulation or memory accounting.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let c = COUNTING.with(|c| c.replace(false));
    let r = f();
    COUNTING.with(|x| x.set(c));
    r
}

// ---- allocation accounting: memory used by a task ----
pub struct Acc;
pub static MEM_LIMIT: AtomicU64 = AtomicU64::new(1 << 30);
pub static MEM_HIT: AtomicU64 = AtomicU64::new(0);
#[inline]
fn acc(n: i64) {
    if COUNTING.try_with(|c| c.get()).unwrap_or(false) {
        let v = ALLOC.with(|c| {
            let v = c.get() + n;
            c.set(v);
            v
        });
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    }
}
unsafe impl GlobalAlloc for Acc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() as u64 > MEM_LIMIT.load(Ordering::Relaxed) && COUNTING.try_with(|c| c.get()).unwrap_or(false) {
            MEM_HIT.fetch_add(1, Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        tick();
        acc(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        acc(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() as u64 > MEM_LIMIT.load(Ordering::Relaxed) && COUNTING.try_with(|c| c.get()).unwrap_or(false) {
            MEM_HIT.fetch_add(1, Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        acc(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        acc(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Acc = Acc;

// ---- panics ----
thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let c = COUNTING.with(|c| c.replace(false));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if cur().is_some() {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
        } else {
            let s = format!("HARNESS PANIC {loc}: {msg}\n");
            raw3(1, 2, s.as_ptr() as usize, s.len());
        }
        COUNTING.with(|x| x.set(c));
    }));
}
pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

// ---- raw system calls ----
#[inline(always)]
pub fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
pub fn raw3(n: usize, a: usize, b: usize, c: usize) -> isize {
    raw6(n, a, b, c, 0, 0, 0)
}
pub fn raw_futex_wait(p: *const u32, v: u32) {
    raw6(202, p as usize, 128, v as usize, 0, 0, 0);
}
pub fn raw_futex_wake(p: *const u32) {
    raw6(202, p as usize, 129, 1, 0, 0, 0);
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
fn fail(e: i32) -> isize {
    set_errno(e);
    -1
}
fn sim(fd: i32) -> Option<Tid> {
    if fd >= FD_BASE {
        cur()
    } else {
        None
    }
}
/// entry of every simulated call: step accounting, preemption, EINTR
fn enter(tid: Tid, op: &'static str, a: u64, intr: bool) -> Result<(), i32> {
    refuel();
    let wd = w();
    wd.tasks[tid].syscalls += 1;
    wd.log(op, tid as u64, a, 0);
    if wd.aborting {
        if wd.tasks[tid].syscalls > 5_000_000 {
            yield_task(tid);
        }
        return Err(ECONNABORTED);
    }
    if wd.k.preempt > 0 && wd.tape.chance("pre", tid as u32, wd.k.preempt, 1000) {
        wd.count("sched.preemptions");
        yield_task(tid);
        if w().aborting {
            return Err(ECONNABORTED);
        }
    }
    let wd = w();
    wd.steps += 1;
    if wd.steps > wd.max_steps {
        yield_task(tid);
        if w().aborting {
            return Err(ECONNABORTED);
        }
    }
    let wd = w();
    if intr && wd.k.eintr > 0 && wd.tape.chance("eintr", tid as u32, wd.k.eintr, 1000) {
        wd.count("io.eintr");
        return Err(EINTR);
    }
    Ok(())
}

fn sock_read(tid: Tid, conn: usize, side: usize, buf: *mut u8, len: usize, peek: bool) -> isize {
    let _q = Quiet::new();
    if let Err(e) = enter(tid, "read", (conn * 2 + side) as u64, true) {
        return fail(e);
    }
    if len == 0 {
        return 0;
    }
    loop {
        let wd = w();
        if wd.aborting {
            return fail(ECONNABORTED);
        }
        let key = (conn * 2 + side) as u32;
        let e = &wd.conns[conn].ends[side];
        let avail = e.rx.len();
        if e.rd_shut {
            return 0;
        }
        if avail > 0 {
            let mut n = avail.min(len);
            if n > 1 && wd.k.rd_short > 0 && wd.tape.chance("rdshort", key, wd.k.rd_short, 1000) {
                n -= wd.tape.choose("rdshort.n", key, n as u64) as usize;
                wd.count("io.short_read");
            }
            let e = &mut wd.conns[conn].ends[side];
            for (i, b) in e.rx.iter().take(n).enumerate() {
                unsafe { *buf.add(i) = *b }
            }
            if !peek {
                e.rx.drain(..n);
                wd.wake(&Wait::Tx(conn, 1 - side));
            }
            wd.log("read=", tid as u64, n as u64, 0);
            return n as isize;
        }
        if e.rst {
            wd.log("read=rst", tid as u64, 0, 0);
            return fail(ECONNRESET);
        }
        if e.fin {
            wd.log("read=eof", tid as u64, 0, 0);
            return 0;
        }
        if e.nonblock {
            return fail(EAGAIN);
        }
        let to = e.rcvtimeo;
        if block_task(tid, Wait::Rx(conn, side), to) && to > 0 {
            return fail(EAGAIN);
        }
    }
}
fn sock_write(tid: Tid, conn: usize, side: usize, data: &[u8]) -> isize {
    let _q = Quiet::new();
    if let Err(e) = enter(tid, "write", (conn * 2 + side) as u64, true) {
        return fail(e);
    }
    loop {
        let wd = w();
        if wd.aborting {
            return fail(ECONNABORTED);
        }
        let key = (conn * 2 + side) as u32;
        let e = &wd.conns[conn].ends[side];
        if e.rst || e.wr_shut {
            let wd = w();
            wd.log("write=epipe", tid as u64, 0, 0);
            return fail(EPIPE);
        }
        if data.is_empty() {
            return 0;
        }
        let (nonblock, to) = (e.nonblock, e.sndtimeo);
        let peer = &wd.conns[conn].ends[1 - side];
        let space = wd.k.sndcap.saturating_sub(peer.inflight + if peer.owner == Owner::Fd { peer.rx.len() } else { 0 });
        if space == 0 && !peer.closed {
            if nonblock {
                return fail(EAGAIN);
            }
            wd.count("io.send_blocked");
            if block_task(tid, Wait::Tx(conn, side), to) && to > 0 {
                return fail(EAGAIN);
            }
            continue;
        }
        let mut n = data.len().min(space.max(1));
        let e = &mut wd.conns[conn].ends[side];
        if let Some(b) = e.tx_break.front().copied() {
            let at = e.tx.len();
            if at >= b {
                e.tx_break.pop_front();
                e.tx_broke.push(at);
                wd.count("net.send_failed_midway");
                wd.log("write=again", tid as u64, 0, 0);
                return fail(EAGAIN);
            }
            n = n.min(b - at);
        }
        if n > 1 && wd.k.wr_short > 0 && wd.tape.chance("wrshort", key, wd.k.wr_short, 1000) {
            n -= wd.tape.choose("wrshort.n", key, n as u64) as usize;
            wd.count("io.short_write");
        }
        wd.log("write=", tid as u64, n as u64, 0);
        wd.transmit(conn, side, &data[..n]);
        return n as isize;
    }
}
fn file_read(tid: Tid, fd: i32, buf: *mut u8, len: usize, at: Option<usize>) -> isize {
    let _q = Quiet::new();
    if let Err(e) = enter(tid, "fread", fd as u64, false) {
        return fail(if e == EINTR { EINTR } else { EIO });
    }
    let wd = w();
    let obj = match wd.fds.get(&fd) {
        Some(o) => o.clone(),
        None => return fail(EBADF),
    };
    let path = match &obj {
        FdObj::File { path, .. } => path.clone(),
        FdObj::Urandom { .. } => "/dev/urandom".into(),
        _ => return fail(EBADF),
    };
    let kn = wd.vfs.knobs.get(path_class(&path)).cloned().unwrap_or_default();
    let key = tid as u32;
    if wd.tape.chance("f.rdeintr", key, kn.rd_eintr, 1000) {
        wd.file_fault(&path, tid, "file.read_eintr");
        return fail(EINTR);
    }
    if wd.tape.chance("f.rderr", key, kn.rd_err, 1000) {
        wd.file_fault(&path, tid, "file.read_eio");
        return fail(EIO);
    }
    if wd.tape.chance("f.rdeof", key, kn.rd_eof, 1000) {
        wd.file_fault(&path, tid, "file.read_eof");
        return 0;
    }
    let mut n = len;
    if n > 1 && wd.tape.chance("f.rdshort", key, kn.rd_short, 1000) {
        let c = wd.tape.choose("f.rdshort.n", key, n.min(300) as u64 - 1) as usize;
        n = n.min(300) - 1 - c;
        n = n.max(1);
        wd.file_fault(&path, tid, "file.short_read");
    }
    match obj {
        FdObj::Urandom { .. } => {
            match wd.rnd_fault(tid, false) {
                Some(RndFault::Err(e)) => return fail(e),
                Some(RndFault::Eof | RndFault::Dead) => return 0,
                Some(RndFault::Short(k)) => n = n.min(k.max(1)),
                None => {}
            }
            let b = wd.rnd_bytes(tid, n);
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), buf, n) };
            n as isize
        }
        FdObj::File { path, pos, rd, .. } => {
            if !rd {
                return fail(EBADF);
            }
            let data = wd.vfs.files.get(&path).cloned().unwrap_or_default();
            let p = at.unwrap_or(pos).min(data.len());
            let n = n.min(data.len() - p);
            unsafe { std::ptr::copy_nonoverlapping(data[p..].as_ptr(), buf, n) };
            if at.is_none() {
                if let Some(FdObj::File { pos, .. }) = wd.fds.get_mut(&fd) {
                    *pos = p + n;
                }
            }
            n as isize
        }
        _ => fail(EBADF),
    }
}
fn file_write(tid: Tid, fd: i32, data: &[u8], at: Option<usize>) -> isize {
    let _q = Quiet::new();
    if let Err(e) = enter(tid, "fwrite", fd as u64, false) {
        return fail(if e == EINTR { EINTR } else { EIO });
    }
    let wd = w();
    let (path, pos, append) = match wd.fds.get(&fd) {
        Some(FdObj::File { path, pos, append, wr: true, .. }) => (path.clone(), *pos, *append),
        Some(FdObj::Null) => return data.len() as isize,
        _ => return fail(EBADF),
    };
    let kn = wd.vfs.knobs.get(path_class(&path)).cloned().unwrap_or_default();
    let key = tid as u32;
    if wd.tape.chance("f.wreintr", key, kn.wr_eintr, 1000) {
        wd.file_fault(&path, tid, "file.write_eintr");
        return fail(EINTR);
    }
    if wd.tape.chance("f.wrerr", key, kn.wr_err, 1000) {
        let e = [EIO, ENOSPC][wd.tape.choose("f.wrerr.e", key, 2) as usize];
        wd.file_fault(&path, tid, if e == EIO { "file.write_eio" } else { "file.write_enospc" });
        return fail(e);
    }
    let mut n = data.len();
    if n > 1 && wd.tape.chance("f.wrshort", key, kn.wr_short, 1000) {
        n -= wd.tape.choose("f.wrshort.n", key, n as u64) as usize;
        wd.file_fault(&path, tid, "file.short_write");
    }
    let cap = wd.vfs.fullat.get(&path).copied().unwrap_or(usize::MAX);
    let f = wd.vfs.files.entry(path.clone()).or_default();
    let p = at.unwrap_or(if append { f.len() } else { pos });
    if p + n > cap {
        n = cap.saturating_sub(p);
        if n == 0 {
            wd.file_fault(&path, tid, "file.disk_full");
            return fail(ENOSPC);
        }
        wd.file_fault(&path, tid, "file.disk_full_short");
    }
    let f = wd.vfs.files.get_mut(&path).unwrap();
    if f.len() < p + n {
        f.resize(p + n, 0);
    }
    f[p..p + n].copy_from_slice(&data[..n]);
    wd.vfs.writes.entry(path.clone()).or_default().push(FileWrite {
        tid,
        off: p,
        data: data[..n].to_vec(),
        append,
        asked: data.len(),
    });
    wd.logbytes("fwrite=", tid as u64, &data[..n]);
    if at.is_none() {
        if let Some(FdObj::File { pos, .. }) = wd.fds.get_mut(&fd) {
            *pos = p + n;
        }
    }
    n as isize
}
fn any_read(tid: Tid, fd: i32, buf: *mut u8, len: usize) -> isize {
    match w().fds.get(&fd).cloned() {
        Some(FdObj::Sock(c, s)) => sock_read(tid, c, s, buf, len, false),
        Some(FdObj::Null) => 0,
        Some(_) => file_read(tid, fd, buf, len, None),
        None => fail(EBADF),
    }
}
fn any_write(tid: Tid, fd: i32, data: &[u8]) -> isize {
    match w().fds.get(&fd).cloned() {
        Some(FdObj::Sock(c, s)) => sock_write(tid, c, s, data),
        Some(_) => file_write(tid, fd, data, None),
        None => fail(EBADF),
    }
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut u8, len: usize, flags: i32) -> isize {
    match sim(fd) {
        Some(t) => match w().fds.get(&fd).cloned() {
            Some(FdObj::Sock(c, s)) => sock_read(t, c, s, buf, len, flags & 2 != 0),
            _ => fail(EBADF),
        },
        None => ret(raw6(45, fd as usize, buf as usize, len, flags as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: i32, buf: *mut u8, len: usize, flags: i32, a: usize, al: usize) -> isize {
    match sim(fd) {
        Some(_) => recv(fd, buf, len, flags),
        None => ret(raw6(45, fd as usize, buf as usize, len, flags as usize, a, al)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const u8, len: usize, flags: i32) -> isize {
    match sim(fd) {
        Some(t) => match w().fds.get(&fd).cloned() {
            Some(FdObj::Sock(c, s)) => sock_write(t, c, s, sl(buf, len)),
            _ => fail(EBADF),
        },
        None => ret(raw6(44, fd as usize, buf as usize, len, flags as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, buf: *const u8, len: usize, flags: i32, a: usize, al: u32) -> isize {
    match sim(fd) {
        Some(_) => send(fd, buf, len, flags),
        None => ret(raw6(44, fd as usize, buf as usize, len, flags as usize, a, al as usize)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    match sim(fd) {
        Some(t) => any_read(t, fd, buf, len),
        None => ret(raw3(0, fd as usize, buf as usize, len)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
    if let Some(t) = cur() {
        if fd >= FD_BASE {
            return any_write(t, fd, sl(buf, len));
        }
        if fd == 1 || fd == 2 {
            w().stdout_bytes += len as u64;
            return len as isize;
        }
    }
    ret(raw3(1, fd as usize, buf as usize, len))
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, n: i32) -> isize {
    match sim(fd) {
        Some(t) => {
            for i in 0..n as usize {
                let v = &*iov.add(i);
                if v.len > 0 {
                    return any_read(t, fd, v.base, v.len);
                }
            }
            0
        }
        None => ret(raw3(19, fd as usize, iov as usize, n as usize)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, n: i32) -> isize {
    if let Some(t) = cur() {
        let _q = Quiet::new();
        let mut all = vec![];
        for i in 0..n as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(sl(v.base, v.len));
        }
        if fd >= FD_BASE {
            return any_write(t, fd, &all);
        }
        if fd == 1 || fd == 2 {
            w().stdout_bytes += all.len() as u64;
            return all.len() as isize;
        }
    }
    ret(raw3(20, fd as usize, iov as usize, n as usize))
}
#[repr(C)]
pub struct MsgHdr {
    name: usize,
    namelen: u32,
    iov: *const IoVec,
    iovlen: usize,
    control: usize,
    controllen: usize,
    flags: i32,
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: i32, m: *const MsgHdr, flags: i32) -> isize {
    match sim(fd) {
        Some(_) => writev(fd, (*m).iov, (*m).iovlen as i32),
        None => ret(raw3(46, fd as usize, m as usize, flags as usize)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: i32, m: *mut MsgHdr, flags: i32) -> isize {
    match sim(fd) {
        Some(_) => readv(fd, (*m).iov, (*m).iovlen as i32),
        None => ret(raw3(47, fd as usize, m as usize, flags as usize)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, len: usize, off: i64) -> isize {
    match sim(fd) {
        Some(t) => file_read(t, fd, buf, len, Some(off as usize)),
        None => ret(raw6(17, fd as usize, buf as usize, len, off as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, len: usize, off: i64) -> isize {
    match sim(fd) {
        Some(t) => file_write(t, fd, sl(buf, len), Some(off as usize)),
        None => ret(raw6(18, fd as usize, buf as usize, len, off as usize, 0, 0)),
    }
}
unsafe fn do_open(path: *const i8, flags: i32, mode: u32) -> Option<isize> {
    let tid = cur()?;
    let mut p = std::ffi::CStr::from_ptr(path as *const std::ffi::c_char).to_string_lossy().to_string();
    Some(outside(|| {
        if let (Some((_, to)), "keylog.txt") = (&w().log_alias, p.as_str()) {
            p = to.clone();
        }
        if let Err(e) = enter(tid, "open", crate::tape::hash_str(&p), false) {
            return fail(if e == ECONNABORTED { EIO } else { e });
        }
        let _ = mode;
        let wd = w();
        if wd.fd_limit > 0 && wd.fds.len() >= wd.fd_limit {
            wd.count("os.fd_limit");
            return fail(EMFILE);
        }
        let kn = wd.vfs.knobs.get(path_class(&p)).cloned().unwrap_or_default();
        if wd.tape.chance("f.openeintr", tid as u32, kn.open_eintr, 1000) {
            wd.file_fault(&p, tid, "file.open_eintr");
            return fail(EINTR);
        }
        if wd.tape.chance("f.openerr", tid as u32, kn.open_err, 1000) {
            let e = [ENOENT, EACCES, EMFILE, EIO, ENOSPC, EPERM, ENOMEM, ETIMEDOUT][wd.tape.choose("f.openerr.e", tid as u32, 8) as usize];
            wd.file_fault(&p, tid, "file.open_error");
            return fail(e);
        }
        if p == "/dev/urandom" || p == "/dev/random" {
            match wd.rnd_fault(tid, true) {
                Some(RndFault::Err(e)) => return fail(e),
                Some(RndFault::Dead) => return fail(ENOENT),
                _ => {}
            }
            return wd.alloc_fd(FdObj::Urandom { dead: false, reads: 0 }) as isize;
        }
        if p == "/dev/null" {
            return wd.alloc_fd(FdObj::Null) as isize;
        }
        let acc = flags & 3;
        let (creat, excl, trunc, append) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
        let exists = wd.vfs.files.contains_key(&p);
        if !exists && !creat {
            return fail(ENOENT);
        }
        if exists && creat && excl {
            return fail(EEXIST);
        }
        if !exists {
            wd.vfs.files.insert(p.clone(), vec![]);
        }
        if trunc && acc != 0 {
            wd.vfs.files.insert(p.clone(), vec![]);
        }
        wd.alloc_fd(FdObj::File { path: p.clone(), pos: 0, append, rd: acc == 0 || acc == 2, wr: acc == 1 || acc == 2 }) as isize
    }))
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    match do_open(path, flags, mode) {
        Some(r) => r as i32,
        None => ret(raw6(257, -100isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32,
    }
}
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    match do_open(path, flags, mode) {
        Some(r) => r as i32,
        None => ret(raw6(257, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    openat64(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    let _q = Quiet::new();
    if fd >= FD_BASE {
        // may come from a task or from harness code dropping a stream
        let wd = w();
        if let Some(t) = cur() {
            wd.log("closefd", t as u64, fd as u64 - FD_BASE as u64, 0);
        }
        match wd.fds.remove(&fd) {
            Some(FdObj::Sock(c, s)) => wd.close_sock(c, s),
            Some(FdObj::Listener(l)) => {
                if !wd.fds.values().any(|o| matches!(o, FdObj::Listener(x) if *x == l)) {
                    wd.listeners[l].closed = true;
                }
            }
            Some(FdObj::File { path, .. }) => {
                if wd.vfs.locks.get(&path) == Some(&fd) {
                    wd.vfs.locks.remove(&path);
                    wd.wake(&Wait::Lock(path));
                }
            }
            Some(_) => {}
            None => {
                if let Some(t) = cur() {
                    wd.bad_close.push((t, fd));
                }
                return fail(EBADF) as i32;
            }
        }
        return 0;
    }
    if let Some(t) = cur() {
        // one of the process, which the library has never seen
        w().bad_close.push((t, fd));
        return fail(EBADF) as i32;
    }
    ret(raw3(3, fd as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    let _q = Quiet::new();
    match sim(fd) {
        Some(t) => {
            let path = match w().fds.get(&fd) {
                Some(FdObj::File { path, .. }) => path.clone(),
                _ => return fail(EBADF) as i32,
            };
            if op & 8 != 0 {
                if w().vfs.locks.get(&path) == Some(&fd) {
                    w().vfs.locks.remove(&path);
                    w().wake(&Wait::Lock(path));
                }
                return 0;
            }
            if enter(t, "flock", 0, false).is_err() {
                return fail(EIO) as i32;
            }
            loop {
                if w().aborting {
                    return fail(EIO) as i32;
                }
                match w().vfs.locks.get(&path) {
                    None => {
                        w().vfs.locks.insert(path.clone(), fd);
                        return 0;
                    }
                    Some(x) if *x == fd => return 0,
                    _ => {
                        if op & 4 != 0 {
                            return fail(EAGAIN) as i32;
                        }
                        block_task(t, Wait::Lock(path.clone()), 0);
                    }
                }
            }
        }
        None => ret(raw3(73, fd as usize, op as usize, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, addr: *mut u8, len: *mut u32, flags: i32) -> i32 {
    let _q = Quiet::new();
    let tid = match sim(fd) {
        Some(t) => t,
        None => return ret(raw6(288, fd as usize, addr as usize, len as usize, flags as usize, 0, 0)) as i32,
    };
    let l = match w().fds.get(&fd) {
        Some(FdObj::Listener(l)) => *l,
        _ => return fail(EBADF) as i32,
    };
    if let Err(e) = enter(tid, "accept", l as u64, true) {
        return fail(e) as i32;
    }
    loop {
        let wd = w();
        if wd.aborting {
            return fail(ECONNABORTED) as i32;
        }
        if let Some(e) = wd.listeners[l].errs.pop_front() {
            wd.count("net.accept_error");
            return fail(e) as i32;
        }
        if let Some((c, s)) = wd.listeners[l].backlog.pop_front() {
            if wd.accept_err > 0 && wd.tape.chance("accepterr", l as u32, wd.accept_err, 1000) {
                let e = [ECONNABORTED, EMFILE, ENFILE, EPROTO][wd.tape.choose("accepterr.e", l as u32, 4) as usize];
                wd.count("net.accept_error");
                wd.log("accept!", tid as u64, e as u64, 0);
                if e == ECONNABORTED || e == EPROTO {
                    wd.accepted.push((tid, c, false));
                    wd.conns[c].ends[s].closed = true;
                    wd.after(0, Ev::Rst(c, 1 - s));
                } else {
                    wd.listeners[l].backlog.push_front((c, s));
                }
                return fail(e) as i32;
            }
            if wd.fd_limit > 0 && wd.fds.len() >= wd.fd_limit {
                wd.count("os.fd_limit");
                wd.listeners[l].backlog.push_front((c, s));
                return fail(EMFILE) as i32;
            }
            wd.log("accept=", tid as u64, c as u64, s as u64);
            wd.accepted.push((tid, c, true));
            let nfd = wd.sock_fd(c, s);
            fill_addr(addr, len, c);
            return nfd;
        }
        if wd.listeners[l].closed {
            return fail(EINVAL) as i32;
        }
        if wd.listeners[l].nonblock {
            return fail(EAGAIN) as i32;
        }
        block_task(tid, Wait::Accept(l), 0);
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: i32, addr: *mut u8, len: *mut u32) -> i32 {
    accept4(fd, addr, len, 0)
}
unsafe fn fill_addr(addr: *mut u8, len: *mut u32, c: usize) {
    if addr.is_null() || len.is_null() {
        return;
    }
    let port = 10_000 + c as u16;
    let a: [u8; 16] = [2, 0, (port >> 8) as u8, port as u8, 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0];
    let n = (*len as usize).min(16);
    std::ptr::copy_nonoverlapping(a.as_ptr(), addr, n);
    *len = 16;
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: i32, addr: *mut u8, len: *mut u32) -> i32 {
    if let (true, Some(FdObj::Sock(c, _))) = (sim(fd).is_some(), sim(fd).and_then(|_| w().fds.get(&fd).cloned())) {
        fill_addr(addr, len, c);
        return 0;
    }
    ret(raw3(52, fd as usize, addr as usize, len as usize)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: i32, addr: *mut u8, len: *mut u32) -> i32 {
    if sim(fd).is_some() {
        fill_addr(addr, len, 1);
        return 0;
    }
    ret(raw3(51, fd as usize, addr as usize, len as usize)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    let _q = Quiet::new();
    if let Some(_t) = sim(fd) {
        if let Some(FdObj::Sock(c, s)) = w().fds.get(&fd).cloned() {
            let wd = w();
            if how == 0 || how == 2 {
                wd.conns[c].ends[s].rd_shut = true;
            }
            if how == 1 || how == 2 {
                wd.node_shut_wr(c, s);
            }
            return 0;
        }
        return fail(EBADF) as i32;
    }
    ret(raw3(48, fd as usize, how as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32 {
    let _q = Quiet::new();
    if sim(fd).is_some() {
        if let Some(FdObj::Sock(c, s)) = w().fds.get(&fd).cloned() {
            if level == 1 && (name == 20 || name == 21) && len >= 16 {
                let sec = *(val as *const i64);
                let us = *(val as *const i64).add(1);
                let ns = sec as u64 * SEC + us as u64 * 1000;
                if name == 20 {
                    w().conns[c].ends[s].rcvtimeo = ns;
                } else {
                    w().conns[c].ends[s].sndtimeo = ns;
                }
            }
        }
        return 0;
    }
    ret(raw6(54, fd as usize, level as usize, name as usize, val as usize, len as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, level: i32, name: i32, val: *mut u8, len: *mut u32) -> i32 {
    if sim(fd).is_some() {
        let n = *len as usize;
        std::ptr::write_bytes(val, 0, n);
        return 0;
    }
    ret(raw6(55, fd as usize, level as usize, name as usize, val as usize, len as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: u64, arg: usize) -> i32 {
    if sim(fd).is_some() {
        if req == 0x5421 {
            let on = *(arg as *const i32) != 0;
            match w().fds.get(&fd).cloned() {
                Some(FdObj::Sock(c, s)) => w().conns[c].ends[s].nonblock = on,
                Some(FdObj::Listener(l)) => w().listeners[l].nonblock = on,
                _ => {}
            }
        }
        return 0;
    }
    ret(raw3(16, fd as usize, req as usize, arg)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    let _q = Quiet::new();
    if fd >= FD_BASE {
        if cmd == 1030 || cmd == 0 {
            let o = match w().fds.get(&fd) {
                Some(o) => o.clone(),
                None => return fail(EBADF) as i32,
            };
            if let FdObj::Sock(c, s) = &o {
                w().conns[*c].ends[*s].fdrefs += 1;
            }
            return w().alloc_fd(o);
        }
        return if w().fds.contains_key(&fd) { 0 } else { fail(EBADF) as i32 };
    }
    ret(raw3(72, fd as usize, cmd as usize, arg)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    let _q = Quiet::new();
    if sim(fd).is_some() {
        let wd = w();
        if let Some(FdObj::File { path, pos, .. }) = wd.fds.get_mut(&fd) {
            let size = wd.vfs.files.get(path).map(|f| f.len()).unwrap_or(0) as i64;
            let n = match wh {
                0 => off,
                1 => *pos as i64 + off,
                _ => size + off,
            };
            if n < 0 {
                return fail(EINVAL) as i64;
            }
            *pos = n as usize;
            return n;
        }
        return fail(29) as i64;
    }
    ret(raw3(8, fd as usize, off as usize, wh as usize)) as i64
}
/// struct stat of x86_64 Linux
unsafe fn put_stat(st: *mut u8, mode: u32, ino: u64, size: u64) {
    std::ptr::write_bytes(st, 0, 144);
    let f = |at: usize, v: u64| (st.add(at) as *mut u64).write_unaligned(v);
    f(0, 77);
    f(8, ino);
    f(16, 1);
    (st.add(24) as *mut u32).write_unaligned(mode);
    f(48, size);
    f(56, 4096);
    f(64, size.div_ceil(512));
    for at in [72, 88, 104] {
        f(at, w().wall().0 as u64);
    }
}
unsafe fn stat_path(path: *const i8, st: *mut u8) -> i32 {
    let mut p = std::ffi::CStr::from_ptr(path as *const std::ffi::c_char).to_string_lossy().to_string();
    outside(|| {
        if let (Some((_, to)), "keylog.txt") = (&w().log_alias, p.as_str()) {
            p = to.clone();
        }
        let ino = crate::tape::hash_str(&p) >> 20;
        if let Some(f) = w().vfs.files.get(&p) {
            put_stat(st, 0o100644, ino, f.len() as u64);
            return 0;
        }
        match p.as_str() {
            "/dev/urandom" | "/dev/random" | "/dev/null" => put_stat(st, 0o20666, ino, 0),
            "/" | "/sim" | "/sim/" | "." | "/dev" | "" => put_stat(st, 0o40755, ino, 4096),
            _ => return fail(ENOENT) as i32,
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut u8) -> i32 {
    if sim(fd).is_some() {
        return match w().fds.get(&fd) {
            Some(FdObj::File { path, .. }) => {
                let c = std::ffi::CString::new(path.as_str()).unwrap();
                stat_path(c.as_ptr() as *const i8, st)
            }
            Some(FdObj::Sock(..)) | Some(FdObj::Listener(_)) => {
                put_stat(st, 0o140777, fd as u64, 0);
                0
            }
            Some(_) => {
                put_stat(st, 0o20666, fd as u64, 0);
                0
            }
            None => fail(EBADF) as i32,
        };
    }
    ret(raw3(5, fd as usize, st as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, st: *mut u8) -> i32 {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if cur().is_some() {
        if path.is_null() || out.is_null() {
            return fail(14) as i32;
        }
        let mut st = [0u8; 144];
        let r = if *path == 0 && flags & 0x1000 != 0 { fstat64(dir, st.as_mut_ptr()) } else { stat_path(path, st.as_mut_ptr()) };
        if r != 0 {
            return r;
        }
        let g = |at: usize| u64::from_le_bytes(st[at..at + 8].try_into().unwrap());
        std::ptr::write_bytes(out, 0, 256);
        let f = |at: usize, v: u64| (out.add(at) as *mut u64).write_unaligned(v);
        f(0, 0x7ff | 4096 << 32);
        f(16, 1);
        (out.add(28) as *mut u16).write_unaligned(g(24) as u16);
        f(32, g(8));
        f(40, g(48));
        f(48, g(64));
        for at in [64, 80, 96, 112] {
            f(at, g(72));
        }
        return 0;
    }
    ret(raw6(332, dir as isize as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const i8, st: *mut u8) -> i32 {
    if cur().is_some() {
        return stat_path(path, st);
    }
    ret(raw3(4, path as usize, st as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const i8, st: *mut u8) -> i32 {
    if cur().is_some() {
        return stat_path(path, st);
    }
    ret(raw3(6, path as usize, st as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, mode: u32) -> i32 {
    if sim(fd).is_some() {
        return 0;
    }
    ret(raw3(91, fd as usize, mode as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const i8) -> i32 {
    if cur().is_some() {
        let p = std::ffi::CStr::from_ptr(path as *const std::ffi::c_char).to_string_lossy().to_string();
        return outside(|| if w().vfs.files.remove(&p).is_some() { 0 } else { fail(ENOENT) as i32 });
    }
    ret(raw3(87, path as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const i8, to: *const i8) -> i32 {
    if cur().is_some() {
        let s = |p: *const i8| std::ffi::CStr::from_ptr(p as *const std::ffi::c_char).to_string_lossy().to_string();
        let (a, b) = (s(from), s(to));
        return outside(|| match w().vfs.files.remove(&a) {
            Some(f) => {
                w().vfs.files.insert(b, f);
                0
            }
            None => fail(ENOENT) as i32,
        });
    }
    ret(raw3(82, from as usize, to as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if sim(fd).is_some() {
        return 0;
    }
    ret(raw3(74, fd as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if sim(fd).is_some() {
        return 0;
    }
    ret(raw3(75, fd as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if sim(fd).is_some() {
        if let Some(FdObj::File { path, .. }) = w().fds.get(&fd).cloned() {
            w().vfs.files.entry(path).or_default().resize(len as usize, 0);
            return 0;
        }
        return fail(EBADF) as i32;
    }
    ret(raw3(77, fd as usize, len as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut u8, n: u64, to: i32) -> i32 {
    if cur().is_some() {
        // pollfd {i32 fd; i16 events; i16 revents}: report ready, the read blocks
        for i in 0..n as usize {
            let p = fds.add(i * 8);
            *(p.add(6) as *mut i16) = *(p.add(4) as *const i16);
        }
        return n as i32;
    }
    ret(raw3(7, fds as usize, n as usize, to as usize)) as i32
}
#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    let _q = Quiet::new();
    if let Some(_t) = cur() {
        let wd = w();
        if clk == 0 || clk == 5 || clk == 11 {
            wd.clock_reads += 1;
            let n = wd.clock_reads;
            if let Some(mut f) = wd.clock_jump.take() {
                let d = outside(|| f(&mut wd.tape, n));
                wd.clock_jump = Some(f);
                if d != 0 {
                    wd.jump(d);
                }
            }
            let (s, n) = wd.wall();
            let now = wd.now;
            wd.clock_obs.push((_t, now, s));
            (*ts).s = s;
            (*ts).n = n;
        } else {
            (*ts).s = (wd.now / SEC) as i64 + 1000;
            (*ts).n = (wd.now % SEC) as i64;
        }
        return 0;
    }
    ret(raw3(228, clk as usize, ts as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Ts, _tz: usize) -> i32 {
    let mut t = Ts { s: 0, n: 0 };
    let r = clock_gettime(0, &mut t);
    (*tv).s = t.s;
    (*tv).n = t.n / 1000;
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut t = Ts { s: 0, n: 0 };
    clock_gettime(0, &mut t);
    if !p.is_null() {
        *p = t.s;
    }
    t.s
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, rem: *mut Ts) -> i32 {
    if let Some(t) = cur() {
        let d = (*req).s as u64 * SEC + (*req).n as u64;
        block_task(t, Wait::Sleep, d.max(1));
        return 0;
    }
    ret(raw3(35, req as usize, rem as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Ts, rem: *mut Ts) -> i32 {
    if cur().is_some() {
        return nanosleep(req, rem);
    }
    let r = raw6(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0);
    if r < 0 {
        -r as i32
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(t) = cur() {
        if !w().aborting {
            yield_task(t);
        }
        return 0;
    }
    ret(raw3(24, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let _q = Quiet::new();
    if let Some(t) = cur() {
        if flags & 4 != 0 {
            // GRND_INSECURE: std's hash-map seeds, not key material
            for i in 0..len {
                *buf.add(i) = i as u8;
            }
            return len as isize;
        }
        let b = w().rnd_bytes(t, len);
        std::ptr::copy_nonoverlapping(b.as_ptr(), buf, len);
        return len as isize;
    }
    ret(raw3(318, buf as usize, len, flags as usize))
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let _q = Quiet::new();
    if let Some(t) = cur() {
        match n {
            202 => {
                let op = b & 0x7f;
                let addr = a as *const u32;
                match op {
                    0 | 9 => {
                        if w().aborting {
                            return fail(EINTR) as i64;
                        }
                        if std::ptr::read_volatile(addr) != c as u32 {
                            return fail(EAGAIN) as i64;
                        }
                        let to = if d != 0 && op == 0 {
                            let ts = &*(d as *const Ts);
                            (ts.s as u64 * SEC + ts.n as u64).max(1)
                        } else if d != 0 {
                            // FUTEX_WAIT_BITSET: absolute monotonic time
                            let ts = &*(d as *const Ts);
                            let nowm = w().now + 1000 * SEC;
                            (ts.s as u64 * SEC + ts.n as u64).saturating_sub(nowm).max(1)
                        } else {
                            0
                        };
                        w().count("sched.futex_wait");
                        if block_task(t, Wait::Futex(a), to) && to > 0 {
                            return fail(ETIMEDOUT) as i64;
                        }
                        return 0;
                    }
                    1 | 10 => {
                        let mut k = 0;
                        for task in w().tasks.iter_mut() {
                            if k >= c as u64 {
                                break;
                            }
                            if task.state == TState::Blocked(Wait::Futex(a)) {
                                task.state = TState::Runnable;
                                k += 1;
                            }
                        }
                        return k as i64;
                    }
                    _ => {}
                }
            }
            318 => return getrandom(a as *mut u8, b, c as u32) as i64,
            332 => return fail(38) as i64,
            _ => {
                w().escapes += 1;
            }
        }
    }
    ret(raw6(n as usize, a, b, c, d, e, f)) as i64
}
