//! Seeds, workers, verdicts, minimisation, replay files and evidence.
//! Every run happens in a forked child of a prepared process, so each starts
//! from the same state and a crash or an endless loop belongs to one seed.
use crate::json::J;
use crate::scen;
use crate::tape::{hash_str, mix, Key, Tape};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn prctl(a: i32, ...) -> i32;
    fn setrlimit(what: i32, lim: *const u64) -> i32;
}
/// a task used up the basic blocks it may run between two calls
pub fn exit_spinning() -> ! {
    unsafe { _exit(78) }
}
fn rread(fd: i32, b: &mut [u8]) -> isize {
    crate::os::raw3(0, fd as usize, b.as_mut_ptr() as usize, b.len())
}
fn rwrite(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = crate::os::raw3(1, fd as usize, b[o..].as_ptr() as usize, b.len() - o);
        if n <= 0 {
            return;
        }
        o += n as usize;
    }
}
fn rclose(fd: i32) {
    crate::os::raw3(3, fd as usize, 0, 0);
}

#[derive(Clone, Debug, Default)]
pub struct Res {
    pub scen: String,
    pub viol: Option<(String, String)>,
    pub loghash: u64,
    pub sched: u64,
    pub steps: u64,
    pub longest: u64,
    pub now: u64,
    pub stats: BTreeMap<String, u64>,
    pub probes: BTreeSet<String>,
    pub tape: BTreeMap<Key, Vec<u64>>,
    pub trace: Vec<String>,
    pub notes: Vec<String>,
    pub fatal: Option<String>,
}
fn tape_json(t: &BTreeMap<Key, Vec<u64>>) -> J {
    J::Obj(t.iter().map(|((l, k), v)| (format!("{l}/{k}"), J::Arr(v.iter().map(|x| J::n(*x)).collect()))).collect())
}
fn tape_from(j: &J) -> BTreeMap<Key, Vec<u64>> {
    let mut out = BTreeMap::new();
    if let J::Obj(m) = j {
        for (k, v) in m {
            if let (Some((l, n)), J::Arr(a)) = (k.rsplit_once('/'), v) {
                out.insert((l.to_string(), n.parse().unwrap_or(0)), a.iter().map(|x| x.u()).collect());
            }
        }
    }
    out
}
impl Res {
    fn json(&self, with_tape: bool) -> J {
        let st = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect());
        let mut v = vec![
            ("scen", J::s(&self.scen)),
            ("h", J::n(self.loghash)),
            ("sh", J::n(self.sched)),
            ("steps", J::n(self.steps)),
            ("longest", J::n(self.longest)),
            ("now", J::n(self.now)),
            ("stats", st(&self.stats)),
            ("probes", J::Arr(self.probes.iter().map(J::s).collect())),
        ];
        if let Some((a, b)) = &self.viol {
            v.push(("class", J::s(a)));
            v.push(("msg", J::s(b)));
        }
        if with_tape {
            v.push(("tape", tape_json(&self.tape)));
            v.push(("trace", J::Arr(self.trace.iter().map(J::s).collect())));
            v.push(("notes", J::Arr(self.notes.iter().map(J::s).collect())));
        }
        J::obj(v)
    }
    fn from(j: &J) -> Res {
        let arr = |k: &str| -> Vec<String> {
            match j.get(k) {
                J::Arr(a) => a.iter().map(|x| x.str()).collect(),
                _ => vec![],
            }
        };
        Res {
            scen: j.get("scen").str(),
            viol: if j.get("class") != &J::Null { Some((j.get("class").str(), j.get("msg").str())) } else { None },
            loghash: j.get("h").u(),
            sched: j.get("sh").u(),
            steps: j.get("steps").u(),
            longest: j.get("longest").u(),
            now: j.get("now").u(),
            stats: match j.get("stats") {
                J::Obj(m) => m.iter().map(|(k, v)| (k.clone(), v.u())).collect(),
                _ => BTreeMap::new(),
            },
            probes: arr("probes").into_iter().collect(),
            tape: tape_from(j.get("tape")),
            trace: arr("trace"),
            notes: arr("notes"),
            fatal: None,
        }
    }
}
/// the run itself, in this process
fn execute(pid: &str, tape: Tape, trace: bool) -> Res {
    let mut wd = World::new(tape);
    if trace {
        wd.trace = Some(vec![]);
    }
    install(wd);
    let scen = scen::run(pid).to_string();
    kill_all();
    let w = w();
    if w.escapes > 0 && w.viol.is_none() {
        w.note.push(format!("{} unexpected system calls", w.escapes));
    }
    Res {
        scen,
        viol: w.viol.as_ref().map(|v| (v.class.clone(), v.msg.clone())),
        loghash: w.loghash,
        sched: w.schedhash,
        steps: w.steps,
        longest: crate::os::longest_computation(),
        now: w.now,
        stats: w.stats.iter().map(|(k, v)| (k.to_string(), *v)).chain([("os.escapes".to_string(), w.escapes)]).filter(|x| x.1 > 0).collect(),
        probes: w.probes.clone(),
        tape: w.tape.recorded(),
        trace: w.trace.take().unwrap_or_default(),
        notes: w.note.clone(),
        fatal: None,
    }
}
/// seconds of processor time, for loops outside the instrumented library
const CPU_LIMIT: u64 = 60;
/// seconds of real time: too slow a machine, no verdict
const WALL_LIMIT: u32 = 600;
/// fork, run, collect
fn forked(pid: &str, mk: impl FnOnce() -> Tape, trace: bool, full: bool) -> Res {
    let mut fds = [0i32; 2];
    unsafe { pipe(fds.as_mut_ptr()) };
    let child = unsafe { fork() };
    if child == 0 {
        rclose(fds[0]);
        unsafe {
            prctl(1, 9usize); // die with the parent
            setrlimit(0, [CPU_LIMIT, CPU_LIMIT + 5].as_ptr());
            alarm(WALL_LIMIT);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(pid, mk(), trace)));
        match r {
            Ok(r) => {
                let full = full || r.viol.is_some();
                rwrite(fds[1], r.json(full).text().as_bytes());
                unsafe { _exit(0) }
            }
            Err(_) => unsafe { _exit(101) },
        }
    }
    rclose(fds[1]);
    let mut buf = vec![];
    let mut tmp = vec![0u8; 65536];
    loop {
        let n = rread(fds[0], &mut tmp);
        if n <= 0 {
            if n == -4 {
                continue;
            }
            break;
        }
        buf.extend_from_slice(&tmp[..n as usize]);
    }
    rclose(fds[0]);
    let mut st = 0i32;
    while unsafe { waitpid(child, &mut st, 0) } != child {}
    let sig = st & 0x7f;
    if sig != 0 {
        if sig == 14 {
            return Res { fatal: Some(format!("no result within {WALL_LIMIT} s of real time")), ..Default::default() };
        }
        let (c, m) = if sig == 24 || sig == 9 {
            ("spin", format!("the run did not end within {CPU_LIMIT} s of processor time: some task computes for ever"))
        } else {
            ("crash", format!("the process died with signal {sig}"))
        };
        return Res { viol: Some((format!("{pid}.{c}"), m)), fatal: Some(c.into()), ..Default::default() };
    }
    let code = st >> 8 & 0xff;
    if code != 0 {
        let (c, m) = if code == 77 {
            ("memory", "the run needed more than 1 GiB of memory".to_string())
        } else if code == 78 {
            ("spin", format!("a task ran {} basic blocks of the library without a system call: it computes for ever", crate::os::FUEL_PER_CALL))
        } else {
            return Res { fatal: Some(format!("harness failure, exit code {code}")), ..Default::default() };
        };
        return Res { viol: Some((format!("{pid}.{c}"), m)), fatal: Some(c.into()), ..Default::default() };
    }
    match std::str::from_utf8(&buf).ok().and_then(J::parse) {
        Some(j) => Res::from(&j),
        None => Res { fatal: Some("harness failure: unreadable result".into()), ..Default::default() },
    }
}
pub fn run_seed(pid: &str, base: u64, i: u64) -> u64 {
    mix(mix(base ^ 0xA11C_E5EE_D000) ^ hash_str(pid) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> 16
}
struct Known {
    class: String,
    pat: String,
    text: String,
}
fn known(pid: &str) -> Vec<Known> {
    let f = root().join("known-findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        // KNOWN-FINDING: property=C01 class=data match=<text> :: description
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
            let (p, r) = r.split_once(' ').unwrap_or((r, ""));
            if p != pid {
                continue;
            }
            let (h, d) = r.split_once(" :: ").unwrap_or((r, ""));
            let (cl, m) = h.split_once(" match=").unwrap_or((h, ""));
            let cl = cl.strip_prefix("class=").unwrap_or(cl);
            v.push(Known { class: format!("{p}.{cl}"), pat: m.to_string(), text: d.to_string() });
        }
    }
    v
}
fn is_known<'a>(k: &'a [Known], v: &(String, String)) -> Option<&'a Known> {
    k.iter().find(|k| k.class == v.0 && !k.pat.is_empty() && v.1.contains(&k.pat))
}
fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(|x| x.into()).unwrap_or_else(|_| std::path::PathBuf::from("/verif"))
}
fn prewarm() {
    for i in 0..crate::env::NMAT {
        crate::env::mat(i);
    }
    crate::env::short_nonces();
    crate::scen::prewarm();
}

// ---------------------------------------------------------------- worker
fn worker(a: &[String]) -> i32 {
    let pid = &a[2];
    let base: u64 = a[3].parse().unwrap();
    let (idx, stride, count): (u64, u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
    let cap = Duration::from_secs(a[7].parse().unwrap());
    let keep = a.get(8).map(|x| x == "keep").unwrap_or(false);
    unsafe { prctl(1, 9usize) };
    prewarm();
    crate::os::share_coverage();
    let (mut cov_n, mut cov_at) = (0, 0);
    let mut longest = 0;
    let t0 = Instant::now();
    let known = known(pid);
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut scens: BTreeMap<String, u64> = BTreeMap::new();
    let mut sched = HashSet::new();
    let mut probes = BTreeSet::new();
    let (mut runs, mut steps, mut sim, mut faulty) = (0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut found: BTreeMap<String, u64> = BTreeMap::new();
    let out = std::io::stdout();
    let mut i = idx;
    let mut replays = 0;
    while i < count {
        if t0.elapsed() > cap {
            break;
        }
        let seed = run_seed(pid, base, i);
        let r = forked(pid, || Tape::gen(seed), false, false);
        if let (Some(f), None) = (&r.fatal, &r.viol) {
            let _ = writeln!(out.lock(), "E\t{seed}\t{f}");
            return 2;
        }
        runs += 1;
        if runs % 50 == 1 && r.viol.is_none() {
            // the same seed must give the same execution
            let r2 = forked(pid, || Tape::gen(seed), false, true);
            let r3 = forked(pid, || Tape::replay(seed, r2.tape.clone()), false, false);
            replays += 1;
            if r2.loghash != r.loghash || r3.loghash != r.loghash || r2.sched != r.sched {
                let _ = writeln!(out.lock(), "E\t{seed}\tthe simulator is not deterministic for this seed");
                return 2;
            }
        }
        let c = crate::os::coverage().iter().filter(|x| **x != 0).count();
        if c > cov_n {
            (cov_n, cov_at) = (c, runs);
        }
        longest = longest.max(r.longest);
        steps += r.steps;
        sim += r.now;
        *scens.entry(r.scen.clone()).or_insert(0) += 1;
        let mut any = false;
        for (k, v) in &r.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
            if !k.starts_with("sched.") && !k.starts_with("os.") && !k.starts_with("foreign") {
                any = true;
            }
        }
        if any {
            faulty += 1;
            sched.insert(r.sched);
        }
        probes.extend(r.probes.iter().cloned());
        if samples.len() < 2 {
            samples.push(format!("seed {seed}: scenario {}, {} steps, {} simulated ms, event log {:016x}, injected {:?}", r.scen, r.steps, r.now / 1_000_000, r.loghash, r.stats));
        }
        if let Some(v) = &r.viol {
            if let Some(k) = is_known(&known, v) {
                *stats.entry("known.findings".into()).or_insert(0) += 1;
                *found.entry(k.text.clone()).or_insert(0) += 1;
            } else {
                let _ = writeln!(out.lock(), "V\t{seed}\t{}\t{}\t{}", r.scen, v.0, v.1.replace(['\n', '\t'], " "));
                let _ = out.lock().flush();
                if !keep {
                    break;
                }
            }
        }
        i += stride;
    }
    let j = J::obj(vec![
        ("runs", J::n(runs)),
        ("steps", J::n(steps)),
        ("sim", J::n(sim)),
        ("faulty", J::n(faulty)),
        ("replays", J::n(replays as u64)),
        ("longest", J::n(longest)),
        ("cov_at", J::n(cov_at)),
        ("cov", J::s(crate::os::coverage().iter().map(|x| if *x != 0 { '1' } else { '0' }).collect::<String>())),
        ("secs", J::F(t0.elapsed().as_secs_f64())),
        ("stats", J::Obj(stats.into_iter().map(|(k, v)| (k, J::n(v))).collect())),
        ("scens", J::Obj(scens.into_iter().map(|(k, v)| (k, J::n(v))).collect())),
        ("known", J::Obj(found.into_iter().map(|(k, v)| (k, J::n(v))).collect())),
        ("sched", J::Arr(sched.into_iter().map(J::n).collect())),
        ("probes", J::Arr(probes.into_iter().map(J::s).collect())),
        ("samples", J::Arr(samples.into_iter().map(J::s).collect())),
    ]);
    let _ = writeln!(out.lock(), "S\t{}", j.text().replace('\n', " "));
    0
}

// ---------------------------------------------------------------- minimiser
fn minimise(pid: &str, seed: u64, first: Res, budget: Duration) -> (Res, u64) {
    let t0 = Instant::now();
    let class = first.viol.as_ref().unwrap().0.clone();
    let mut tries = 0u64;
    let mut best = first;
    let try_ = |t: &BTreeMap<Key, Vec<u64>>, tries: &mut u64| -> Option<Res> {
        *tries += 1;
        let r = forked(pid, || Tape::replay(seed, t.clone()), false, true);
        match &r.viol {
            Some(v) if v.0 == class && r.fatal.is_none() => Some(r),
            _ => None,
        }
    };
    let mut again = true;
    let mut rounds = 0;
    while again && t0.elapsed() < budget && rounds < 6 {
        again = false;
        rounds += 1;
        let keys: Vec<Key> = best.tape.keys().cloned().collect();
        // whole streams, long ones first
        let mut ks: Vec<(usize, Key)> = keys.iter().map(|k| (best.tape[k].len(), k.clone())).collect();
        ks.sort();
        ks.reverse();
        for (_, k) in &ks {
            if t0.elapsed() > budget {
                break;
            }
            if !best.tape.contains_key(k) || k.0 == "scen" {
                continue;
            }
            let mut t = best.tape.clone();
            t.remove(k);
            if let Some(r) = try_(&t, &mut tries) {
                best = r;
                again = true;
            }
        }
        // truncate, then zero single values, then halve them
        for (_, k) in &ks {
            let n = best.tape.get(k).map(|v| v.len()).unwrap_or(0);
            if n == 0 || k.0 == "scen" {
                continue;
            }
            let mut cut = n / 2;
            while cut > 0 && t0.elapsed() < budget {
                let cur = best.tape.get(k).map(|v| v.len()).unwrap_or(0);
                if cur <= cut {
                    break;
                }
                let mut t = best.tape.clone();
                t.get_mut(k).unwrap().truncate(cur - cut);
                match try_(&t, &mut tries) {
                    Some(r) => {
                        best = r;
                        again = true;
                    }
                    None => cut /= 2,
                }
            }
            let n = best.tape.get(k).map(|v| v.len()).unwrap_or(0);
            for i in 0..n.min(24) {
                if t0.elapsed() > budget {
                    break;
                }
                let v = match best.tape.get(k).and_then(|v| v.get(i)) {
                    Some(v) if *v != 0 => *v,
                    _ => continue,
                };
                for nv in [0, v / 2, v - 1] {
                    if nv >= v {
                        continue;
                    }
                    let mut t = best.tape.clone();
                    t.get_mut(k).unwrap()[i] = nv;
                    if let Some(r) = try_(&t, &mut tries) {
                        best = r;
                        again = true;
                        break;
                    }
                }
            }
        }
    }
    (best, tries)
}
fn write_replay(pid: &str, seed: u64, tries: u64, orig: usize, r: &Res, path: &std::path::Path) {
    let v = r.viol.clone().unwrap_or_default();
    let tr = if r.trace.len() > 400 { r.trace[r.trace.len() - 400..].to_vec() } else { r.trace.clone() };
    let j = J::obj(vec![
        ("property", J::s(pid)),
        ("seed", J::n(seed)),
        ("scenario", J::s(&r.scen)),
        ("class", J::s(&v.0)),
        ("message", J::s(&v.1)),
        ("loghash", J::s(format!("{:016x}", r.loghash))),
        ("fatal", J::s(r.fatal.clone().unwrap_or_default())),
        ("tape", tape_json(&r.tape)),
        ("choices", J::n(r.tape.values().map(|x| x.len() as u64).sum::<u64>())),
        ("choices_before_minimising", J::n(orig as u64)),
        ("minimiser_runs", J::n(tries)),
        ("schedule_and_fault_trace", J::Arr(tr.iter().map(J::s).collect())),
        ("notes", J::Arr(r.notes.iter().map(J::s).collect())),
    ]);
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let _ = std::fs::write(path, j.text());
}
fn cmd_minimise(a: &[String]) -> i32 {
    let pid = &a[2];
    let seed: u64 = a[3].parse().unwrap();
    let budget = Duration::from_secs(a[4].parse().unwrap());
    let path = std::path::PathBuf::from(&a[5]);
    prewarm();
    let r = forked(pid, || Tape::gen(seed), false, true);
    let v = match &r.viol {
        Some(v) => v.clone(),
        None => {
            println!("not reproduced");
            return 3;
        }
    };
    if r.fatal.is_some() {
        // the tape of a process that died is its seed
        write_replay(pid, seed, 0, 0, &r, &path);
        return 0;
    }
    let orig: usize = r.tape.values().map(|x| x.len()).sum();
    let _ = v;
    let (best, tries) = minimise(pid, seed, r, budget);
    let fin = forked(pid, || Tape::replay(seed, best.tape.clone()), true, true);
    write_replay(pid, seed, tries, orig, &fin, &path);
    0
}
fn cmd_replay(path: &str) -> i32 {
    let j = match std::fs::read_to_string(path).ok().as_deref().and_then(J::parse) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let pid = j.get("property").str();
    let seed = j.get("seed").u();
    prewarm();
    let fatal = !j.get("fatal").str().is_empty();
    let t = tape_from(j.get("tape"));
    let r = forked(&pid, || if fatal { Tape::gen(seed) } else { Tape::replay(seed, t) }, true, true);
    for l in &r.trace {
        println!("{l}");
    }
    let v = r.viol.clone().unwrap_or_default();
    let same = v.0 == j.get("class").str() && (fatal || (v.1 == j.get("message").str() && format!("{:016x}", r.loghash) == j.get("loghash").str()));
    println!("{}: {}", v.0, v.1);
    println!("log {:016x} recorded {}", r.loghash, j.get("loghash").str());
    if same {
        println!("REPRODUCED");
        1
    } else if r.viol.is_some() {
        println!("DIFFERENT EXECUTION");
        4
    } else {
        println!("NOT REPRODUCED (the violation does not occur on this tree)");
        0
    }
}

// ---------------------------------------------------------------- check
fn check(a: &[String]) -> i32 {
    let pid = a[2].clone();
    let tier = a.get(3).cloned().unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let (mut count, mut cap) = scen::budget(&pid, &tier);
    if let Some(x) = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()) {
        count = x;
    }
    if let Some(x) = std::env::var("SIM_CAP").ok().and_then(|x| x.parse().ok()) {
        cap = x;
    }
    let keep = std::env::var("SIM_KEEP").is_ok();
    let jobs: u64 = std::env::var("SIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = std::sync::mpsc::channel::<(u64, String)>();
    let mut kids = vec![];
    for i in 0..jobs {
        let mut c = Command::new(&exe);
        c.args(["worker", &pid, &seed.to_string(), &i.to_string(), &jobs.to_string(), &count.to_string(), &cap.to_string()]);
        if keep {
            c.arg("keep");
        }
        let mut ch = c.stdout(Stdio::piped()).spawn().unwrap();
        let o = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                match l {
                    Ok(l) => {
                        let _ = tx.send((i, l));
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send((i, "X".into()));
        });
        kids.push(ch);
    }
    let mut viol: Option<(u64, String, String, String)> = None;
    let mut tally: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut sums = vec![];
    let mut err = None;
    let mut ended = 0;
    while ended < jobs {
        let (_, l) = rx.recv().unwrap();
        let f: Vec<&str> = l.splitn(5, '\t').collect();
        match f[0] {
            "X" => ended += 1,
            "V" if f.len() == 5 => {
                let v = (f[1].parse().unwrap_or(0), f[2].to_string(), f[3].to_string(), f[4].to_string());
                let e = tally.entry(format!("{} {}", v.1, v.2)).or_insert((0, v.0, v.3.clone()));
                e.0 += 1;
                if viol.is_none() {
                    viol = Some(v);
                    if !keep {
                        for k in kids.iter_mut() {
                            let _ = k.kill();
                        }
                    }
                }
            }
            "S" => {
                if let Some(j) = J::parse(&l[2..]) {
                    sums.push(j)
                }
            }
            "E" => err = Some(l.clone()),
            _ => {}
        }
    }
    for k in kids.iter_mut() {
        let _ = k.wait();
    }
    if keep {
        for (k, (n, s, m)) in &tally {
            println!("{n:6} {k} e.g. seed {s}: {}", m.chars().take(600).collect::<String>());
        }
    }
    let mut code = 0;
    let mut nviol = 0u64;
    if let Some((vs, scen, class, msg)) = &viol {
        nviol = 1;
        let path = root().join("replays").join(format!("{pid}-{vs}.json"));
        let b = if tier == "quick" { 40 } else { 120 };
        let _ = Command::new(&exe).args(["minimise", &pid, &vs.to_string(), &b.to_string(), path.to_str().unwrap()]).status();
        if !path.exists() {
            // could not be reproduced outside the worker: keep the seed
            let r = Res { viol: Some((class.clone(), msg.clone())), fatal: Some("seed only".into()), scen: scen.clone(), ..Default::default() };
            write_replay(&pid, *vs, 0, 0, &r, &path);
        }
        let rep = Command::new(&exe).args(["replay", path.to_str().unwrap()]).stdout(Stdio::null()).status();
        println!("seed {vs} scenario {scen}: {class}: {}", msg.chars().take(900).collect::<String>());
        println!("replay check: {}", if rep.map(|r| r.code() == Some(1)).unwrap_or(false) { "reproduced exactly" } else { "NOT reproduced" });
        println!("VIOLATION property={pid} replay={}", path.display());
        code = 1;
    } else if let Some(e) = &err {
        eprintln!("check error: {e}");
        code = 2;
    } else if sums.len() as u64 != jobs {
        eprintln!("check error: a worker gave no summary");
        code = 2;
    }
    // evidence
    let add = |k: &str| -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for s in &sums {
            if let J::Obj(o) = s.get(k) {
                for (k, v) in o {
                    *m.entry(k.clone()).or_insert(0) += v.u();
                }
            }
        }
        m
    };
    let tot = |k: &str| -> u64 { sums.iter().map(|s| s.get(k).u()).sum() };
    let mut sched = HashSet::new();
    let mut probes = BTreeSet::new();
    let mut samples = vec![];
    for s in &sums {
        if let J::Arr(v) = s.get("sched") {
            sched.extend(v.iter().map(|x| x.u()));
        }
        if let J::Arr(v) = s.get("probes") {
            probes.extend(v.iter().map(|x| x.str()));
        }
        if let J::Arr(v) = s.get("samples") {
            samples.extend(v.iter().take(1).cloned());
        }
    }
    if let Some((s, sc, c, m)) = &viol {
        samples.push(J::s(format!("violating seed {s}: {sc} {c} {m}")));
    }
    let mut cov: Vec<bool> = vec![];
    for s in &sums {
        for (i, b) in s.get("cov").str().bytes().enumerate() {
            if cov.len() <= i {
                cov.push(false);
            }
            cov[i] |= b == b'1';
        }
    }
    if let Ok(f) = std::env::var("SIM_COV") {
        // block address and whether it was reached
        let a = crate::os::block_addresses();
        let t: String = a.iter().enumerate().map(|(i, p)| format!("{p:#x} {}\n", cov.get(i).copied().unwrap_or(false) as u8)).collect();
        let _ = std::fs::write(f, t);
    }
    let most = |k: &str| sums.iter().map(|s| s.get(k).u()).max().unwrap_or(0);
    let kn = add("known");
    for (k, n) in &kn {
        println!("KNOWN-FINDING: property={pid} {k} ({n} runs)");
    }
    let runs = tot("runs");
    let wall = t0.elapsed().as_secs_f64();
    let mo = |m: BTreeMap<String, u64>| J::Obj(m.into_iter().map(|(k, v)| (k, J::n(v))).collect());
    let stats = add("stats");
    let faults: BTreeMap<String, u64> = stats.iter().filter(|x| !x.0.starts_with("os.") && !x.0.starts_with("foreign") && !x.0.starts_with("known")).map(|x| (x.0.clone(), *x.1)).collect();
    let rest: BTreeMap<String, u64> = stats.iter().filter(|x| !faults.contains_key(x.0)).map(|x| (x.0.clone(), *x.1)).collect();
    let ev = J::obj(vec![
        ("property", J::s(&pid)),
        ("tier", J::s(&tier)),
        ("seed", J::n(seed)),
        ("level", J::s("exploration")),
        ("wall_s", J::F(wall)),
        ("violations", J::n(nviol)),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::n(runs)),
                ("distinct_nontrivial", J::n(sched.len() as u64)),
                ("rule", J::s("one evaluation is one simulated execution from one seed, run in its own forked process; it is non-trivial when the simulator injected at least one fault, hostile action or network disturbance, and two are distinct when the hash over the sequence of scheduling decisions and delivered events differs")),
                ("runs_with_injection", J::n(tot("faulty"))),
                ("seeds_per_hour", J::n((runs as f64 / wall * 3600.0) as u64)),
                ("simulated_seconds", J::F(tot("sim") as f64 / 1e9)),
                ("scheduler_steps", J::n(tot("steps"))),
                ("injected", mo(faults)),
                ("other_counters", mo(rest)),
                ("runs_per_scenario", mo(add("scens"))),
                ("runs_repeated_to_test_determinism", J::n(tot("replays"))),
                ("distinct_situations_reached", J::n(probes.len() as u64)),
                ("situations", J::Arr(probes.iter().take(400).map(J::s).collect())),
                ("library_basic_blocks", J::n(cov.len() as u64)),
                ("library_basic_blocks_reached_in_simulation", J::n(cov.iter().filter(|x| **x).count() as u64)),
                ("runs_of_a_worker_until_its_last_new_block", J::n(most("cov_at"))),
                ("longest_computation_between_two_system_calls_in_blocks", J::n(most("longest"))),
                ("known_findings_hit", mo(kn)),
                ("real_components", J::s("the whole anothertls crate: client, server, records, key schedule, ciphers, X.509, key log, PRNG, PEM; std threads, locks, TcpStream, TcpListener, File")),
                ("stub_components", J::s("kernel below libc: sockets, files, clock, random device, futex; the peer, the man in the middle and the observer are an independent TLS 1.3 implementation written for the harness")),
                ("samples", J::Arr(samples)),
            ]),
        ),
        (
            "assumptions",
            J::Arr(vec![
                J::s("the harness' own TLS and cryptography code is right (self-tests against published vectors; two independent implementations have to agree in every honest run)"),
                J::s("search is a sample: absence of a violation is evidence, not proof"),
            ]),
        ),
    ]);
    let _ = std::fs::create_dir_all(root().join("evidence"));
    let _ = std::fs::write(root().join("evidence").join(format!("{pid}.json")), ev.text());
    println!("{pid} {tier}: {runs} runs in {wall:.1} s, {} distinct schedules, {} situations", sched.len(), probes.len());
    code
}
pub fn main(a: &[String]) -> i32 {
    match a.get(1).map(|x| x.as_str()) {
        Some("worker") => worker(a),
        Some("check") => check(a),
        Some("minimise") => cmd_minimise(a),
        Some("replay") => cmd_replay(&a[2]),
        Some("run") => {
            let trace = a.iter().any(|x| x == "--trace");
            prewarm();
            let t0 = Instant::now();
            let seed: u64 = a[3].parse().unwrap();
            let r = if a.iter().any(|x| x == "--here") { execute(&a[2], Tape::gen(seed), trace) } else { forked(&a[2], || Tape::gen(seed), trace, true) };
            for l in &r.trace {
                println!("{l}");
            }
            println!("scen {} steps {} now {} ms log {:016x} fatal {:?} in {:?}", r.scen, r.steps, r.now / 1_000_000, r.loghash, r.fatal, t0.elapsed());
            println!("stats {:?}\nprobes {:?}\nnotes {:#?}\nviol {:?}", r.stats, r.probes, r.notes, r.viol);
            r.viol.is_some() as i32
        }
        _ => {
            eprintln!("usage: sim check|run|replay ...");
            2
        }
    }
}
