//! The explorer: enumerates executions by increasing number of deviations, with happens-before state pruning.
//! Every execution runs in its own forked process.

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::time::{Duration, Instant};

use crate::sched::{Execution, Final, NoHash, Options, PointRec, F_DATA, F_FREE};
use crate::{mix, sched};

/// What an execution does and how it is judged. Built anew inside the process of each execution.
pub struct Program {
    pub root: Box<dyn FnOnce() + Send>,
    pub check: Box<dyn FnOnce(&Final) -> (String, Vec<String>)>,
}

pub struct Config {
    pub opts: Options,
    pub bound: u32,
    pub deadline: Instant,
    pub max_execs: u64,
    pub workers: usize,
    pub hash_seed: u64,
    /// stop at the first failure for which this returns true
    pub is_new: Box<dyn Fn(&str) -> bool>,
    pub validate_every: u64,
}

#[derive(Default, Debug)]
pub struct Report {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_points: usize,
    pub bound_completed: i64,
    pub exhausted: bool,
    pub capped: bool,
    /// executions that made no progress for 10 s and were run again
    pub stalls: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub distinct_outcomes: u64,
    pub validated: u64,
    pub failures: Vec<(String, Vec<u8>)>,
    pub known: BTreeMap<String, u64>,
    pub engine_error: Option<String>,
    pub final_states: u64,
    pub wall: f64,
}

const SLOT: usize = 4 << 20;

struct Worker {
    tx: i32,
    rx: i32,
    shm: *mut u8,
    pid: i32,
    job: Option<Job>,
}

#[derive(Clone)]
struct Job {
    prefix: Vec<u8>,
    cost: u32,
    /// expected fingerprint at the last point of the prefix
    expect: u64,
    kind: JobKind,
}
#[derive(Clone)]
enum JobKind {
    Explore,
    Validate(u64, String),
    Confirm(String),
}

fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
fn read_exact(fd: i32, b: &mut [u8]) -> bool {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::read(fd, b[o..].as_mut_ptr() as *mut _, b.len() - o) };
        if n <= 0 {
            return false;
        }
        o += n as usize;
    }
    true
}

struct Buf {
    p: *mut u8,
    o: usize,
}
impl Buf {
    fn put(&mut self, b: &[u8]) {
        if self.o + b.len() > SLOT {
            panic!("result too large");
        }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(self.o), b.len()) };
        self.o += b.len();
    }
    fn put_u64(&mut self, v: u64) {
        self.put(&v.to_le_bytes());
    }
    fn put_str(&mut self, s: &str) {
        let s = &s.as_bytes()[..s.len().min(64 << 10)];
        self.put_u64(s.len() as u64);
        self.put(s);
    }
    fn get(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        unsafe { std::ptr::copy_nonoverlapping(self.p.add(self.o), v.as_mut_ptr(), n) };
        self.o += n;
        v
    }
    fn get_u64(&mut self) -> u64 {
        let mut a = [0u8; 8];
        a.copy_from_slice(&self.get(8));
        u64::from_le_bytes(a)
    }
    fn get_str(&mut self) -> String {
        let n = self.get_u64() as usize;
        String::from_utf8_lossy(&self.get(n)).into_owned()
    }
}

fn store(e: &Execution, shm: *mut u8) {
    let mut b = Buf { p: shm, o: 8 };
    b.put_u64(e.end.unwrap_or(0) as u64);
    b.put_u64(e.steps);
    b.put_u64(e.final_fp);
    b.put_u64(e.points.len() as u64);
    for p in &e.points {
        let bytes = unsafe { std::slice::from_raw_parts(p as *const PointRec as *const u8, std::mem::size_of::<PointRec>()) };
        b.put(bytes);
    }
    for a in &e.alts {
        b.put_u64(a.len() as u64);
        for x in a {
            b.put_u64(*x);
        }
    }
    b.put_str(&e.outcome);
    b.put_u64(e.failures.len() as u64);
    for f in &e.failures {
        b.put_str(f);
    }
    b.put_u64(e.trace.len() as u64);
    for f in &e.trace {
        b.put_str(f);
    }
    unsafe { std::ptr::write_volatile(shm as *mut u64, 0xD0E) };
}

fn load(shm: *mut u8) -> Option<Execution> {
    if unsafe { std::ptr::read_volatile(shm as *mut u64) } != 0xD0E {
        return None;
    }
    let mut b = Buf { p: shm, o: 8 };
    let mut e = Execution::default();
    e.end = Some(b.get_u64() as u8);
    e.steps = b.get_u64();
    e.final_fp = b.get_u64();
    let n = b.get_u64() as usize;
    for _ in 0..n {
        let v = b.get(std::mem::size_of::<PointRec>());
        e.points.push(unsafe { std::ptr::read_unaligned(v.as_ptr() as *const PointRec) });
    }
    for _ in 0..n {
        let k = b.get_u64() as usize;
        e.alts.push((0..k).map(|_| b.get_u64()).collect());
    }
    e.outcome = b.get_str();
    let n = b.get_u64();
    e.failures = (0..n).map(|_| b.get_str()).collect();
    let n = b.get_u64();
    e.trace = (0..n).map(|_| b.get_str()).collect();
    Some(e)
}

fn shm_new() -> *mut u8 {
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

/// Forks, runs one execution in the child, returns what it reported (or how it died).
pub fn run_forked(opts: &Options, hash_seed: u64, prefix: Vec<u8>, make: &dyn Fn() -> Program, shm: *mut u8) -> Result<Execution, String> {
    let st = fork_exec(opts, hash_seed, prefix, make, shm);
    if let Some(e) = load(shm) {
        return Ok(e);
    }
    Err(describe(st))
}

fn describe(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGALRM {
            "hang: an execution made no progress for 10 s".into()
        } else if s == libc::SIGABRT {
            "abort: the process aborted (panic while panicking, or panic across a no-unwind boundary)".into()
        } else {
            format!("signal {s}")
        }
    } else {
        format!("exit status {}", libc::WEXITSTATUS(st))
    }
}

fn fork_exec(opts: &Options, hash_seed: u64, prefix: Vec<u8>, make: &dyn Fn() -> Program, shm: *mut u8) -> i32 {
    unsafe {
        std::ptr::write_volatile(shm as *mut u64, 0);
        let mut pid = libc::fork();
        while pid < 0 {
            libc::usleep(10_000);
            pid = libc::fork();
        }
        if pid == 0 {
            libc::alarm(10);
            crate::set_hash_seed(hash_seed);
            let p = make();
            let e = sched::run_once(opts.clone(), prefix, p.root, p.check);
            store(&e, shm);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        st
    }
}

fn worker_main(cfg: &Config, make: &dyn Fn() -> Program, rx: i32, tx: i32, shm: *mut u8, cpu: Option<usize>) -> ! {
    if let Some(c) = cpu {
        unsafe {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(c, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        }
    }
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    loop {
        let mut l = [0u8; 8];
        if !read_exact(rx, &mut l) {
            unsafe { libc::_exit(0) };
        }
        let n = u64::from_le_bytes(l) as usize;
        let mut p = vec![0u8; n];
        if !read_exact(rx, &mut p) {
            unsafe { libc::_exit(0) };
        }
        let st = fork_exec(&cfg.opts, cfg.hash_seed, p, make, shm);
        if !write_all(tx, &st.to_le_bytes()) {
            unsafe { libc::_exit(0) };
        }
    }
}

pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return vec![];
        }
        (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &set)).collect()
    }
}

fn spawn_workers(cfg: &Config, make: &dyn Fn() -> Program) -> Vec<Worker> {
    let cp = cpus();
    let mut ws: Vec<Worker> = vec![];
    for i in 0..cfg.workers {
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        unsafe {
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
        }
        let shm = shm_new();
        let mut pid = unsafe { libc::fork() };
        for _ in 0..500 {
            if pid >= 0 {
                break;
            }
            unsafe { libc::usleep(10_000) };
            pid = unsafe { libc::fork() };
        }
        if pid == 0 {
            for w in &ws {
                unsafe {
                    libc::close(w.tx);
                    libc::close(w.rx);
                }
            }
            unsafe {
                libc::close(a[1]);
                libc::close(b[0]);
            }
            let cpu = if cp.is_empty() { None } else { Some(cp[i % cp.len()]) };
            worker_main(cfg, make, a[0], b[1], shm, cpu);
        }
        unsafe {
            libc::close(a[0]);
            libc::close(b[1]);
        }
        ws.push(Worker { tx: a[1], rx: b[0], shm, pid, job: None });
    }
    ws
}

struct Pending {
    base: Rc<Vec<u8>>,
    at: usize,
    alt: u8,
    fp: u64,
}

struct Buckets(Vec<VecDeque<Pending>>);
impl Buckets {
    fn push(&mut self, cost: usize, p: Pending) {
        while self.0.len() <= cost {
            self.0.push(VecDeque::new());
        }
        self.0[cost].push_back(p);
    }
}

fn exec_hash(e: &Execution) -> u64 {
    let mut h = 1;
    for p in &e.points {
        h = mix(mix(h, p.fp), p.chosen as u64 + 256 * p.n as u64);
    }
    h = mix(h, e.final_fp);
    mix(h, e.steps)
}

/// Explores `make`'s program.
pub fn explore(cfg: &Config, make: &dyn Fn() -> Program) -> Report {
    let t0 = Instant::now();
    // forks copy page tables: give back what an earlier exploration used
    unsafe { libc::malloc_trim(0) };
    let mut rep = Report { bound_completed: -1, ..Default::default() };
    let mut ws = spawn_workers(cfg, make);
    let mut buckets = Buckets(vec![VecDeque::new()]);
    // for comparing what is found with and without pruning
    let no_prune = std::env::var_os("MCRT_NO_PRUNE").is_some();
    let mut expanded: HashMap<u64, u32, NoHash> = HashMap::with_hasher(NoHash);
    let mut run: HashMap<u64, u32, NoHash> = HashMap::with_hasher(NoHash);
    let mut states: HashMap<u64, (), NoHash> = HashMap::with_hasher(NoHash);
    let mut finals: HashMap<u64, (), NoHash> = HashMap::with_hasher(NoHash);
    let mut urgent: VecDeque<Job> = VecDeque::new();
    urgent.push_back(Job { prefix: vec![], cost: 0, expect: 0, kind: JobKind::Explore });
    let mut level = 0usize;
    let mut inflight_explore = 0usize;
    let mut stop = false;
    let mut restarts: HashMap<Vec<u8>, u32> = HashMap::new();

    'main: loop {
        // hand out work
        for w in ws.iter_mut() {
            if w.job.is_some() {
                continue;
            }
            let job = if let Some(j) = urgent.pop_front() {
                Some(j)
            } else if stop {
                None
            } else {
                loop {
                    if level >= buckets.0.len() {
                        break None;
                    }
                    if let Some(p) = buckets.0[level].pop_front() {
                        let mut prefix = p.base[..p.at].to_vec();
                        prefix.push(p.alt);
                        break Some(Job { prefix, cost: level as u32, expect: p.fp, kind: JobKind::Explore });
                    }
                    if inflight_explore > 0 {
                        break None;
                    }
                    rep.bound_completed = level as i64;
                    if level as u32 >= cfg.bound {
                        break None;
                    }
                    level += 1;
                }
            };
            if let Some(j) = job {
                if matches!(j.kind, JobKind::Explore) {
                    inflight_explore += 1;
                }
                let ok = write_all(w.tx, &(j.prefix.len() as u64).to_le_bytes()) && write_all(w.tx, &j.prefix);
                if !ok {
                    rep.engine_error = Some("worker pipe closed".into());
                    break 'main;
                }
                w.job = Some(j);
            }
        }
        if ws.iter().all(|w| w.job.is_none()) {
            break;
        }
        // wait for results
        let mut fds: Vec<libc::pollfd> = ws.iter().map(|w| libc::pollfd { fd: w.rx, events: libc::POLLIN, revents: 0 }).collect();
        let n = unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 1000) };
        if n < 0 {
            continue;
        }
        if !stop && (Instant::now() > cfg.deadline || rep.executions >= cfg.max_execs) {
            stop = true;
            rep.capped = true;
        }
        for i in 0..ws.len() {
            if fds[i].revents == 0 {
                continue;
            }
            let mut st = [0u8; 4];
            if !read_exact(ws[i].rx, &mut st) {
                rep.engine_error = Some("worker died".into());
                break 'main;
            }
            let st = i32::from_le_bytes(st);
            let job = ws[i].job.take().unwrap();
            let res = load(ws[i].shm);
            if matches!(job.kind, JobKind::Explore) {
                inflight_explore -= 1;
            }
            let e = match res {
                Some(e) => e,
                None => {
                    let d = describe(st);
                    if d.starts_with("hang") {
                        // possibly machine overload: try the same schedule again (urgent jobs are counted when handed out)
                        rep.stalls += 1;
                        eprintln!("engine: retrying after {d} (prefix {:?})", job.prefix);
                        let tries = restarts.entry(job.prefix.clone()).or_insert(0u32);
                        *tries += 1;
                        if *tries <= 3 {
                            urgent.push_back(job.clone());
                            continue;
                        }
                    }
                    if d.starts_with("abort") || d.starts_with("hang") {
                        // a hang that repeats is a livelock or a lock held for ever: a failure of the program
                        let f = if d.starts_with("abort") { format!("process-abort: {d}") } else { d.clone() };
                        if (cfg.is_new)(&f) {
                            rep.failures.push((f, job.prefix.clone()));
                            stop = true;
                        } else {
                            *rep.known.entry(f).or_insert(0) += 1;
                        }
                        rep.executions += 1;
                        continue;
                    }
                    rep.engine_error = Some(format!("execution failed: {d} (prefix {:?})", job.prefix));
                    stop = true;
                    continue;
                }
            };
            let elsewhere = matches!(job.kind, JobKind::Explore)
                && job.prefix.last().is_some()
                && (e.points.len() < job.prefix.len() || e.points[job.prefix.len() - 1].fp != job.expect);
            if e.end == Some(sched::EndKind::Diverged as u8) || elsewhere {
                // a prefix is replayed again before the engine gives up on it
                rep.stalls += 1;
                eprintln!("engine: retrying after divergence {:?} (prefix {:?})", e.failures, job.prefix);
                let tries = restarts.entry(job.prefix.clone()).or_insert(0u32);
                *tries += 1;
                if *tries <= 3 {
                    urgent.push_back(job);
                    continue;
                }
            }
            if e.end == Some(sched::EndKind::Diverged as u8) {
                rep.engine_error = Some(format!("replay divergence: {:?} (prefix {:?})", e.failures, job.prefix));
                stop = true;
                continue;
            }
            match &job.kind {
                JobKind::Validate(h, out) => {
                    if exec_hash(&e) != *h || e.outcome != *out {
                        rep.engine_error = Some(format!("nondeterminism: schedule {:?} gave two different executions", job.prefix));
                        stop = true;
                    } else {
                        rep.validated += 1;
                    }
                    continue;
                }
                JobKind::Confirm(f) => {
                    if e.failures.contains(f) {
                        rep.validated += 1;
                        if !rep.failures.iter().any(|(x, _)| x == f) {
                            rep.failures.push((f.clone(), job.prefix.clone()));
                        }
                    } else {
                        rep.engine_error = Some(format!("failure not reproduced: {f}"));
                    }
                    continue;
                }
                JobKind::Explore => {}
            }
            // replay fidelity
            if !job.prefix.is_empty() {
                let last = job.prefix.len() - 1;
                if e.points.len() <= last || e.points[last].fp != job.expect {
                    rep.engine_error = Some(format!("nondeterminism: prefix {:?} reached another state", job.prefix));
                    stop = true;
                    continue;
                }
            }
            rep.executions += 1;
            rep.transitions += e.steps;
            rep.max_points = rep.max_points.max(e.points.len());
            finals.insert(e.final_fp, ());
            if rep.outcomes.len() < 4096 || rep.outcomes.contains_key(&e.outcome) {
                *rep.outcomes.entry(e.outcome.clone()).or_insert(0) += 1;
            }
            let choices: Vec<u8> = e.points.iter().map(|p| p.chosen).collect();
            for f in &e.failures {
                if (cfg.is_new)(f) {
                    if !stop {
                        stop = true;
                        urgent.push_back(Job { prefix: choices.clone(), cost: 0, expect: 0, kind: JobKind::Confirm(f.clone()) });
                    }
                } else {
                    *rep.known.entry(f.clone()).or_insert(0) += 1;
                }
            }
            if rep.executions <= 2 || (cfg.validate_every > 0 && rep.executions % cfg.validate_every == 0) {
                urgent.push_back(Job { prefix: choices.clone(), cost: 0, expect: 0, kind: JobKind::Validate(exec_hash(&e), e.outcome.clone()) });
            }
            if stop {
                continue;
            }
            let base = Rc::new(choices);
            for (i, p) in e.points.iter().enumerate() {
                states.insert(mix(p.fp, 0), ());
                if i < job.prefix.len() {
                    continue;
                }
                let key = mix(mix(p.fp, p.me), (p.flags & F_DATA) as u64);
                match expanded.get(&key) {
                    Some(&c) if c <= job.cost && !no_prune => break,
                    _ => {}
                }
                expanded.insert(key, job.cost);
                let alts = &e.alts[i];
                if p.flags & F_DATA == 0 {
                    run.entry(mix(p.fp, alts[0])).or_insert(job.cost);
                }
                for a in 1..p.n {
                    let cost = job.cost + if p.flags & F_FREE != 0 { 0 } else { 1 };
                    if cost > cfg.bound {
                        rep.capped |= false;
                        continue;
                    }
                    if p.flags & F_DATA == 0 {
                        let k = mix(p.fp, alts[a as usize]);
                        match run.get(&k) {
                            Some(&c) if c <= cost && !no_prune => continue,
                            _ => {}
                        }
                        run.insert(k, cost);
                    }
                    buckets.push(cost as usize, Pending { base: base.clone(), at: i, alt: a, fp: p.fp });
                }
            }
        }
        if rep.engine_error.is_some() {
            stop = true;
        }
    }
    if !stop && !rep.capped {
        // exhausted if nothing was cut off by the bound: re-check by looking for skipped alternatives
        rep.exhausted = rep.bound_completed >= 0 && level < cfg.bound as usize && buckets.0.iter().all(|b| b.is_empty());
    }
    for w in &ws {
        unsafe {
            libc::close(w.tx);
            libc::close(w.rx);
            if w.pid > 0 {
                libc::kill(w.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(w.pid, &mut st, 0);
            }
            libc::munmap(w.shm as *mut _, SLOT);
        }
    }
    rep.states = states.len() as u64;
    rep.final_states = finals.len() as u64;
    rep.distinct_outcomes = rep.outcomes.len() as u64;
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

/// Runs one schedule with tracing on.
pub fn replay(opts: &Options, hash_seed: u64, prefix: Vec<u8>, make: &dyn Fn() -> Program) -> Result<Execution, String> {
    let mut o = opts.clone();
    o.trace = true;
    let shm = shm_new();
    run_forked(&o, hash_seed, prefix, make, shm)
}

pub fn secs(s: f64) -> Duration {
    Duration::from_secs_f64(s)
}
