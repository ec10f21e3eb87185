//! The in-process half: one execution under a controlled scheduler.
//!
//! Exactly one task (an OS thread) holds the baton. Everything in `S` is touched only under its mutex.

use std::cell::Cell;
use std::collections::HashMap;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

use crate::mix;

const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Runnable,
    Blocked,
    /// waits until no other task can run (timers still pending)
    Quiesce,
    /// waits until no other task can run and no timer is pending
    Settle,
    Done,
}

/// Futex-based parking spot.
struct Parker(AtomicU32);
impl Parker {
    fn park(&self) {
        loop {
            if self.0.swap(0, Ordering::Acquire) == 1 {
                return;
            }
            unsafe {
                crate::os::raw_syscall(libc::SYS_futex, &self.0 as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
            }
        }
    }
    fn unpark(&self) {
        self.0.store(1, Ordering::Release);
        unsafe {
            crate::os::raw_syscall(libc::SYS_futex, &self.0 as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
        }
    }
}

struct Task {
    path: Vec<u16>,
    phash: u64,
    name: String,
    status: Status,
    h: u64,
    wh: u64,
    nspawn: u16,
    nobj: u32,
    woken: bool,
    must_finish: bool,
    panicked: Option<String>,
    parker: Arc<Parker>,
    /// address of the futex the task waits on
    futex: usize,
}

struct Timer {
    deadline: u64,
    ord: u64,
    task_h: u64,
    waker: Waker,
    fired: Arc<AtomicBool>,
}

/// One recorded choice.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct PointRec {
    pub fp: u64,
    pub me: u64,
    pub n: u8,
    pub chosen: u8,
    /// bit0: data choice, bit1: alternatives are free, bit2: the running task could continue
    pub flags: u8,
    pub pad: u8,
    pub step: u32,
}

pub const F_DATA: u8 = 1;
pub const F_FREE: u8 = 2;
pub const F_CONT: u8 = 4;

#[derive(Clone, Debug)]
pub struct Options {
    /// choices at points where the running task cannot continue cost nothing
    pub free_blocking: bool,
    /// extra scheduling point after releasing operations
    pub post_points: bool,
    /// channel sends are split into "reserve" and "publish", as in tokio's implementation
    pub split_send: bool,
    /// time passes only when nothing can run
    pub lazy_time: bool,
    pub max_steps: u64,
    pub trace: bool,
}
impl Default for Options {
    fn default() -> Self {
        Options { free_blocking: false, post_points: false, split_send: false, lazy_time: false, max_steps: 20_000, trace: false }
    }
}

struct S {
    tasks: Vec<Task>,
    current: usize,
    prefix: Vec<u8>,
    points: Vec<PointRec>,
    alts: Vec<Vec<u64>>,
    timers: Vec<Timer>,
    timer_ord: u64,
    clock_h: u64,
    now: u64,
    objs: HashMap<u64, u64, NoHash>,
    fp: u64,
    steps: u64,
    finished: bool,
    calm: bool,
    policy: u8,
    end: EndKind,
    failures: Vec<String>,
    trace: Vec<String>,
    opts: Options,
    anon: u64,
    caught: Vec<(String, bool, String)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EndKind {
    Running,
    Quiescent,
    Horizon,
    Diverged,
    Stopped,
}

#[derive(Default, Clone)]
pub struct NoHash;
pub struct NoHasher(u64);
impl std::hash::BuildHasher for NoHash {
    type Hasher = NoHasher;
    fn build_hasher(&self) -> NoHasher {
        NoHasher(0)
    }
}
impl std::hash::Hasher for NoHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0, *x as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 ^= v;
    }
}

static STATE: Mutex<Option<S>> = Mutex::new(None);
static ENDED: (Mutex<bool>, Condvar) = (Mutex::new(false), Condvar::new());
static POST: AtomicBool = AtomicBool::new(false);
static SPLIT: AtomicBool = AtomicBool::new(false);
static TRACE: AtomicBool = AtomicBool::new(false);
static FOREIGN: (Mutex<Vec<Arc<Foreign>>>, Condvar) = (Mutex::new(Vec::new()), Condvar::new());

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(NONE) };
}

fn cur() -> usize {
    CUR.try_with(|c| c.get()).unwrap_or(NONE)
}

/// True if the calling thread is a task of the controlled execution.
pub fn controlled() -> bool {
    cur() != NONE
}

/// Guard of the engine's state; single-stepping is off while it is held.
struct G(MutexGuard<'static, Option<S>>, #[allow(dead_code)] crate::step::Untraced);
impl std::ops::Deref for G {
    type Target = Option<S>;
    fn deref(&self) -> &Option<S> {
        &self.0
    }
}
impl std::ops::DerefMut for G {
    fn deref_mut(&mut self) -> &mut Option<S> {
        &mut self.0
    }
}

fn lock() -> G {
    let u = crate::step::untraced();
    crate::os::internal(|| match STATE.lock() {
        Ok(g) => G(g, u),
        Err(e) => G(e.into_inner(), u),
    })
}

impl S {
    fn task_fp(t: &Task) -> u64 {
        let st = match t.status {
            Status::Runnable => 1,
            Status::Blocked => 2,
            Status::Quiesce => 3,
            Status::Settle => 4,
            Status::Done => 5,
        };
        mix(mix(t.phash, t.h), mix(t.wh, st + if t.woken { 16 } else { 0 }))
    }
    fn update<R>(&mut self, id: usize, f: impl FnOnce(&mut Task) -> R) -> R {
        let t = &mut self.tasks[id];
        let old = Self::task_fp(t);
        let r = f(t);
        let new = Self::task_fp(t);
        self.fp = self.fp.wrapping_sub(old).wrapping_add(new);
        r
    }
    fn state_fp(&self) -> u64 {
        mix(self.fp, self.clock_h)
    }
    fn event(&mut self, id: usize, obj: u64, code: u64) {
        let ho = *self.objs.get(&obj).unwrap_or(&0);
        let h = self.update(id, |t| {
            t.h = mix(mix(t.h, ho), mix(obj, code));
            t.h
        });
        self.objs.insert(obj, h);
    }
    /// Other tasks with `st`, in cyclic path order after task `me`.
    fn with_status(&self, me: usize, st: Status) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.tasks.len()).filter(|&i| i != me && self.tasks[i].status == st).collect();
        let mp = &self.tasks[me].path;
        v.sort_by(|&a, &b| {
            let (pa, pb) = (&self.tasks[a].path, &self.tasks[b].path);
            let (wa, wb) = (pa < mp, pb < mp);
            wa.cmp(&wb).then_with(|| pa.cmp(pb))
        });
        v
    }
    fn earliest_timer(&self) -> Option<usize> {
        (0..self.timers.len()).min_by_key(|&i| (self.timers[i].deadline, self.timers[i].ord))
    }
    /// The alternative of the fixed schedule in force while calm (0 is the timer when nothing can run).
    fn calm_pick(&self, alts: &[usize], me: usize) -> usize {
        match self.policy {
            0 => 0,
            1 => (0..alts.len()).max_by_key(|&i| alts[i]).unwrap_or(0),
            _ => (0..alts.len()).min_by_key(|&i| if alts[i] > me { (0, alts[i]) } else { (1, alts[i]) }).unwrap_or(0),
        }
    }
    /// Takes the next decision among `n` alternatives. `None`: the replay diverged.
    fn decide(&mut self, n: usize, flags: u8, me: u64) -> Option<usize> {
        debug_assert!(n >= 1);
        if n == 1 {
            return Some(0);
        }
        let pos = self.points.len();
        let c = if pos < self.prefix.len() { self.prefix[pos] as usize } else { 0 };
        if c >= n {
            self.failures.push(format!("replay diverged: choice {c} of {n} at point {pos}"));
            self.end = EndKind::Diverged;
            return None;
        }
        let fp = self.state_fp();
        self.points.push(PointRec { fp, me, n: n as u8, chosen: c as u8, flags, pad: 0, step: self.steps as u32 });
        Some(c)
    }
}

fn finish(g: &mut Option<S>, kind: EndKind) {
    let s = g.as_mut().unwrap();
    if !s.finished {
        s.finished = true;
        if s.end == EndKind::Running {
            s.end = kind;
        }
        *ENDED.0.lock().unwrap() = true;
        ENDED.1.notify_all();
    }
}

fn park_forever() -> ! {
    loop {
        crate::os::internal(std::thread::park);
    }
}

/// `me` gives up the baton (its status is already set); returns when it has the baton again.
/// `me_first`: `me` is runnable and is the default choice. `me_last`: `me` is runnable but yields.
fn reschedule(mut g: G, me: usize, me_last: bool) {
    let _u = crate::step::untraced();
    let mut fired: Vec<Waker> = vec![];
    loop {
        let s = g.as_mut().unwrap();
        if s.finished {
            drop(g);
            park_forever();
        }
        s.steps += 1;
        if s.steps > s.opts.max_steps {
            finish(&mut g, EndKind::Horizon);
            drop(g);
            park_forever();
        }
        let runnable = s.tasks[me].status == Status::Runnable;
        let mut alts: Vec<usize> = vec![];
        let others = s.with_status(me, Status::Runnable);
        if runnable && !me_last {
            alts.push(me);
        }
        alts.extend(others);
        if runnable && me_last {
            alts.push(me);
        }
        let mut timer = s.earliest_timer();
        if alts.is_empty() {
            alts = s.with_status(me, Status::Quiesce);
            if s.tasks[me].status == Status::Quiesce {
                alts.push(me);
            }
            if !alts.is_empty() {
                timer = None;
            }
        }
        if alts.is_empty() && timer.is_none() {
            alts = s.with_status(me, Status::Settle);
            if s.tasks[me].status == Status::Settle {
                alts.push(me);
            }
        }
        if s.opts.lazy_time && !alts.is_empty() {
            timer = None;
        }
        let n = alts.len() + timer.is_some() as usize;
        if n == 0 {
            finish(&mut g, EndKind::Quiescent);
            drop(g);
            park_forever();
        }
        let mut flags = 0;
        if runnable {
            flags |= F_CONT;
        } else if s.opts.free_blocking {
            flags |= F_FREE;
        }
        if n > 1 && TRACE.load(Ordering::Relaxed) {
            let names: Vec<String> = alts
                .iter()
                .map(|&a| s.tasks[a].name.clone())
                .chain(timer.map(|_| "<timer>".to_string()))
                .collect();
            let line = format!("  choice #{} at {}: {:?}", s.points.len(), s.tasks[me].name, names);
            s.trace.push(line);
        }
        if n > 1 && !s.calm {
            // identify alternatives canonically for the explorer's pruning
            let ids: Vec<u64> = alts.iter().map(|&a| s.tasks[a].phash).chain(timer.map(|_| 0xC10C)).collect();
            s.alts.push(ids);
        }
        let mph = s.tasks[me].phash;
        let calm = s.calm;
        let Some(c) = (if calm { Some(s.calm_pick(&alts, me)) } else { s.decide(n, flags, mix(mph, me_last as u64)) }) else {
            s.alts.truncate(s.points.len());
            finish(&mut g, EndKind::Diverged);
            drop(g);
            park_forever();
        };
        if c == alts.len() {
            // fire the earliest timer, then choose again
            let i = timer.unwrap();
            let t = s.timers.swap_remove(i);
            s.now = s.now.max(t.deadline);
            s.clock_h = mix(mix(s.clock_h, t.task_h), t.deadline);
            t.fired.store(true, Ordering::SeqCst);
            if TRACE.load(Ordering::Relaxed) {
                let line = format!("  timer fires at t={}ms", s.now / 1_000_000);
                s.trace.push(line);
            }
            fired.push(t.waker);
            drop(g);
            for w in fired.drain(..) {
                wake_from_clock(&w);
            }
            g = lock();
            continue;
        }
        let next = alts[c];
        if next == me {
            if s.tasks[me].status != Status::Runnable {
                s.update(me, |t| t.status = Status::Runnable);
            }
            return;
        }
        if s.tasks[next].status != Status::Runnable {
            s.update(next, |t| t.status = Status::Runnable);
        }
        s.current = next;
        let np = s.tasks[next].parker.clone();
        let done = s.tasks[me].status == Status::Done;
        let mp = s.tasks[me].parker.clone();
        drop(g);
        np.unpark();
        if done {
            return;
        }
        mp.park();
        return;
    }
}

fn wake_from_clock(w: &Waker) {
    CLOCK_WAKE.with(|c| c.set(true));
    w.wake_by_ref();
    CLOCK_WAKE.with(|c| c.set(false));
}
thread_local! {
    static CLOCK_WAKE: Cell<bool> = const { Cell::new(false) };
}

/// Scheduling point followed by operation `code` on object `obj`.
pub fn point(obj: u64, code: u64) {
    let _u = crate::step::untraced();
    let me = cur();
    if me == NONE {
        return;
    }
    if std::thread::panicking() {
        op(obj, code);
        return;
    }
    let g = lock();
    if g.is_none() {
        return;
    }
    if TRACE.load(Ordering::Relaxed) {
        let mut g = g;
        let s = g.as_mut().unwrap();
        let line = format!("{} t{}", s.tasks[me].name, opname(code, obj));
        s.trace.push(line);
        reschedule(g, me, false);
    } else {
        reschedule(g, me, false);
    }
    op(obj, code);
}

fn opname(code: u64, obj: u64) -> String {
    let n = match code {
        1 => "send", 2 => "publish", 3 => "recv", 4 => "close", 5 => "rx-drop", 6 => "last-tx-drop",
        7 => "upgrade", 8 => "count", 9 => "closed", 10 => "oneshot-send", 11 => "oneshot-recv",
        12 => "oneshot-drop", 13 => "lock", 14 => "unlock", 15 => "acquire", 16 => "add-permits",
        17 => "join", 18 => "harness", 19 => "try-send", 20 => "is-closed", 21 => "post",
        _ => "op",
    };
    format!(" {n}({:04x})", obj & 0xffff)
}

/// Happens-before event without a scheduling point.
pub fn op(obj: u64, code: u64) {
    let _u = crate::step::untraced();
    let me = cur();
    if me == NONE {
        return;
    }
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        s.event(me, obj, code);
    }
}

/// Extra scheduling point after a releasing operation (only with `post_points`).
pub fn post_point() {
    let _u = crate::step::untraced();
    if POST.load(Ordering::Relaxed) && cur() != NONE {
        let me = cur();
        {
            let mut g = lock();
            if let Some(s) = g.as_mut() {
                s.update(me, |t| t.h = mix(t.h, 0x9057));
            }
        }
        if !std::thread::panicking() {
            let g = lock();
            if g.is_some() {
                reschedule(g, me, false);
            }
            // the next decision is not this one
            if let Some(s) = lock().as_mut() {
                s.update(me, |t| t.h = mix(t.h, 0x9058));
            }
        }
    }
}

pub fn split_send() -> bool {
    SPLIT.load(Ordering::Relaxed)
}

/// A fresh object identity, independent of the interleaving.
pub fn new_obj() -> u64 {
    let _u = crate::step::untraced();
    let me = cur();
    let mut g = lock();
    match g.as_mut() {
        Some(s) if me != NONE => {
            let t = &mut s.tasks[me];
            t.nobj += 1;
            mix(mix(t.phash, 0x0B1), t.nobj as u64)
        }
        Some(s) => {
            s.anon += 1;
            mix(0xA707, s.anon)
        }
        None => 0xA706,
    }
}

fn data_choice(n: usize, free: bool) -> usize {
    let me = cur();
    if me == NONE || n <= 1 {
        return 0;
    }
    assert!(n <= 250);
    let mut g = lock();
    let Some(s) = g.as_mut() else { return 0 };
    if s.finished {
        drop(g);
        park_forever();
    }
    if s.calm && !free {
        return 0;
    }
    s.alts.push(vec![]);
    let mph = s.tasks[me].phash;
    match s.decide(n, F_DATA | if free { F_FREE } else { 0 }, mph) {
        Some(c) => {
            s.update(me, |t| t.h = mix(t.h, 0xC401CE + c as u64));
            if TRACE.load(Ordering::Relaxed) {
                let line = format!("  {} chooses {c} of {n}", s.tasks[me].name);
                s.trace.push(line);
            }
            c
        }
        None => {
            s.alts.truncate(s.points.len());
            finish(&mut g, EndKind::Diverged);
            drop(g);
            park_forever();
        }
    }
}

/// Which fixed schedule runs while calm. 0: the running task goes on as long as it can; 1: the task that came to be
/// runnable last goes first; 2: the tasks take turns at every operation.
pub fn policy(n: usize) {
    if let Some(s) = lock().as_mut() {
        s.policy = n as u8;
    }
}

/// While calm, tasks run in the default order and no alternative is explored: for the preparations of a
/// scenario, which are not what it is about.
pub fn calm(on: bool) {
    if let Some(s) = lock().as_mut() {
        s.calm = on;
    }
}

/// Input choice: every alternative is explored at no cost.
pub fn choose(n: usize) -> usize {
    data_choice(n, true)
}

/// Environment choice: alternatives other than 0 count as deviations.
pub fn choose_dev(n: usize) -> usize {
    data_choice(n, false)
}

pub fn now_nanos() -> u64 {
    lock().as_ref().map(|s| s.now).unwrap_or(0)
}

/// Records a property violation (the execution goes on).
pub fn fail(msg: impl Into<String>) {
    if let Some(s) = lock().as_mut() {
        s.failures.push(msg.into());
    }
}

pub fn note(msg: impl Into<String>) {
    let _u = crate::step::untraced();
    if TRACE.load(Ordering::Relaxed) {
        let me = cur();
        if let Some(s) = lock().as_mut() {
            let n = if me == NONE { "?".into() } else { s.tasks[me].name.clone() };
            s.trace.push(format!("{n}: {}", msg.into()));
        }
    }
}

pub fn task_name() -> String {
    let me = cur();
    match lock().as_ref() {
        Some(s) if me != NONE => s.tasks[me].name.clone(),
        _ => "?".into(),
    }
}

struct TaskWaker(usize);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let id = self.0;
        let me = cur();
        let clock = CLOCK_WAKE.try_with(|c| c.get()).unwrap_or(false);
        let mut g = lock();
        let Some(s) = g.as_mut() else { return };
        if s.tasks[id].status == Status::Done {
            return;
        }
        if clock {
            let ch = s.clock_h;
            s.update(id, |t| t.wh = mix(t.wh, ch));
        } else if me != NONE {
            let wh = s.tasks[id].wh;
            let h = s.update(me, |t| {
                t.h = mix(mix(t.h, wh), 0x3A6E);
                t.h
            });
            s.update(id, |t| t.wh = h);
        }
        s.update(id, |t| {
            t.woken = true;
            if t.status == Status::Blocked {
                t.status = Status::Runnable;
            }
        });
    }
}

/// Drives `fut` to completion on the calling task.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let me = cur();
    assert!(me != NONE, "mcrt::block_on outside of a controlled task");
    let waker = Waker::from(Arc::new(TaskWaker(me)));
    let mut cx = Context::from_waker(&waker);
    let mut fut = std::pin::pin!(fut);
    loop {
        {
            let mut g = lock();
            let s = g.as_mut().unwrap();
            s.update(me, |t| {
                t.woken = false;
                t.h = mix(mix(t.h, t.wh), 0x9011);
            });
        }
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return v;
        }
        let mut g = lock();
        let s = g.as_mut().unwrap();
        if s.tasks[me].woken {
            reschedule(g, me, true);
        } else {
            s.update(me, |t| t.status = Status::Blocked);
            reschedule(g, me, false);
        }
    }
}

fn register_task(name: String, must_finish: bool) -> (usize, Arc<Parker>) {
    let me = cur();
    let mut g = lock();
    let s = g.as_mut().expect("spawn outside of a controlled execution");
    let (path, ph) = if me == NONE {
        (vec![s.tasks.len() as u16], 7)
    } else {
        let t = &mut s.tasks[me];
        let k = t.nspawn;
        t.nspawn += 1;
        let mut p = t.path.clone();
        p.push(k);
        let h = t.h;
        (p, h)
    };
    let mut phash = 0x7A5;
    for p in &path {
        phash = mix(phash, *p as u64 + 1);
    }
    let parker = Arc::new(Parker(AtomicU32::new(0)));
    let name = if name.is_empty() { format!("task{path:?}") } else { name };
    let t = Task {
        path,
        phash,
        name,
        status: Status::Runnable,
        h: mix(phash, ph),
        wh: 0,
        nspawn: 0,
        nobj: 0,
        woken: false,
        must_finish,
        panicked: None,
        parker: parker.clone(),
        futex: 0,
    };
    s.fp = s.fp.wrapping_add(S::task_fp(&t));
    s.tasks.push(t);
    (s.tasks.len() - 1, parker)
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&'static str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "<non-string panic>".into())
}

fn task_done(me: usize, panicked: Option<String>) {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    if let Some(p) = &panicked {
        if TRACE.load(Ordering::Relaxed) {
            let line = format!("{} PANICKED: {p}", s.tasks[me].name);
            s.trace.push(line);
        }
    }
    s.update(me, |t| {
        t.status = Status::Done;
        t.h = mix(t.h, 0xD07E);
        t.panicked = panicked;
    });
    reschedule(g, me, false);
}

/// Options of a new task.
#[derive(Clone, Default)]
pub struct TaskOpts {
    pub name: String,
    /// being blocked at the end of the execution is a violation
    pub must_finish: bool,
}

/// Runs `f` on a new controlled task.
pub fn spawn_thread(o: TaskOpts, f: impl FnOnce() + Send + 'static) -> usize {
    let (id, parker) = register_task(o.name, o.must_finish);
    std::thread::Builder::new()
        .stack_size(512 << 10)
        .spawn(move || {
            parker.park();
            CUR.with(|c| c.set(id));
            let r = std::panic::catch_unwind(AssertUnwindSafe(f));
            let p = r.err().map(|p| {
                let t = panic_text(&*p);
                // dropping a payload may run user code; leak it
                std::mem::forget(p);
                t
            });
            task_done(id, p);
            CUR.with(|c| c.set(NONE));
            park_forever();
        })
        .expect("thread spawn");
    id
}

struct Foreign {
    id: Mutex<Option<(usize, Arc<Parker>)>>,
    cv: Condvar,
}

/// Called on a thread the program under test started by itself: waits to be adopted, then runs `f` as a task.
pub fn foreign_enter<R>(f: impl FnOnce() -> R) -> R {
    if cur() != NONE {
        return f();
    }
    let fo = Arc::new(Foreign { id: Mutex::new(None), cv: Condvar::new() });
    {
        FOREIGN.0.lock().unwrap().push(fo.clone());
        FOREIGN.1.notify_all();
    }
    let (id, parker) = {
        let mut g = fo.id.lock().unwrap();
        while g.is_none() {
            g = crate::os::internal(|| fo.cv.wait(g).unwrap());
        }
        g.clone().unwrap()
    };
    parker.park();
    CUR.with(|c| c.set(id));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    task_done(id, r.as_ref().err().map(|p| panic_text(&**p)));
    CUR.with(|c| c.set(NONE));
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Waits (outside of the model) for a thread started by the program under test and makes it a task.
pub fn adopt_foreign(name: &str) {
    // the thread holds these locks at moments of its own: neither waiting for them nor waking it is a step of the model
    let fo = crate::os::internal(|| {
        let mut g = FOREIGN.0.lock().unwrap();
        while g.is_empty() {
            g = FOREIGN.1.wait(g).unwrap();
        }
        g.remove(0)
    });
    let r = register_task(name.into(), false);
    crate::os::internal(|| {
        *fo.id.lock().unwrap() = Some(r);
        fo.cv.notify_all();
    });
}

/// True if `addr` lies in one of the engine's own synchronisation objects.
pub(crate) fn engine_addr(addr: usize) -> bool {
    fn inside<T>(t: &'static T, addr: usize) -> bool {
        let b = t as *const T as usize;
        addr >= b && addr < b + std::mem::size_of::<T>()
    }
    inside(&STATE, addr) || inside(&ENDED, addr) || inside(&FOREIGN, addr)
}

const FUTEX_OBJ: u64 = 0xF07E_F07E;

/// The calling task blocks on the futex at `addr`.
pub(crate) fn futex_wait(addr: usize) {
    let _u = crate::step::untraced();
    let me = cur();
    let mut g = lock();
    let Some(s) = g.as_mut() else { return };
    s.event(me, FUTEX_OBJ, 1);
    s.update(me, |t| {
        t.status = Status::Blocked;
        t.futex = addr;
    });
    reschedule(g, me, false);
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        s.tasks[me].futex = 0;
    }
}

pub(crate) fn futex_wake(addr: usize, n: usize) -> usize {
    let _u = crate::step::untraced();
    let me = cur();
    let mut g = lock();
    let Some(s) = g.as_mut() else { return 0 };
    let mut k = 0;
    for i in s.with_status(me, Status::Blocked) {
        if k < n && s.tasks[i].futex == addr {
            s.event(me, FUTEX_OBJ, 2);
            let h = s.tasks[me].h;
            s.update(i, |t| {
                t.futex = 0;
                t.wh = mix(t.wh, h);
                t.status = Status::Runnable;
            });
            k += 1;
        }
    }
    k
}

fn wait_status(st: Status) {
    let me = cur();
    if me == NONE {
        return;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.update(me, |t| t.status = st);
    reschedule(g, me, false);
    // everything that happened before is now ordered before this task
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let fp = s.state_fp();
    s.update(me, |t| t.h = mix(t.h, fp));
}

/// Blocks the calling task until nothing else can run (pending timers do not count).
pub fn quiesce() {
    wait_status(Status::Quiesce)
}

/// Blocks the calling task until nothing else can run and no timer is pending.
pub fn settle() {
    wait_status(Status::Settle)
}

/// Voluntary yield: any other runnable task goes first by default.
pub fn yield_point() {
    let _u = crate::step::untraced();
    let me = cur();
    if me == NONE {
        return;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.update(me, |t| t.h = mix(t.h, 0x71e1d));
    reschedule(g, me, true);
}

/// A one-shot virtual timer.
pub struct TimerHandle {
    fired: Arc<AtomicBool>,
    deadline: u64,
    armed: bool,
    ord: u64,
}
impl TimerHandle {
    pub fn new(deadline: u64) -> Self {
        TimerHandle { fired: Arc::new(AtomicBool::new(false)), deadline, armed: false, ord: 0 }
    }
    pub fn deadline(&self) -> u64 {
        self.deadline
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let me = cur();
        if self.fired.load(Ordering::SeqCst) {
            let mut g = lock();
            if let (Some(s), true) = (g.as_mut(), me != NONE) {
                let ch = s.clock_h;
                s.update(me, |t| t.h = mix(t.h, ch));
            }
            return Poll::Ready(());
        }
        let mut g = lock();
        let Some(s) = g.as_mut() else { return Poll::Pending };
        if s.now >= self.deadline && !self.armed {
            return Poll::Ready(());
        }
        if self.armed {
            let ord = self.ord;
            if let Some(t) = s.timers.iter_mut().find(|t| t.ord == ord) {
                t.waker = cx.waker().clone();
            }
        } else {
            s.timer_ord += 1;
            self.ord = s.timer_ord;
            self.armed = true;
            let th = if me == NONE { 0 } else { s.tasks[me].h };
            s.timers.push(Timer { deadline: self.deadline, ord: self.ord, task_h: th, waker: cx.waker().clone(), fired: self.fired.clone() });
        }
        Poll::Pending
    }
}
impl Drop for TimerHandle {
    fn drop(&mut self) {
        if self.armed {
            if let Some(s) = lock().as_mut() {
                let ord = self.ord;
                s.timers.retain(|t| t.ord != ord);
            }
        }
    }
}

/// What one execution produced.
#[derive(Clone, Debug, Default)]
pub struct Execution {
    pub points: Vec<PointRec>,
    pub alts: Vec<Vec<u64>>,
    pub steps: u64,
    pub final_fp: u64,
    pub outcome: String,
    pub failures: Vec<String>,
    pub trace: Vec<String>,
    pub end: Option<u8>,
}

/// View of the end of an execution, for the oracle.
pub struct Final {
    pub end: EndKind,
    /// names of tasks that are not done
    pub stuck: Vec<String>,
    /// names of must-finish tasks that are not done
    pub must_stuck: Vec<String>,
    /// (task, panic message)
    pub panics: Vec<(String, String)>,
    /// panics of must-finish tasks (root included)
    pub must_panics: Vec<(String, String)>,
}

/// Runs one execution in this process (call once per process) and returns its record.
pub fn run_once(
    opts: Options,
    prefix: Vec<u8>,
    root: impl FnOnce() + Send + 'static,
    check: impl FnOnce(&Final) -> (String, Vec<String>),
) -> Execution {
    POST.store(opts.post_points, Ordering::SeqCst);
    SPLIT.store(opts.split_send, Ordering::SeqCst);
    TRACE.store(opts.trace, Ordering::SeqCst);
    *lock() = Some(S {
        tasks: vec![],
        current: 0,
        prefix,
        points: Vec::with_capacity(256),
        alts: Vec::with_capacity(256),
        timers: vec![],
        timer_ord: 0,
        clock_h: 0,
        now: 1_000_000_000,
        objs: HashMap::with_hasher(NoHash),
        fp: 0,
        steps: 0,
        finished: false,
        calm: false,
        policy: 0,
        end: EndKind::Running,
        failures: vec![],
        trace: vec![],
        opts,
        anon: 0,
        caught: vec![],
    });
    let id = spawn_thread(TaskOpts { name: "root".into(), must_finish: true }, root);
    lock().as_ref().unwrap().tasks[id].parker.unpark();
    let mut e = ENDED.0.lock().unwrap();
    while !*e {
        e = ENDED.1.wait(e).unwrap();
    }
    drop(e);
    let fin = {
        let g = lock();
        let s = g.as_ref().unwrap();
        let nd = |must: bool| -> Vec<String> {
            s.tasks.iter().filter(|t| t.status != Status::Done && (!must || t.must_finish)).map(|t| t.name.clone()).collect()
        };
        let pn = |must: bool| -> Vec<(String, String)> {
            s.tasks
                .iter()
                .filter(|t| !must || t.must_finish)
                .filter_map(|t| t.panicked.clone().map(|p| (t.name.clone(), p)))
                .chain(s.caught.iter().filter(|c| !must || c.1).map(|c| (c.0.clone(), c.2.clone())))
                .collect()
        };
        Final { end: s.end, stuck: nd(false), must_stuck: nd(true), panics: pn(false), must_panics: pn(true) }
    };
    let (outcome, mut fails) = if fin.end == EndKind::Diverged { (String::new(), vec![]) } else { check(&fin) };
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let mut failures = std::mem::take(&mut s.failures);
    failures.append(&mut fails);
    Execution {
        points: std::mem::take(&mut s.points),
        alts: std::mem::take(&mut s.alts),
        steps: s.steps,
        final_fp: s.state_fp(),
        outcome,
        failures,
        trace: std::mem::take(&mut s.trace),
        end: Some(s.end as u8),
    }
}

/// Boxed future alias used by scenario code.
pub type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

/// Records that the current task panicked although the panic was caught by its spawner.
pub fn note_panic(msg: String) {
    let me = cur();
    if me == NONE {
        return;
    }
    if let Some(s) = lock().as_mut() {
        if TRACE.load(Ordering::Relaxed) {
            let line = format!("{} PANICKED: {msg}", s.tasks[me].name);
            s.trace.push(line);
        }
        s.caught.push((s.tasks[me].name.clone(), s.tasks[me].must_finish, msg));
    }
}

static NEXT_NAME: Mutex<String> = Mutex::new(String::new());

/// Names the next task that is spawned without a name (e.g. by the program under test).
pub fn set_next_name(n: &str) {
    *NEXT_NAME.lock().unwrap() = n.to_string();
}
pub fn next_name() -> String {
    std::mem::take(&mut *NEXT_NAME.lock().unwrap())
}
