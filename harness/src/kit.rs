//! Instrumented actors, event log and program builder shared by the scenarios.
pub use std::ops::ControlFlow;
pub use std::sync::{Arc, Mutex};
pub use std::time::Duration;

pub use futures::future::BoxFuture;
pub use futures::FutureExt;
pub use kameo::actor::*;
pub use kameo::error::*;
pub use kameo::mailbox;
pub use kameo::message::{Context, Message};
pub use kameo::Actor;
pub use mcrt::explore::Program;
pub use mcrt::{choose, choose_dev, fail, note, Final, Options};

/// One logged event.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub task: String,
    pub who: String,
    pub what: &'static str,
    pub n: i64,
    pub s: String,
}

static LOG: Mutex<Vec<Ev>> = Mutex::new(Vec::new());

pub fn ev(who: &str, what: &'static str, n: i64, s: impl Into<String>) {
    let e = Ev { task: mcrt::task_name(), who: who.into(), what, n, s: s.into() };
    mcrt::note(format!("{} {} {} {}", e.who, e.what, e.n, e.s));
    LOG.lock().unwrap().push(e);
}

/// As `ev`, and orders the event with respect to every other `ev_hb` (for oracles that use real time).
pub fn ev_hb(who: &str, what: &'static str, n: i64, s: impl Into<String>) {
    mcrt::op(0x1106, 18);
    ev(who, what, n, s);
}

pub fn log() -> Log {
    Log(LOG.lock().unwrap().clone())
}

pub struct Log(pub Vec<Ev>);
impl Log {
    pub fn pos(&self, who: &str, what: &str, n: i64) -> Option<usize> {
        self.0.iter().position(|e| e.who == who && e.what == what && e.n == n)
    }
    pub fn count(&self, who: &str, what: &str, n: i64) -> usize {
        self.0.iter().filter(|e| e.who == who && e.what == what && e.n == n).count()
    }
    pub fn countk(&self, who: &str, what: &str) -> usize {
        self.0.iter().filter(|e| e.who == who && e.what == what).count()
    }
    pub fn ns(&self, who: &str, what: &str) -> Vec<i64> {
        self.0.iter().filter(|e| e.who == who && e.what == what).map(|e| e.n).collect()
    }
    pub fn ss(&self, who: &str, what: &str) -> Vec<String> {
        self.0.iter().filter(|e| e.who == who && e.what == what).map(|e| e.s.clone()).collect()
    }
    pub fn first(&self, who: &str, what: &str) -> Option<usize> {
        self.0.iter().position(|e| e.who == who && e.what == what)
    }
    pub fn last(&self, who: &str, what: &str) -> Option<usize> {
        self.0.iter().rposition(|e| e.who == who && e.what == what)
    }
    pub fn get(&self, who: &str, what: &str) -> Option<&Ev> {
        self.0.iter().find(|e| e.who == who && e.what == what)
    }
    /// per-participant event sequences, as an outcome label
    pub fn outcome(&self) -> String {
        let mut by: std::collections::BTreeMap<&str, String> = Default::default();
        for e in &self.0 {
            let s = by.entry(&e.who).or_default();
            s.push_str(e.what);
            if e.n != 0 {
                s.push_str(&e.n.to_string());
            }
            if !e.s.is_empty() {
                s.push('(');
                s.push_str(&e.s);
                s.push(')');
            }
            s.push(' ');
        }
        by.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join("| ")
    }
}

/// Wraps a scenario body and its oracle. The oracle is evaluated at the end of every execution.
pub fn prog<Fut>(body: impl FnOnce() -> Fut + Send + 'static, oracle: impl FnOnce(&Final, &Log, &mut Vec<String>) + 'static) -> Program
where
    Fut: std::future::Future<Output = ()>,
{
    Program {
        root: Box::new(move || mcrt::block_on(body())),
        check: Box::new(move |f| {
            let l = log();
            let mut v = vec![];
            oracle(f, &l, &mut v);
            (l.outcome(), v)
        }),
    }
}

/// Nothing the harness started is stuck or panicked, and the execution came to rest.
pub fn sane(f: &Final, v: &mut Vec<String>) {
    if f.end == mcrt::EndKind::Horizon {
        v.push("livelock: the execution exceeded the step horizon".into());
        return;
    }
    for t in &f.must_stuck {
        v.push(format!("hang: {t} never finished"));
    }
    for (t, p) in &f.must_panics {
        v.push(format!("panic in {t}: {p}"));
    }
}

/// As `sane`, and no actor task is left running or panicked.
pub fn all_done(f: &Final, v: &mut Vec<String>) {
    sane(f, v);
    if f.end == mcrt::EndKind::Horizon {
        return;
    }
    for t in f.stuck.iter().filter(|t| !f.must_stuck.contains(t)) {
        v.push(format!("hang: {t} never finished"));
    }
    no_panics(f, v);
}

pub fn no_panics(f: &Final, v: &mut Vec<String>) {
    for (t, p) in f.panics.iter().filter(|p| !f.must_panics.contains(p)) {
        v.push(format!("panic in {t}: {p}"));
    }
}

/// Starts a client task that must finish.
pub fn client<F>(name: &str, f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
    tokio::task::spawn_opts(mcrt::TaskOpts { name: name.into(), must_finish: true }, f)
}

/// Starts a client thread (for blocking calls) that must finish.
pub fn client_blocking<R: Send + 'static>(name: &str, f: impl FnOnce() -> R + Send + 'static) -> tokio::task::JoinHandle<R> {
    tokio::task::spawn_blocking_opts(mcrt::TaskOpts { name: name.into(), must_finish: true }, f)
}

pub use tokio::task::yield_now;

#[derive(Clone, Debug, PartialEq)]
pub struct TErr(pub u32);

// ---------------------------------------------------------------- the instrumented actor

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum Outcome {
    #[default]
    Ok,
    Err(u32),
    Panic,
    /// a panic whose payload is not a string
    PanicAny,
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum PanicPolicy {
    #[default]
    Default,
    Continue,
    Break,
    BreakKilled,
    Err,
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum LinkPolicy {
    #[default]
    Default,
    Continue,
    Break,
    Err,
    Panic,
}

pub type HookFn = Arc<dyn Fn(ActorRef<T>) -> BoxFuture<'static, ()> + Send + Sync>;

#[derive(Clone, Default)]
pub struct Cfg {
    pub start: Outcome,
    pub start_yields: u8,
    pub start_hook: Option<HookFn>,
    pub on_panic: PanicPolicy,
    /// awaited in the failure hook
    pub panic_hook: Option<HookFn>,
    pub on_link: LinkPolicy,
    /// awaited in the link hook
    pub link_hook: Option<HookFn>,
    pub stop: Outcome,
    pub stop_yields: u8,
    pub stop_hook: Option<HookFn>,
}

pub struct T {
    pub name: &'static str,
    pub c: Cfg,
    /// ids handled so far (the state)
    pub seen: Vec<u32>,
}

pub fn t(name: &'static str) -> T {
    mcrt::set_next_name(name);
    T { name, c: Cfg::default(), seen: vec![] }
}
pub fn tc(name: &'static str, c: Cfg) -> T {
    mcrt::set_next_name(name);
    T { name, c, seen: vec![] }
}

impl Drop for T {
    fn drop(&mut self) {
        ev(self.name, "dropped", 0, "");
    }
}

static BUSY: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());

/// Marks the actor as executing user code; overlapping use is a violation.
pub struct Busy(&'static str, bool);
impl Busy {
    pub fn enter(name: &'static str, what: &str) -> Busy {
        let mut b = BUSY.lock().unwrap();
        if b.contains(&name) {
            drop(b);
            fail(format!("overlap: {what} of {name} began while another hook or handler of it was running"));
            return Busy(name, false);
        }
        b.push(name);
        Busy(name, true)
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        if self.1 {
            BUSY.lock().unwrap().retain(|n| *n != self.0);
        }
    }
}

fn produce(o: Outcome, what: &str) -> Result<(), TErr> {
    match o {
        Outcome::Ok => Ok(()),
        Outcome::Err(n) => Err(TErr(n)),
        Outcome::Panic => panic!("{what} panics"),
        Outcome::PanicAny => std::panic::panic_any(77u64),
    }
}

pub fn reason_text(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "Normal".into(),
        ActorStopReason::Killed => "Killed".into(),
        ActorStopReason::Panicked(e) => format!("Panicked:{}", perr_text(e)),
        ActorStopReason::LinkDied { id, reason } => format!("LinkDied:{}:{}", name_of(*id), reason_text(reason)),
        #[allow(unreachable_patterns)]
        _ => "Other".into(),
    }
}

/// What a `PanicError` carries, by downcasting.
pub fn perr_text(e: &PanicError) -> String {
    if let Some(s) = e.with_downcast_ref::<TErr, _, _>(|t| format!("TErr{}", t.0)) {
        return s;
    }
    if let Some(s) = e.with_str(|s| s.to_string()) {
        return format!("str:{s}");
    }
    "other".into()
}

static NAMES: Mutex<Vec<(ActorID, &'static str)>> = Mutex::new(Vec::new());
/// Gives an actor id a printable name.
pub fn name_id(id: ActorID, name: &'static str) {
    NAMES.lock().unwrap().push((id, name));
}
pub fn name_of(id: ActorID) -> String {
    NAMES.lock().unwrap().iter().find(|(i, _)| *i == id).map(|(_, n)| n.to_string()).unwrap_or_else(|| "?".into())
}

impl Actor for T {
    type Error = TErr;

    fn name() -> &'static str {
        "T"
    }

    async fn on_start(&mut self, actor_ref: ActorRef<Self>) -> Result<(), TErr> {
        let _b = Busy::enter(self.name, "on_start");
        ev(self.name, "start", 0, if actor_ref.is_current() { "" } else { "not-current" });
        for _ in 0..self.c.start_yields {
            yield_now().await;
        }
        if let Some(h) = self.c.start_hook.clone() {
            h(actor_ref).await;
        }
        ev(self.name, "started", 0, "");
        produce(self.c.start, "on_start")
    }

    async fn on_panic(&mut self, r: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, TErr> {
        let _b = Busy::enter(self.name, "on_panic");
        ev(self.name, "on_panic", 0, perr_text(&err));
        if let (Some(h), Some(ar)) = (self.c.panic_hook.clone(), r.upgrade()) {
            h(ar).await;
        }
        match self.c.on_panic {
            PanicPolicy::Default => Ok(ControlFlow::Break(ActorStopReason::Panicked(err))),
            PanicPolicy::Continue => Ok(ControlFlow::Continue(())),
            PanicPolicy::Break => Ok(ControlFlow::Break(ActorStopReason::Normal)),
            PanicPolicy::BreakKilled => Ok(ControlFlow::Break(ActorStopReason::Killed)),
            PanicPolicy::Err => Err(TErr(900)),
            PanicPolicy::Panic => panic!("on_panic panics"),
        }
    }

    async fn on_link_died(&mut self, r: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, TErr> {
        let _b = Busy::enter(self.name, "on_link_died");
        ev(self.name, "link_died", 0, format!("{} {}", name_of(id), reason_text(&reason)));
        if let (Some(h), Some(ar)) = (self.c.link_hook.clone(), r.upgrade()) {
            h(ar).await;
        }
        match self.c.on_link {
            LinkPolicy::Default => {
                // the library's default behaviour, through a type that does not override it
                let mut d = DefaultHooks;
                let _ = r;
                DefaultHooks::default_link_died(&mut d, id, reason).await
            }
            LinkPolicy::Continue => Ok(ControlFlow::Continue(())),
            LinkPolicy::Break => Ok(ControlFlow::Break(ActorStopReason::Normal)),
            LinkPolicy::Err => Err(TErr(901)),
            LinkPolicy::Panic => panic!("on_link_died panics"),
        }
    }

    async fn on_stop(&mut self, r: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), TErr> {
        let _b = Busy::enter(self.name, "on_stop");
        ev(self.name, "stop", 0, reason_text(&reason));
        for _ in 0..self.c.stop_yields {
            yield_now().await;
        }
        if let (Some(h), Some(ar)) = (self.c.stop_hook.clone(), r.upgrade()) {
            h(ar).await;
        }
        ev(self.name, "stopped", 0, "");
        produce(self.c.stop, "on_stop")
    }
}

/// An actor type with no overridden hooks, used to reach the library's defaults.
pub struct DefaultHooks;
impl Actor for DefaultHooks {
    type Error = TErr;
}
impl DefaultHooks {
    pub async fn default_link_died(d: &mut DefaultHooks, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, TErr> {
        let p = PreparedActor::<DefaultHooks>::new(mailbox::unbounded());
        let w = p.actor_ref().downgrade();
        <DefaultHooks as Actor>::on_link_died(d, w, id, reason).await
    }
}

pub type Reply1 = Result<u32, TErr>;
pub type Act = Box<dyn FnOnce(ActorRef<T>) -> BoxFuture<'static, Reply1> + Send>;

/// The message of the instrumented actor.
pub struct M {
    pub id: u32,
    pub act: Option<Act>,
    pub handled: bool,
}
impl Drop for M {
    fn drop(&mut self) {
        if !self.handled {
            ev("msg", "dropped", self.id as i64, "");
        }
    }
}
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "M{}", self.id)
    }
}

/// Replies `id + 1000`.
pub fn m(id: u32) -> M {
    M { id, act: None, handled: false }
}
pub fn m_do<F>(id: u32, f: impl FnOnce(ActorRef<T>) -> F + Send + 'static) -> M
where
    F: std::future::Future<Output = Reply1> + Send + 'static,
{
    M { id, act: Some(Box::new(move |a| Box::pin(f(a)))), handled: false }
}
pub fn m_yield(id: u32, n: u8) -> M {
    m_do(id, move |_| async move {
        for _ in 0..n {
            yield_now().await;
        }
        Ok(id + 1000)
    })
}
pub fn m_err(id: u32) -> M {
    m_do(id, move |_| async move { Err(TErr(id)) })
}
pub fn m_panic(id: u32) -> M {
    m_do(id, move |_| async move { panic!("handler {id} panics") })
}
pub fn m_panic_late(id: u32) -> M {
    m_do(id, move |_| async move {
        yield_now().await;
        panic!("handler {id} panics")
    })
}

struct Cancel(&'static str, u32, bool);
impl Drop for Cancel {
    fn drop(&mut self) {
        if !self.2 {
            ev(self.0, if std::thread::panicking() { "panicked" } else { "cancelled" }, self.1 as i64, "");
        }
    }
}

impl Message<M> for T {
    type Reply = Reply1;
    async fn handle(&mut self, mut msg: M, ctx: &mut Context<Self, Reply1>) -> Reply1 {
        let _b = Busy::enter(self.name, "handler");
        msg.handled = true;
        let id = msg.id;
        let ar = ctx.actor_ref();
        ev(self.name, "begin", id as i64, if ar.is_current() { "" } else { "not-current" });
        let mut c = Cancel(self.name, id, false);
        let r = match msg.act.take() {
            Some(f) => f(ar).await,
            None => Ok(id + 1000),
        };
        self.seen.push(id);
        c.2 = true;
        ev(self.name, "end", id as i64, "");
        r
    }
}

pub fn res_text<M0, E: std::fmt::Debug>(r: &Result<u32, SendError<M0, E>>) -> String {
    match r {
        Ok(v) => format!("ok{v}"),
        Err(e) => err_text(e),
    }
}
pub fn err_text<M0, E: std::fmt::Debug>(e: &SendError<M0, E>) -> String {
    match e {
        SendError::ActorNotRunning(_) => "NotRunning".into(),
        SendError::ActorStopped => "Stopped".into(),
        SendError::MailboxFull(_) => "Full".into(),
        SendError::HandlerError(e) => format!("handler:{e:?}"),
        SendError::Timeout(Some(_)) => "Timeout+msg".into(),
        SendError::Timeout(None) => "Timeout".into(),
    }
}
pub fn tell_text<M0, E: std::fmt::Debug>(r: &Result<(), SendError<M0, E>>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => err_text(e),
    }
}

/// Mailbox choice used by many scenarios.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mb {
    B(usize),
    U,
}
impl Mb {
    pub fn make<A: Actor>(self) -> (mailbox::MailboxSender<A>, mailbox::MailboxReceiver<A>) {
        match self {
            Mb::B(n) => mailbox::bounded(n),
            Mb::U => mailbox::unbounded(),
        }
    }
}

/// Spawns a named instrumented actor.
pub fn spawn_t(a: T, mb: Mb) -> ActorRef<T> {
    let n = a.name;
    let p = PreparedActor::new(mb.make());
    let r = p.actor_ref().clone();
    name_id(r.id(), n);
    mcrt::set_next_name(n);
    p.spawn(a);
    r
}
/// Spawns and returns the join handle too.
pub fn spawn_tj(a: T, mb: Mb) -> (ActorRef<T>, tokio::task::JoinHandle<(T, ActorStopReason)>) {
    let n = a.name;
    let p = PreparedActor::new(mb.make());
    let r = p.actor_ref().clone();
    name_id(r.id(), n);
    mcrt::set_next_name(n);
    let j = p.spawn(a);
    (r, j)
}
/// A kill is an atomic store and a wake-up outside of tokio: an explicit scheduling point goes before it.
pub fn kill<A: Actor>(r: &ActorRef<A>) {
    mcrt::point(0x6111, 18);
    r.kill();
    mcrt::op(0x6111, 18);
}

/// As the quick bound: thorough runs only.
pub const SKIP: u32 = u32::MAX;

/// Scenario descriptor.
pub struct Scn {
    pub name: &'static str,
    pub prop: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub opts: Options,
    pub make: Box<dyn Fn() -> Program>,
    pub about: &'static str,
}

pub fn scn(prop: &'static str, name: &'static str, quick: u32, thorough: u32, about: &'static str, make: impl Fn() -> Program + 'static) -> Scn {
    Scn { name, prop, quick, thorough, opts: Options::default(), make: Box::new(make), about }
}
impl Scn {
    pub fn split(mut self) -> Self {
        self.opts.split_send = true;
        self
    }
    pub fn post(mut self) -> Self {
        self.opts.post_points = true;
        self
    }
    pub fn lazy(mut self) -> Self {
        self.opts.lazy_time = true;
        self
    }
    pub fn steps(mut self, n: u64) -> Self {
        self.opts.max_steps = n;
        self
    }
    pub fn free(mut self) -> Self {
        self.opts.free_blocking = true;
        self
    }
}
