//! P04, P16, P21: the values users get to see, through every operation on them.
use crate::kit::*;
use kameo::error::{BoxSendError, SendError};
use std::any::Any;
use std::borrow::Cow;

// ------------------------------------------------------------------------------------------------ P04
type E = SendError<u32, u32>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    NotRunning(u32),
    Stopped,
    Full(u32),
    Handler(u32),
    Timeout(Option<u32>),
}
fn real(k: Kind) -> E {
    match k {
        Kind::NotRunning(m) => SendError::ActorNotRunning(m),
        Kind::Stopped => SendError::ActorStopped,
        Kind::Full(m) => SendError::MailboxFull(m),
        Kind::Handler(e) => SendError::HandlerError(e),
        Kind::Timeout(m) => SendError::Timeout(m),
    }
}
fn kind(e: &E) -> Kind {
    match e {
        SendError::ActorNotRunning(m) => Kind::NotRunning(*m),
        SendError::ActorStopped => Kind::Stopped,
        SendError::MailboxFull(m) => Kind::Full(*m),
        SendError::HandlerError(e) => Kind::Handler(*e),
        SendError::Timeout(m) => Kind::Timeout(*m),
    }
}
fn on_msg(k: Kind, f: impl Fn(u32) -> u32) -> Kind {
    match k {
        Kind::NotRunning(m) => Kind::NotRunning(f(m)),
        Kind::Full(m) => Kind::Full(f(m)),
        Kind::Timeout(m) => Kind::Timeout(m.map(f)),
        k => k,
    }
}
const EOPS: [&str; 9] = ["map_msg", "map_err", "boxed, downcast", "boxed, the wrong message type tried", "boxed, the wrong error type tried", "nested, flatten", "wrapped, flatten", "clone", "map_msg and back"];
fn apply(op: usize, e: E, k: Kind) -> (E, Kind) {
    match op {
        0 => (e.map_msg(|m| m + 1), on_msg(k, |m| m + 1)),
        1 => (e.map_err(|m| m + 10), if let Kind::Handler(n) = k { Kind::Handler(n + 10) } else { k }),
        2 => (e.boxed().downcast::<u32, u32>(), k),
        3 | 4 => {
            let b: BoxSendError = e.boxed();
            let wrong = match k {
                Kind::NotRunning(_) | Kind::Full(_) | Kind::Timeout(Some(_)) => op == 3,
                Kind::Handler(_) => op == 4,
                _ => false,
            };
            let r = if op == 3 {
                b.try_downcast::<u64, u32>().map(|e| e.map_msg(|m| m as u32))
            } else {
                b.try_downcast::<u32, u64>().map(|e| e.map_err(|m| m as u32))
            };
            if r.is_err() != wrong {
                fail(format!("{:?} of {k:?}: try_downcast succeeds: {}", EOPS[op], r.is_ok()));
            }
            match r {
                Ok(e) => (e, k),
                Err(b) => (b.try_downcast::<u32, u32>().unwrap_or(SendError::ActorStopped), k),
            }
        }
        5 => (SendError::HandlerError::<u32, E>(e).map_msg(|m| m + 99).flatten(), k),
        6 => (e.map_err(SendError::HandlerError::<u32, u32>).flatten(), k),
        7 => (e.clone(), k),
        _ => (e.map_msg(|m| m.to_string()).map_msg(|m| m.parse().unwrap()), k),
    }
}
fn error_values() -> Scn {
    scn("P04", "error-values", 0, 0, "every send error through every sequence of five operations on it (mapped, boxed, downcast rightly and wrongly, nested and flattened, cloned), then shown and unwrapped: its kind and what it carries are kept", || {
        prog(
            || async {
                let k0 = [Kind::NotRunning(1), Kind::Stopped, Kind::Full(2), Kind::Handler(3), Kind::Timeout(None), Kind::Timeout(Some(4))][choose(6)];
                let (a, b) = (choose(EOPS.len()), choose(EOPS.len()));
                let n = EOPS.len();
                for rest in 0..n * n * n {
                    let ops = [a, b, rest % n, rest / n % n, rest / n / n];
                    let (mut e, mut k) = (real(k0), k0);
                    for o in ops {
                        (e, k) = apply(o, e, k);
                        if kind(&e) != k {
                            fail(format!("{k0:?} after {:?} is {:?}, not {k:?}", ops.map(|o| EOPS[o]), kind(&e)));
                            return;
                        }
                    }
                    let (msg, err, text, debug) = match k {
                        Kind::NotRunning(m) => (Some(m), None, "actor not running".to_string(), "ActorNotRunning".to_string()),
                        Kind::Stopped => (None, None, "actor stopped".into(), "ActorStopped".into()),
                        Kind::Full(m) => (Some(m), None, "mailbox full".into(), "MailboxFull".into()),
                        Kind::Handler(n) => (None, Some(n), n.to_string(), n.to_string()),
                        Kind::Timeout(m) => (m, None, "timeout".into(), "Timeout".into()),
                    };
                    if e.to_string() != text || format!("{e:?}") != debug {
                        fail(format!("{k:?} is shown as {e} and {e:?}"));
                    }
                    if msg.is_some_and(|m| e.unwrap_msg() != m) || err.is_some_and(|n| e.unwrap_err() != n) {
                        fail(format!("{k:?} unwraps to something else"));
                    }
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

// ------------------------------------------------------------------------------------------------ P16
#[derive(Clone, Debug, PartialEq)]
struct Custom(u32);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Lit,
    Fmt,
    Num,
    CustomPanic,
    ErrCustom,
    ErrStr,
    ErrString,
    Empty,
}
const FAULTS: [Fault; 8] = [Fault::Lit, Fault::Fmt, Fault::Num, Fault::CustomPanic, Fault::ErrCustom, Fault::ErrStr, Fault::ErrString, Fault::Empty];
struct V(&'static str, bool);
/// What can be read from a `PanicError`, in every way there is.
fn acc(e: &PanicError) -> String {
    let c = e.clone();
    let s = c.with_str(|s| s.to_string());
    let a = e.downcast::<&'static str>().map(|s| s.to_string());
    let b = e.downcast::<String>();
    let t = e.downcast::<Custom>().map(|c| c.0);
    let n = e.downcast::<u64>();
    // payloads of other types come as they were caught
    let any = e.with_downcast_ref::<Box<dyn Any + Send>, _, _>(|a| (a.downcast_ref::<u64>().copied(), a.downcast_ref::<Custom>().map(|c| c.0)));
    let debug = e.with(|e| format!("{e:?}"));
    format!("{s:?} {a:?} {b:?} {t:?} {n:?} {any:?} | {e} | {debug}")
}
fn reads(f: Fault) -> Vec<String> {
    let str = |s: &str| format!("{:?} {:?} None None None None | panicked: {s} | {s:?}", Some(s), Some(s));
    let string = |s: &str| format!("{:?} None {:?} None None None | panicked: {s} | {s:?}", Some(s), Some(s));
    match f {
        Fault::Lit => vec![str("literal")],
        Fault::Fmt => vec![string("formatted 7")],
        // found by its own type or in the box it was caught in
        Fault::Num => vec![
            "None None None None None Some((Some(7), None)) | panicked | Any { .. }".into(),
            "None None None None Some(7) None | panicked | 7".into(),
        ],
        Fault::CustomPanic => vec![
            "None None None None None Some((None, Some(8))) | panicked | Any { .. }".into(),
            "None None None Some(8) None None | panicked | Custom(8)".into(),
        ],
        Fault::ErrCustom => vec!["None None None Some(9) None None | panicked | Custom(9)".into()],
        Fault::ErrStr => vec![str("failed")],
        Fault::ErrString => vec![string("failed 10")],
        Fault::Empty => vec![str("")],
    }
}
impl Actor for V {
    type Error = TErr;
    async fn on_panic(&mut self, _r: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, TErr> {
        ev(self.0, "on_panic", 0, acc(&err));
        if self.1 {
            return Ok(ControlFlow::Continue(()));
        }
        Ok(ControlFlow::Break(ActorStopReason::Panicked(err)))
    }
    async fn on_stop(&mut self, _r: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), TErr> {
        if let ActorStopReason::Panicked(e) = &reason {
            ev(self.0, "stop", 0, acc(e));
        } else {
            ev(self.0, "stopped otherwise", 0, reason_text(&reason));
        }
        Ok(())
    }
    async fn on_link_died(&mut self, _r: WeakActorRef<Self>, _id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, TErr> {
        if let ActorStopReason::Panicked(e) = &reason {
            ev(self.0, "link", 0, acc(e));
        } else {
            ev(self.0, "link otherwise", 0, reason_text(&reason));
        }
        Ok(ControlFlow::Continue(()))
    }
}
struct Do(Fault);
struct DoStr;
struct DoString;
impl Message<Do> for V {
    type Reply = Result<u32, Custom>;
    async fn handle(&mut self, d: Do, _c: &mut Context<Self, Self::Reply>) -> Self::Reply {
        match d.0 {
            Fault::Lit => panic!("literal"),
            Fault::Fmt => panic!("formatted {}", d.0 as u32 + 6),
            Fault::Num => std::panic::panic_any(7u64),
            Fault::CustomPanic => std::panic::panic_any(Custom(8)),
            Fault::Empty => panic!(""),
            _ => Err(Custom(9)),
        }
    }
}
impl Message<DoStr> for V {
    type Reply = Result<u32, &'static str>;
    async fn handle(&mut self, _: DoStr, _c: &mut Context<Self, Self::Reply>) -> Self::Reply {
        Err("failed")
    }
}
impl Message<DoString> for V {
    type Reply = Result<u32, String>;
    async fn handle(&mut self, _: DoString, _c: &mut Context<Self, Self::Reply>) -> Self::Reply {
        Err(format!("failed {}", 10))
    }
}
fn panic_values() -> Scn {
    scn("P16", "panic-values", 1, 2, "a handler panics with a string, a formatted one, an empty one, a number or a type of its own, or fails with a type of its own or a string: the failure hook, the stop hook, a linked actor and whoever awaits the actor read the same value by every means there is", || {
        prog(
            || async {
                let f = FAULTS[choose(FAULTS.len())];
                let cont = choose(2) == 1;
                let mb = [Mb::U, Mb::B(1)][choose(2)];
                let p = PreparedActor::new(mb.make());
                let a = p.actor_ref().clone();
                name_id(a.id(), "A");
                mcrt::set_next_name("A");
                let h = p.spawn(V("A", cont));
                mcrt::set_next_name("B");
                let b = spawn_with_mailbox(V("B", true), Mb::U.make());
                b.link(&a).await;
                let r = match f {
                    Fault::ErrStr => a.tell(DoStr).send().await.is_ok(),
                    Fault::ErrString => a.tell(DoString).send().await.is_ok(),
                    f => a.tell(Do(f)).send().await.is_ok(),
                };
                if !r {
                    fail("telling a running actor failed");
                }
                if cont {
                    mcrt::quiesce();
                    let _ = a.stop_gracefully().await;
                }
                match h.await {
                    Ok((_, ActorStopReason::Panicked(e))) => ev("joined", "stop", 0, acc(&e)),
                    Ok((_, r)) => ev("joined", "stopped otherwise", 0, reason_text(&r)),
                    Err(e) => fail(format!("the actor's task failed: {e:?}")),
                }
                a.wait_for_shutdown().await;
                mcrt::settle();
                let l = log();
                let want = reads(f);
                let seen: Vec<(&str, &str)> = if cont { vec![("A", "on_panic")] } else { vec![("A", "on_panic"), ("A", "stop"), ("B", "link"), ("joined", "stop")] };
                for (who, what) in seen {
                    let got = l.ss(who, what);
                    if got.len() != 1 || !want.contains(&got[0]) {
                        fail(format!("{f:?}: {who} {what} reads {got:?} instead of {want:?}"));
                    }
                }
                if cont {
                    for (who, what) in [("A", "stopped otherwise"), ("B", "link otherwise"), ("joined", "stopped otherwise")] {
                        if l.ss(who, what) != ["Normal"] {
                            fail(format!("{f:?} was survived, {who} {what} {:?}", l.ss(who, what)));
                        }
                    }
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}


// ------------------------------------------------------------------------------------------------ P03
struct Teller;
impl Actor for Teller {
    type Error = TErr;
    async fn on_panic(&mut self, _r: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, TErr> {
        ev("R", "on_panic", 0, perr_text(&err));
        Ok(ControlFlow::Continue(()))
    }
}
/// Has the handler return what the function makes.
struct Get<T>(fn() -> T);
impl<T: kameo::Reply> Message<Get<T>> for Teller {
    type Reply = T;
    async fn handle(&mut self, g: Get<T>, _c: &mut Context<Self, T>) -> T {
        ev("R", "handled", 0, "");
        (g.0)()
    }
}
/// As `Get`, answered through the context.
struct Put<T>(fn() -> T, bool);
impl<T: kameo::Reply<Value = T>> Message<Put<T>> for Teller {
    type Reply = kameo::reply::DelegatedReply<T>;
    async fn handle(&mut self, g: Put<T>, c: &mut Context<Self, Self::Reply>) -> Self::Reply {
        if g.1 {
            return c.reply((g.0)());
        }
        let (d, tx) = c.reply_sender();
        if let Some(tx) = tx {
            tx.send((g.0)());
        }
        d
    }
}
/// As `Get`, answered by another actor.
struct Pass<T>(fn() -> T, ActorRef<Teller>, bool);
impl<T: kameo::Reply> Message<Pass<T>> for Teller {
    type Reply = kameo::reply::ForwardedReply<Get<T>, T>;
    async fn handle(&mut self, g: Pass<T>, c: &mut Context<Self, Self::Reply>) -> Self::Reply {
        if g.2 {
            c.try_forward(&g.1, Get(g.0))
        } else {
            c.forward(&g.1, Get(g.0)).await
        }
    }
}
/// Every way to be answered; the values are compared as shown.
async fn answers<T>(what: &str, make: fn() -> T, show_ok: fn(T::Ok) -> String, show_err: fn(T::Error) -> String, fails: bool)
where
    T: kameo::Reply<Value = T>,
{
    let a = spawn_with_mailbox(Teller, Mb::B(2).make());
    let b = spawn_with_mailbox(Teller, Mb::U.make());
    a.wait_for_startup().await;
    b.wait_for_startup().await;
    mcrt::quiesce();
    let want = match make().to_result() {
        Ok(v) => show_ok(v),
        Err(e) => format!("failed {}", show_err(e)),
    };
    let mut got: Vec<(&str, String)> = vec![];
    macro_rules! put {
        ($form:expr, $r:expr) => {
            got.push(($form, match $r {
                Ok(v) => show_ok(v),
                Err(SendError::HandlerError(e)) => format!("failed {}", show_err(e)),
                Err(e) => err_name(&e).into(),
            }))
        };
    }
    put!("ask", a.ask(Get(make)).await);
    put!("try_send", a.ask(Get(make)).try_send().await);
    put!("timed ask", a.ask(Get(make)).reply_timeout(Duration::from_secs(5)).mailbox_timeout(Duration::from_secs(5)).send().await);
    put!("enqueue", a.ask(Get(make)).enqueue().await.unwrap().await);
    put!("try_enqueue", a.ask(Get(make)).try_enqueue().unwrap().await);
    put!("reply", a.ask(Put(make, true)).await);
    put!("reply_sender", a.ask(Put(make, false)).await);
    for tries in [false, true] {
        got.push(("forward", match a.ask(Pass(make, b.clone(), tries)).await {
            Ok(v) => show_ok(v),
            Err(SendError::HandlerError(SendError::HandlerError(e))) => format!("failed {}", show_err(e)),
            Err(SendError::HandlerError(e)) => err_name(&e).into(),
            Err(e) => err_name(&e).into(),
        }));
    }
    for (form, g) in got {
        if g != want {
            fail(format!("{what}: {form} returned {g} instead of {want}"));
        }
    }
    // told, it is a failure only if it is one
    let before = log().countk("R", "on_panic");
    let h = log().countk("R", "handled");
    a.tell(Get(make)).await.unwrap();
    a.tell(Put(make, true)).await.unwrap();
    a.tell(Pass(make, b.clone(), false)).await.unwrap();
    mcrt::quiesce();
    let l = log();
    let n = l.countk("R", "on_panic") - before;
    // what is delegated is nobody's failure when nobody asked
    if n != if fails { 2 } else { 0 } || l.countk("R", "handled") != h + 2 {
        fail(format!("{what}: told, it was handled {} times and failed {n} times", l.countk("R", "handled") - h));
    }
}
fn err_name<M, E>(e: &SendError<M, E>) -> &'static str {
    match e {
        SendError::ActorNotRunning(_) => "actor not running",
        SendError::ActorStopped => "actor stopped",
        SendError::MailboxFull(_) => "mailbox full",
        SendError::HandlerError(_) => "another handler error",
        SendError::Timeout(_) => "timeout",
    }
}
const KINDS: usize = 60;
async fn reply_kind(i: usize) {
    use std::collections::*;
    use std::num::*;
    use std::sync::atomic::*;
    use std::sync::RwLock;
    macro_rules! val {
        ($t:ty, $e:expr) => {
            val!($t, $e, |v| format!("{v:?}"))
        };
        ($t:ty, $e:expr, $s:expr) => {
            answers::<$t>(stringify!($t), || $e, $s, |e| match e {}, false).await
        };
    }
    macro_rules! res {
        ($t:ty, $u:ty, $e:expr, $fails:expr) => {
            answers::<Result<$t, $u>>(stringify!(Result<$t, $u>), || $e, |v| format!("{v:?}"), |e| format!("{e:?}"), $fails).await
        };
    }
    static SLICE: [u16; 3] = [1, 2, 3];
    match i {
        0 => val!((), ()),
        1 => val!(usize, usize::MAX),
        2 => val!(u8, 255),
        3 => val!(u16, 65_535),
        4 => val!(u32, 7),
        5 => val!(u64, u64::MAX),
        6 => val!(u128, u128::MAX),
        7 => val!(isize, isize::MIN),
        8 => val!(i8, -128),
        9 => val!(i16, -1),
        10 => val!(i32, i32::MIN),
        11 => val!(i64, i64::MIN),
        12 => val!(i128, i128::MIN),
        13 => val!(f32, f32::MIN_POSITIVE),
        14 => val!(f64, f64::NAN),
        15 => val!(char, '\u{1F980}'),
        16 => val!(bool, true),
        17 => val!(&'static str, "static"),
        18 => val!(String, "owned".to_string()),
        19 => val!(std::path::PathBuf, "/a/b".into()),
        20 => val!(&'static std::path::Path, std::path::Path::new("/c")),
        21 => val!(Option<u8>, Some(1)),
        22 => val!(Option<String>, None),
        23 => val!(Option<Result<u8, String>>, Some(Err("not a failure".into()))),
        24 => val!(Cow<'static, u32>, Cow::Owned(3)),
        25 => val!(Arc<u32>, Arc::new(4)),
        26 => val!(Mutex<u32>, Mutex::new(5)),
        27 => val!(RwLock<u32>, RwLock::new(6)),
        28 => val!([u8; 3], [1, 2, 3]),
        29 => val!(&'static [u16; 3], &SLICE),
        30 => val!(&'static [u16], &SLICE[..2]),
        31 => val!(&'static mut u32, Box::leak(Box::new(8))),
        32 => val!(Box<u32>, Box::new(9)),
        33 => val!(Vec<u8>, vec![1, 2]),
        34 => val!(VecDeque<u8>, VecDeque::from([3, 4])),
        35 => val!(LinkedList<u8>, LinkedList::from([5])),
        36 => val!(HashMap<u8, u8>, HashMap::from([(1, 2)])),
        37 => val!(BTreeMap<u8, u8>, BTreeMap::from([(1, 2), (3, 4)])),
        38 => val!(HashSet<u8>, HashSet::from([1])),
        39 => val!(BTreeSet<u8>, BTreeSet::from([1, 2])),
        40 => val!(BinaryHeap<u8>, BinaryHeap::from([1])),
        41 => val!(NonZeroU8, NonZeroU8::MAX),
        42 => val!(NonZeroI128, NonZeroI128::MIN),
        43 => val!(AtomicBool, AtomicBool::new(true)),
        44 => val!(AtomicUsize, AtomicUsize::new(10)),
        45 => val!(AtomicI8, AtomicI8::new(-1)),
        46 => val!(AtomicU64, AtomicU64::new(11)),
        47 => val!(std::cell::OnceCell<u8>, std::cell::OnceCell::from(1)),
        48 => val!((u8,), (1,)),
        49 => val!((u8, String), (1, "x".into())),
        50 => val!((u8, u16, u32, u64, i8, i16, i32, i64), (1, 2, 3, 4, 5, 6, 7, 8)),
        51 => val!(tokio::sync::RwLock<u32>, tokio::sync::RwLock::new(12), |v| format!("{}", v.into_inner())),
        52 => val!(tokio::sync::Mutex<u32>, tokio::sync::Mutex::new(13), |v| v.into_inner().to_string()),
        53 => res!(u32, String, Ok(14), false),
        54 => res!(u32, String, Err("failed".into()), true),
        55 => res!((), (), Err(()), true),
        56 => res!(Result<u8, u8>, u16, Ok(Err(1)), false),
        57 => res!(u8, u8, Err(1), true),
        // errors of sends
        58 => res!(u32, SendError<Custom, Custom>, Err(SendError::HandlerError(Custom(15))), true),
        _ => res!(u32, SendError<Custom, Custom>, Err(SendError::ActorNotRunning(Custom(16))), true),
    }
}
fn reply_types() -> Scn {
    scn("P03", "reply-types", 0, 1, "replies of sixty types (numbers, strings, collections, atomics, cells, references, boxed values, results and results within, errors of sends) asked for in every form, given directly, through the context and by another actor, and told: the value arrives as it is, and only an error is a failure", || {
        prog(
            || async {
                reply_kind(choose(KINDS)).await;
            },
            |f, _l, v| all_done(f, v),
        )
    })
    .lazy()
}

pub fn scenarios() -> Vec<Scn> {
    vec![reply_types(), error_values(), panic_values()]
}
