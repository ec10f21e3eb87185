//! Every way for an actor to end, in every way of running it, with every kind of observer.
use crate::kit::*;
use crate::uni::out_text;

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    StopReq,
    SelfStop,
    StartStop,
    KillReq,
    KillIdle,
    SelfKill,
    SelfKillLast,
    StartKill,
    DropLast,
    HandlerPanic,
    TellErr,
    StartErr,
    StartPanic,
    LinkDeath,
    LinkBreak,
    LinkErr,
    LinkPanic,
    PanicHookPanic,
    PanicHookErr,
    PanicHookBreak,
    /// killed while the failure hook waits
    KillInPanic,
    /// killed by itself in its failure hook
    PanicKill,
    /// killed while the link hook waits
    KillInLink,
    LinkKill,
    /// killed while the stop hook runs
    KillInStop,
}
use End::*;
const ALL: &[End] = &[
    StopReq, SelfStop, StartStop, KillReq, KillIdle, SelfKill, SelfKillLast, StartKill, DropLast, HandlerPanic, TellErr, StartErr, StartPanic, LinkDeath,
    LinkBreak, LinkErr, LinkPanic, PanicHookPanic, PanicHookErr, PanicHookBreak, KillInPanic, PanicKill, KillInLink, LinkKill, KillInStop,
];
const KILLS: &[End] = &[KillReq, KillIdle, SelfKill, SelfKillLast, StartKill, KillInPanic, PanicKill, KillInLink, LinkKill, KillInStop];

impl End {
    /// The reason the actor ends with.
    fn reason(self) -> &'static str {
        match self {
            StopReq | SelfStop | StartStop | DropLast | LinkBreak | PanicHookBreak | KillInStop => "Normal",
            KillReq | KillIdle | SelfKill | SelfKillLast | StartKill | KillInPanic | PanicKill | KillInLink | LinkKill => "Killed",
            HandlerPanic => "Panicked:str:handler 90 panics",
            TellErr => "Panicked:TErr91",
            StartErr => "Panicked:TErr7",
            StartPanic => "Panicked:str:on_start panics",
            LinkDeath => "LinkDied:C:Killed",
            LinkErr => "Panicked:TErr901",
            LinkPanic => "Panicked:str:on_link_died panics",
            PanicHookPanic => "Panicked:str:on_panic panics",
            PanicHookErr => "Panicked:TErr900",
        }
    }
    /// What the failure hook sees before that.
    fn panics(self) -> Vec<&'static str> {
        match self {
            HandlerPanic | PanicHookPanic | PanicHookErr | PanicHookBreak | KillInPanic | PanicKill => vec!["str:handler 90 panics"],
            TellErr => vec!["TErr91"],
            StartErr => vec!["TErr7"],
            StartPanic => vec!["str:on_start panics"],
            LinkErr => vec!["TErr901"],
            LinkPanic => vec!["str:on_link_died panics"],
            _ => vec![],
        }
    }
}

fn error_hook(e: &PanicError) {
    ev("hook", "error", 0, perr_text(e));
}

#[derive(Clone, Copy, Debug)]
struct Plan {
    end: End,
    stop: Outcome,
    mode: usize,
}

fn every_end(prop: &'static str, quick: u32, ends: &'static [End]) -> Scn {
    scn(prop, "every-end", quick, 2, "an actor spawned as a task, in a thread or run in the caller's task ends in each way there is, with each outcome of its stop hook; linked actors, early, late and type-erased waiters, a pending ask and the error hook observe it", move || {
        let plan: Arc<std::sync::OnceLock<Plan>> = Arc::default();
        let plan2 = plan.clone();
        prog(
            move || async move {
                let end = ends[choose(ends.len())];
                let stop = [Outcome::Ok, Outcome::Err(8), Outcome::Panic][choose(3)];
                let mode = choose(3);
                let mb = [Mb::U, Mb::B(3)][choose(2)];
                let _ = plan.set(Plan { end, stop, mode });
                kameo::error::set_actor_error_hook(error_hook);
                let pa = PreparedActor::new(mb.make());
                let a = pa.actor_ref().clone();
                name_id(a.id(), "A");
                let b = spawn_t(tc("B", Cfg { on_link: LinkPolicy::Continue, ..Default::default() }), Mb::U);
                let c = spawn_t(t("C"), Mb::U);
                b.link(&a).await;
                if matches!(end, LinkDeath | LinkBreak | LinkErr | LinkPanic | KillInLink | LinkKill) {
                    a.link(&c).await;
                }
                let start_hook: Option<HookFn> = match end {
                    StartStop => Some(Arc::new(|me: ActorRef<T>| {
                        Box::pin(async move {
                            let _ = me.stop_gracefully().await;
                        })
                    })),
                    StartKill => Some(Arc::new(|me: ActorRef<T>| {
                        Box::pin(async move {
                            kill(&me);
                            yield_now().await;
                        })
                    })),
                    _ => None,
                };
                fn waits(_: ActorRef<T>) -> BoxFuture<'static, ()> {
                    Box::pin(futures::future::pending())
                }
                fn kills(me: ActorRef<T>) -> BoxFuture<'static, ()> {
                    Box::pin(async move {
                        kill(&me);
                        drop(me);
                        yield_now().await;
                        ev("A", "survived", 0, "");
                    })
                }
                let hook = move |waiting, killing| -> Option<HookFn> {
                    if end == waiting {
                        Some(Arc::new(waits))
                    } else if end == killing {
                        Some(Arc::new(kills))
                    } else {
                        None
                    }
                };
                let stop_hook: Option<HookFn> = if end == KillInStop {
                    Some(Arc::new(|_| Box::pin(tokio::time::sleep(Duration::from_millis(10)))))
                } else {
                    None
                };
                let act = tc("A", Cfg {
                    panic_hook: hook(KillInPanic, PanicKill),
                    link_hook: hook(KillInLink, LinkKill),
                    start: match end {
                        StartErr => Outcome::Err(7),
                        StartPanic => Outcome::Panic,
                        _ => Outcome::Ok,
                    },
                    start_hook,
                    stop,
                    stop_yields: 1,
                    stop_hook,
                    on_panic: match end {
                        PanicHookPanic => PanicPolicy::Panic,
                        PanicHookErr => PanicPolicy::Err,
                        PanicHookBreak => PanicPolicy::Break,
                        _ => PanicPolicy::Default,
                    },
                    on_link: match end {
                        LinkBreak => LinkPolicy::Break,
                        LinkErr => LinkPolicy::Err,
                        LinkPanic => LinkPolicy::Panic,
                        _ => LinkPolicy::Default,
                    },
                    ..Default::default()
                });
                mcrt::set_next_name("A");
                fn done(r: Option<(T, ActorStopReason)>) {
                    match r {
                        Some((t, r)) => {
                            ev("J", "joined", 0, reason_text(&r));
                            ev("J", "state", 0, format!("{:?}", t.seen));
                        }
                        None => ev("J", "joined", 0, "join error"),
                    }
                }
                match mode {
                    0 => {
                        let j = pa.spawn(act);
                        client("J", async move { done(j.await.ok()) });
                    }
                    1 => {
                        let th = pa.spawn_in_thread(act);
                        mcrt::adopt_foreign("A");
                        client_blocking("J", move || {
                            // joining a thread blocks for real: wait until nothing else can happen, then it must be over
                            mcrt::settle();
                            for _ in 0..2000 {
                                if th.is_finished() {
                                    return done(th.join().ok());
                                }
                                mcrt::os::internal(|| std::thread::sleep(Duration::from_millis(1)));
                            }
                            fail("the actor's thread never ended");
                        });
                    }
                    _ => {
                        client("J", async move { done(Some(pa.run(act).await)) });
                    }
                }
                if end != DropLast {
                    let w = a.clone();
                    client("w1", async move {
                        w.wait_for_shutdown().await;
                        ev_hb("w1", "down", 0, "");
                        if w.is_alive() {
                            ev("w1", "alive", 0, "");
                        }
                        if stop != Outcome::Panic {
                            let r = w.wait_for_shutdown_result().await;
                            ev("w1", "result", 0, match r {
                                Ok(()) => "ok".into(),
                                Err(TErr(n)) => format!("TErr{n}"),
                            });
                        }
                        w.wait_for_startup().await;
                        let r = w.tell(m(99)).send().await;
                        ev("w1", "late_tell", 0, tell_text(&r));
                    });
                    let w = a.clone().recipient::<M>();
                    client("w2", async move {
                        w.wait_for_shutdown().await;
                        ev_hb("w2", "down", 0, "");
                        if w.is_alive() {
                            ev("w2", "alive", 0, "");
                        }
                        let r = w.tell(m(98)).try_send();
                        ev("w2", "late_tell", 0, match r {
                            Ok(()) => "ok".into(),
                            Err(e) => err_text(&e),
                        });
                        w.wait_for_shutdown().await;
                    });
                    let w = a.clone();
                    client("w3", async move {
                        #[allow(deprecated)]
                        w.wait_for_stop().await;
                        ev_hb("w3", "down", 0, "");
                    });
                    let w = a.clone();
                    client("asker", async move {
                        let r = w.ask(m(50)).send().await;
                        ev("asker", "ret", 50, res_text(&r));
                    });
                }
                let aw = if end == DropLast { None } else { Some(a.clone()) };
                client("driver", async move {
                    match end {
                        StopReq => {
                            let _ = a.tell(m(1)).send().await;
                            let _ = a.stop_gracefully().await;
                        }
                        SelfStop => {
                            let _ = a
                                .tell(m_do(1, |me| async move {
                                    let _ = me.stop_gracefully().await;
                                    Ok(0)
                                }))
                                .send()
                                .await;
                        }
                        KillReq => {
                            let _ = a.tell(m(1)).send().await;
                            kill(&a);
                            kill(&a);
                        }
                        KillIdle => {
                            a.wait_for_startup().await;
                            mcrt::quiesce();
                            kill(&a);
                        }
                        SelfKill => {
                            let _ = a
                                .tell(m_do(1, |me| async move {
                                    kill(&me);
                                    yield_now().await;
                                    ev("A", "survived", 0, "");
                                    Ok(0)
                                }))
                                .send()
                                .await;
                        }
                        SelfKillLast => {
                            let _ = a
                                .tell(m_do(1, |me| async move {
                                    kill(&me);
                                    Ok(0)
                                }))
                                .send()
                                .await;
                        }
                        DropLast => {
                            let _ = a.tell(m(1)).send().await;
                        }
                        HandlerPanic | PanicHookPanic | PanicHookErr | PanicHookBreak | PanicKill => {
                            let _ = a.tell(m_panic(90)).send().await;
                        }
                        TellErr => {
                            let _ = a.tell(m_err(91)).send().await;
                        }
                        KillInPanic => {
                            let _ = a.tell(m_panic(90)).send().await;
                            mcrt::quiesce();
                            kill(&a);
                        }
                        KillInLink => {
                            kill(&c);
                            mcrt::quiesce();
                            kill(&a);
                        }
                        KillInStop => {
                            let _ = a.stop_gracefully().await;
                            mcrt::quiesce();
                            kill(&a);
                        }
                        LinkDeath | LinkBreak | LinkErr | LinkPanic | LinkKill => {
                            kill(&c);
                            c.wait_for_shutdown().await;
                        }
                        StartErr | StartPanic | StartStop | StartKill => {}
                    }
                    drop(a);
                });
                mcrt::settle();
                if let Some(a) = aw {
                    a.wait_for_shutdown().await;
                    ev("late", "down", 0, "");
                }
                let r = b.ask(m(60)).send().await;
                ev("B", "served", 0, res_text(&r));
            },
            move |f, l, v| {
                let Some(p) = plan2.get() else { return sane(f, v) };
                all_done(f, v);
                for (q, m) in judge(l, p) {
                    if q == prop {
                        v.push(format!("{m} ({:?}, stop hook {:?}, mode {})", p.end, p.stop, ["task", "thread", "run"][p.mode]));
                    }
                }
            },
        )
    })
}

fn judge(l: &Log, p: &Plan) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    let mut bad = |ps: &[&'static str], m: String| {
        for p in ps {
            v.push((*p, m.clone()));
        }
    };
    let reason = p.end.reason().to_string();
    let stops = l.ss("A", "stop");
    if stops.len() != 1 {
        bad(&["P09", "P11", "P16", "P22", "P12"], format!("the stop hook ran {} times", stops.len()));
        return v;
    }
    if stops[0] != reason {
        bad(&["P16", "P09"], format!("the stop hook saw {} instead of {reason}", stops[0]));
    }
    if l.ss("J", "joined") != vec![reason.clone()] {
        bad(&["P16", "P09"], format!("the awaited reason is {:?} instead of {reason}", l.ss("J", "joined")));
    }
    let ends = format!("{:?}", l.ns("A", "end"));
    if l.ss("J", "state") != vec![ends.clone()] {
        bad(&["P16"], format!("the awaited state is {:?}, but {ends} were handled", l.ss("J", "state")));
    }
    let died: Vec<String> = l.ss("B", "link_died");
    if died != vec![format!("A {reason}")] {
        bad(&["P13", "P16", "P09", "P11"], format!("the linked actor was told {died:?} instead of A {reason}"));
    }
    if l.ss("B", "served") != ["ok1060"] {
        bad(&["P13"], "the linked actor does not serve any more".into());
    }
    let stopped = l.first("A", "stopped");
    for w in ["w1", "w2", "w3", "late"] {
        if p.end == End::DropLast {
            continue;
        }
        match l.first(w, "down") {
            None => bad(&["P11", "P09"], format!("waiter {w} was never released")),
            Some(d) if stopped.map_or(true, |s| s > d) => bad(&["P11"], format!("waiter {w} was released before the stop hook finished")),
            _ => {}
        }
        if l.countk(w, "alive") > 0 {
            bad(&["P11"], format!("the actor reports that it is alive to {w} after shutdown"));
        }
        if let Some(e) = l.get(w, "late_tell") {
            if e.s != "NotRunning" {
                bad(&["P11"], format!("a message sent after shutdown returned {}", e.s));
            }
        }
    }
    if let Some(r) = l.get("w1", "result") {
        let want = out_text(p.stop, "on_stop");
        if r.s != want {
            bad(&["P11"], format!("the shutdown result is {} instead of {want}", r.s));
        }
    }
    if let Some(r) = l.get("asker", "ret") {
        let handled = l.count("A", "end", 50) == 1;
        let ok = if handled { r.s == "ok1050" } else { matches!(r.s.as_str(), "Stopped" | "NotRunning") };
        if !ok {
            bad(&["P09", "P03"], format!("the pending ask returned {} (handled: {handled})", r.s));
        }
    }
    if l.countk("A", "survived") > 0 {
        bad(&["P09"], "the actor went on after killing itself and suspending".into());
    }
    let panics = l.ss("A", "on_panic");
    if panics != p.end.panics() {
        bad(&["P12"], format!("the failure hook saw {panics:?} instead of {:?}", p.end.panics()));
    }
    // a death of a linked actor that is fatal is told once
    let mut hook: Vec<String> = vec![];
    match p.end {
        End::StartErr => hook.push("TErr7".into()),
        End::StartPanic => hook.push("str:on_start panics".into()),
        _ => {}
    }
    if p.stop != Outcome::Ok {
        hook.push(out_text(p.stop, "on_stop"));
    }
    let got = l.ss("hook", "error");
    if got != hook {
        bad(&["P22"], format!("the error hook saw {got:?} instead of {hook:?}"));
    }
    if matches!(p.end, End::StartErr | End::StartPanic) && l.countk("A", "begin") > 0 {
        bad(&["P22"], "a message was handled although start-up failed".into());
    }
    v
}

fn hook_a(e: &PanicError) {
    ev("hook", "a", 0, perr_text(e));
}
fn hook_b(e: &PanicError) {
    ev("hook", "b", 0, perr_text(e));
}

/// Which error hook hears of an error: the one installed last.
fn hook_replaced() -> Scn {
    scn("P22", "hook-replaced", 0, 1, "every sequence of four of: installing one of two error hooks, an actor failing to start or to stop by an error or a panic, or starting and stopping well", || {
        prog(
            || async {
                let mut installed = None;
                let mut want: Vec<(&'static str, String)> = vec![];
                for _ in 0..4 {
                    let op = choose(7);
                    let mut c = Cfg::default();
                    match op {
                        0 => {
                            kameo::error::set_actor_error_hook(hook_a);
                            installed = Some("a");
                            continue;
                        }
                        1 => {
                            kameo::error::set_actor_error_hook(hook_b);
                            installed = Some("b");
                            continue;
                        }
                        2 => c.start = Outcome::Err(7),
                        3 => c.start = Outcome::Panic,
                        4 => c.stop = Outcome::Err(8),
                        5 => c.stop = Outcome::Panic,
                        _ => {}
                    }
                    if let Some(h) = installed {
                        if op < 4 {
                            want.push((h, out_text(c.start, "on_start")));
                        } else if op < 6 {
                            want.push((h, out_text(c.stop, "on_stop")));
                        }
                    }
                    let a = spawn_t(tc("A", c), Mb::B(1));
                    a.wait_for_startup().await;
                    let _ = a.stop_gracefully().await;
                    a.wait_for_shutdown().await;
                }
                let got: Vec<(&'static str, String)> = log().0.iter().filter(|e| e.who == "hook").map(|e| (e.what, e.s.clone())).collect();
                if got != want {
                    fail(format!("the error hooks heard {got:?} instead of {want:?}"));
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
}

pub fn scenarios() -> Vec<Scn> {
    vec![hook_replaced(), every_end("P09", 1, KILLS), every_end("P11", 1, ALL), every_end("P12", 0, ALL), every_end("P13", 0, ALL), every_end("P16", 1, ALL), every_end("P22", 0, ALL)]
}
