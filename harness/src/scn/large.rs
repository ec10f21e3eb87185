//! Quantities: the same guarantees with many messages, links, workers, names, subscribers or waiters. The bounded
//! scenarios elsewhere explore every schedule of a few of each; here three fixed schedules
//! (tasks run on as long as they can, the newest goes first, they take turns) are run for every size in the list,
//! so that behaviour which begins at the n-th of something (a batch, a buffer, a budget) is inside the explored space.
use crate::kit::*;
use tokio::sync::Semaphore;
use tokio::time::{sleep, Instant};

const SIZES: [usize; 18] = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 129, 257, 520, 1100];
pub fn size() -> usize {
    SIZES[choose(SIZES.len())]
}
pub fn fixed_schedule() {
    mcrt::policy(choose(3));
    mcrt::calm(true);
}
/// for scenarios whose cost grows faster
pub fn few() -> usize {
    SIZES[choose(13)]
}
pub fn name(prefix: &str, i: usize) -> &'static str {
    Box::leak(format!("{prefix}{i}").into_boxed_str())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Drop,
    Stop,
    Kill,
}

/// Two clients send `n` messages each, in every form; then the actor ends.
fn bulk(prop: &'static str, nm: &'static str) -> Scn {
    scn(prop, nm, 0, 0, "two clients send up to 1,100 messages each (told, asked, enqueued, tried, with a timeout; every fifth fails and the failure hook continues) through bounded(1), bounded(64) and unbounded mailboxes, before or after start-up, to an actor that is then dropped, stopped or killed half-way", move || {
        prog(
            move || async move {
                fixed_schedule();
                let n = size();
                let mb = [Mb::B(64), Mb::B(1), Mb::U][choose(3)];
                let before = choose(2) == 1;
                // nothing is waited for until all is sent
                let flood = choose(2) == 1;
                let end = [End::Drop, End::Stop, End::Kill][choose(3)];
                let own = if mb == Mb::U && before { n.min(100) } else { 0 };
                ev("cfg", "own", own as i64, format!("{end:?}"));
                if let (Mb::B(k), true) = (mb, before) {
                    ev("cfg", "room", k as i64, "");
                }
                let hook: HookFn = Arc::new(move |a: ActorRef<T>| {
                    Box::pin(async move {
                        for i in 0..own {
                            a.tell(m(90_000 + i as u32)).send().await.unwrap();
                        }
                        if before {
                            sleep(Duration::from_secs(1)).await;
                        }
                    })
                });
                let (a, j) = spawn_tj(tc("T", Cfg { start_hook: Some(hook), on_panic: PanicPolicy::Continue, ..Default::default() }), mb);
                if !before {
                    a.wait_for_startup().await;
                    mcrt::settle();
                }
                let late = Duration::from_secs(100);
                let mut hs = vec![];
                let all = Arc::new(Semaphore::new(0));
                for c in 0..2u32 {
                    let a = a.clone();
                    let all = all.clone();
                    hs.push(client(["c0", "c1"][c as usize], async move {
                        let who = ["c0", "c1"][c as usize];
                        let mut pending = vec![];
                        for i in 0..n as u32 {
                            let id = 10_000 * (c + 1) + i;
                            let sent = |r: Result<(), String>| match r {
                                Ok(()) => ev(who, "ok", id as i64, ""),
                                Err(e) => ev(who, "no", id as i64, e),
                            };
                            let back = |r: Result<u32, SendError<M, TErr>>| match r {
                                Ok(x) => ev(who, "reply", id as i64, format!("{x}")),
                                Err(e) => ev(who, "reply", id as i64, err_text(&e)),
                            };
                            let kill_here = end == End::Kill && c == 0 && i as usize == n / 2;
                            if kill_here {
                                let m = m_do(id, move |me: ActorRef<T>| async move {
                                    ev("T", "killing", id as i64, "");
                                    kill(&me);
                                    yield_now().await;
                                    Ok(id + 1000)
                                });
                                sent(a.tell(m).send().await.map_err(|e| err_text(&e)));
                                continue;
                            }
                            match i % 6 {
                                0 if !flood => {
                                    let r = a.ask(m(id)).send().await;
                                    if !matches!(r, Err(SendError::ActorNotRunning(_))) {
                                        ev(who, "ok", id as i64, "");
                                    }
                                    back(r);
                                }
                                1 => sent(a.tell(m(id)).send().await.map_err(|e| err_text(&e))),
                                0 | 2 => match a.ask(m(id)).enqueue().await {
                                    Ok(p) => {
                                        ev(who, "ok", id as i64, "");
                                        pending.push((id, p));
                                    }
                                    Err(e) => ev(who, "no", id as i64, err_text(&e)),
                                },
                                3 => sent(a.tell(m(id)).try_send().map_err(|e| err_text(&e))),
                                4 => sent(a.tell(m(id)).mailbox_timeout(late).send().await.map_err(|e| err_text(&e))),
                                _ => sent(a.tell(m_err(id)).send().await.map_err(|e| err_text(&e))),
                            }
                        }
                        all.add_permits(1);
                        for (id, p) in pending {
                            match p.await {
                                Ok(x) => ev(who, "reply", id as i64, format!("{x}")),
                                Err(e) => ev(who, "reply", id as i64, err_text(&e)),
                            }
                        }
                    }));
                }
                let w = a.downgrade();
                if end != End::Drop {
                    let b = a.clone();
                    client("waiter", async move {
                        b.wait_for_shutdown().await;
                        ev("waiter", "back", 0, "");
                    });
                }
                match end {
                    End::Drop => drop(a),
                    End::Stop => {
                        let _ = all.acquire_many(2).await;
                        if let Err(e) = a.stop_gracefully().await {
                            fail(format!("stopping returned {e:?}"));
                        }
                        ev("cfg", "stopping", 0, "");
                        for i in 0..n.min(40) as u32 {
                            let _ = a.tell(m(80_000 + i)).send().await;
                        }
                        drop(a);
                    }
                    End::Kill => {
                        a.wait_for_shutdown().await;
                        drop(a);
                    }
                }
                for h in hs {
                    let _ = h.await;
                }
                match j.await {
                    Ok((s, r)) => ev("cfg", "end", s.seen.len() as i64, reason_text(&r)),
                    Err(_) => fail("the actor's task panicked"),
                }
                if w.upgrade().is_some() && end == End::Drop {
                    fail("an actor whose references are gone can still be upgraded to");
                }
            },
            move |f, l, v| {
                all_done(f, v);
                let own = l.ns("cfg", "own")[0];
                let end = l.ss("cfg", "own").concat();
                let begun = l.ns("T", "begin");
                let ended = l.ns("T", "end");
                let killed = end == "Kill";
                let order = |v: &mut Vec<String>| {
                    for base in [1, 2, 9] {
                        let b: Vec<i64> = begun.iter().copied().filter(|x| x / 10_000 == base).collect();
                        if b.windows(2).any(|w| w[0] >= w[1]) {
                            v.push(format!("the messages of one sender were handled in the order {b:?}"));
                        }
                    }
                };
                let exactly = |v: &mut Vec<String>| {
                    let mut ok: Vec<i64> = [l.ns("c0", "ok"), l.ns("c1", "ok")].concat();
                    ok.extend(90_000..90_000 + own);
                    let mut b: Vec<i64> = begun.iter().copied().filter(|x| x / 10_000 != 8).collect();
                    ok.sort();
                    b.sort();
                    if b.windows(2).any(|w| w[0] == w[1]) {
                        v.push(format!("a message was handled twice: {b:?}"));
                    }
                    if let Some(x) = b.iter().find(|x| ok.binary_search(x).is_err()) {
                        v.push(format!("message {x} was handled though its sender was told it was not sent"));
                    }
                    if !killed {
                        if let Some(x) = ok.iter().find(|x| b.binary_search(x).is_err()) {
                            v.push(format!("message {x} was accepted and not handled"));
                        }
                    }
                };
                match prop {
                    "P01" => {
                        order(v);
                        // the one that kills the actor is cancelled
                        if begun.iter().filter(|x| l.count("T", "killing", **x) == 0).ne(ended.iter()) {
                            v.push("handlers overlapped".into());
                        }
                    }
                    "P02" => exactly(v),
                    "P03" => {
                        for c in ["c0", "c1"] {
                            for e in l.0.iter().filter(|e| e.who == c && e.what == "reply") {
                                let own = format!("{}", e.n + 1000);
                                let was = l.count("T", "end", e.n) == 1;
                                let fine = if was { e.s == own } else { killed && (e.s == "Stopped" || e.s == "NotRunning") };
                                if !fine {
                                    v.push(format!("ask {} (handled: {was}) got {}", e.n, e.s));
                                }
                            }
                            let all = l.ns(c, "reply");
                            let waits = |x: i64| matches!((x % 10_000) % 6, 0 | 2) && l.count("T", "killing", x) == 0;
                            if let Some(x) = l.ns(c, "ok").into_iter().find(|x| !killed && waits(*x) && !all.contains(x)) {
                                v.push(format!("ask {x} was never answered"));
                            }
                        }
                    }
                    "P06" => {
                        let started = l.first("T", "started");
                        if l.0.iter().enumerate().any(|(i, e)| e.who == "T" && e.what == "begin" && Some(i) < started) {
                            v.push("a message was handled before start-up was complete".into());
                        }
                        let before_start = begun.iter().take_while(|x| **x >= 90_000).count() as i64;
                        if own > 0 && !killed && begun.iter().filter(|x| **x >= 90_000).count() as i64 != own {
                            v.push(format!("{before_start} of the {own} messages the start-up hook sent were handled"));
                        }
                        order(v);
                        exactly(v);
                        // start-up is over once what came before its end is out of the mailbox, not when that is empty
                        if let Some(k) = l.ns("cfg", "room").first() {
                            let first = l.first("T", "begin").unwrap_or(usize::MAX);
                            let sent = l.0.iter().take(first).filter(|e| e.what == "ok").count() as i64;
                            if sent > 2 * k + 6 {
                                v.push(format!("{sent} messages were taken into a mailbox for {k} before the first was handled"));
                            }
                        }
                    }
                    "P08" => {
                        if end == "Stop" {
                            exactly(v);
                            if begun.iter().any(|x| x / 10_000 == 8) {
                                v.push("a message sent after the stop was handled".into());
                            }
                            if l.ss("T", "stop") != vec!["Normal"] {
                                v.push(format!("on_stop was called with {:?}", l.ss("T", "stop")));
                            }
                        }
                    }
                    "P09" => {
                        if killed {
                            let k = l.first("T", "killing");
                            if l.0.iter().enumerate().any(|(i, e)| e.who == "T" && e.what == "begin" && k.is_some() && Some(i) > k) {
                                v.push("a message was handled after the kill".into());
                            }
                            if l.ss("T", "stop") != vec!["Killed"] || l.ss("cfg", "end") != vec!["Killed"] {
                                v.push(format!("on_stop was called with {:?}, the task ended with {:?}", l.ss("T", "stop"), l.ss("cfg", "end")));
                            }
                        }
                    }
                    "P10" => {
                        if end == "Drop" {
                            exactly(v);
                            if l.ss("T", "stop") != vec!["Normal"] || l.last("T", "end") > l.first("T", "stop") {
                                v.push(format!("the actor ended with {:?}", l.ss("T", "stop")));
                            }
                        }
                    }
                    "P12" => {
                        let failed: Vec<String> = ended.iter().filter(|x| (**x / 10_000 == 1 || **x / 10_000 == 2) && (**x % 10_000) % 6 == 5 && l.count("T", "killing", **x) == 0).map(|x| format!("TErr{x}")).collect();
                        if l.ss("T", "on_panic") != failed {
                            v.push(format!("the failure hook saw {:?}, the failing messages were {failed:?}", l.ss("T", "on_panic")));
                        }
                        if !killed {
                            exactly(v);
                        }
                    }
                    _ => {
                        // P16: reason and state
                        let want = if killed { "Killed" } else { "Normal" };
                        if l.ss("cfg", "end") != vec![want] || l.ns("cfg", "end") != vec![ended.len() as i64] {
                            v.push(format!("the actor ended {:?} having handled {:?} of {} messages", l.ss("cfg", "end"), l.ns("cfg", "end"), ended.len()));
                        }
                        if l.countk("waiter", "back") != (end != "Drop") as usize {
                            v.push("the waiter did not come back".into());
                        }
                    }
                }
            },
        )
    })
    .steps(400_000)
}

/// Every message waits for room (or for its reply) with its own deadline; nothing makes room.
fn deadlines() -> Scn {
    scn("P05", "large-deadlines", 0, 0, "up to 100 tells waiting for room and as many asks waiting for replies, each with its own deadline, to an actor that is busy until after half of them: each returns exactly at its deadline or when it is served, and nothing timed out is handled", || {
        prog(
            || async {
                fixed_schedule();
                let n = few();
                let a = spawn_t(t("T"), Mb::B(2));
                mcrt::settle();
                let gate = n as u64 / 2;
                // busy for gate + 1/2 seconds
                a.tell(m_do(1, move |_| async move {
                    sleep(Duration::from_millis(gate * 1000 + 500)).await;
                    Ok(0)
                }))
                .send()
                .await
                .unwrap();
                mcrt::quiesce();
                let t0 = Instant::now();
                let mut hs = vec![];
                for i in 0..n as u32 {
                    let a = a.clone();
                    let d = Duration::from_secs(i as u64 + 1);
                    hs.push(client(name("c", i as usize), async move {
                        let (what, at) = if i % 2 == 0 {
                            let r = a.tell(m(1000 + i)).mailbox_timeout(d).send().await;
                            (tell_text(&r), t0.elapsed())
                        } else {
                            let r = a.ask(m(1000 + i)).mailbox_timeout(d).reply_timeout(d).send().await;
                            (res_text(&r), t0.elapsed())
                        };
                        ev("c", "ret", i as i64, format!("{what} {}", at.as_millis()));
                    }));
                }
                for h in hs {
                    let _ = h.await;
                }
                ev("cfg", "n", n as i64, format!("{}", gate * 1000 + 500));
                drop(a);
            },
            |f, l, v| {
                all_done(f, v);
                let n = l.ns("cfg", "n")[0];
                let gate: u128 = l.ss("cfg", "n").concat().parse().unwrap();
                for i in 0..n {
                    let Some(e) = l.0.iter().find(|e| e.who == "c" && e.what == "ret" && e.n == i) else {
                        v.push(format!("request {i} never returned"));
                        continue;
                    };
                    let (what, at) = e.s.split_once(' ').unwrap();
                    let at: u128 = at.parse().unwrap();
                    let dl = (i as u128 + 1) * 1000;
                    let handled = l.count("T", "begin", 1000 + i);
                    let fine = match what {
                        // put into the mailbox at once: two fit
                        "ok" => handled == 1 && at <= dl && (at == gate || at == 0),
                        "Timeout+msg" => handled == 0 && at == dl && dl < gate,
                        "Timeout" => handled == 1 && at == dl && dl < gate && i % 2 == 1,
                        s if s == format!("ok{}", i + 2000) => handled == 1 && at == gate && dl > gate,
                        _ => false,
                    };
                    if !fine {
                        v.push(format!("request {i} with deadline {dl} ms returned {what} at {at} ms (busy until {gate} ms, handled {handled} times)"));
                    }
                }
            },
        )
    })
    .steps(400_000)
}

/// Every failed send gives its own message back.
fn failures() -> Scn {
    scn("P04", "large-failures", 0, 0, "up to 1,100 sends in every form to a full or ended actor: each reports the reason and returns its own message", || {
        prog(
            || async {
                fixed_schedule();
                let n = size();
                let full = choose(2) == 1;
                let a = spawn_t(t("T"), Mb::B(1));
                mcrt::settle();
                if full {
                    a.tell(m_do(1, |_| async {
                        sleep(Duration::from_secs(1000)).await;
                        Ok(0)
                    }))
                    .send()
                    .await
                    .unwrap();
                    mcrt::quiesce();
                    a.tell(m(2)).send().await.unwrap();
                } else {
                    a.stop_gracefully().await.unwrap();
                    a.wait_for_shutdown().await;
                }
                for i in 0..n as u32 {
                    let id = 1000 + i;
                    let d = Duration::from_secs(1);
                    let back: Result<M, String> = match i % 4 {
                        0 => match a.tell(m(id)).try_send() {
                            Err(SendError::MailboxFull(m)) if full => Ok(m),
                            Err(SendError::ActorNotRunning(m)) if !full => Ok(m),
                            r => Err(tell_text(&r)),
                        },
                        1 => match a.ask(m(id)).mailbox_timeout(d).send().await {
                            Err(SendError::Timeout(Some(m))) if full => Ok(m),
                            Err(SendError::ActorNotRunning(m)) if !full => Ok(m),
                            r => Err(res_text(&r)),
                        },
                        2 => match a.tell(m(id)).mailbox_timeout(d).send().await {
                            Err(SendError::Timeout(Some(m))) if full => Ok(m),
                            Err(SendError::ActorNotRunning(m)) if !full => Ok(m),
                            r => Err(tell_text(&r)),
                        },
                        _ => match a.ask(m(id)).try_send().await {
                            Err(SendError::MailboxFull(m)) if full => Ok(m),
                            Err(SendError::ActorNotRunning(m)) if !full => Ok(m),
                            r => Err(res_text(&r)),
                        },
                    };
                    match back {
                        Ok(m) if m.id == id => {}
                        Ok(m) => fail(format!("send {id} got message {} back", m.id)),
                        Err(e) => fail(format!("send {id} to {} actor returned {e}", if full { "a busy" } else { "an ended" })),
                    }
                }
                if log().countk("T", "begin") != full as usize {
                    fail("a message that was handed back was handled");
                }
                kill(&a);
            },
            |f, _l, v| all_done(f, v),
        )
    })
    .steps(400_000)
}

/// Many waiters on one start-up and one shutdown.
fn waiters(prop: &'static str, nm: &'static str) -> Scn {
    scn(prop, nm, 0, 0, "up to 1,100 tasks and references waiting for start-up and shutdown and their results of one actor that starts late (or fails to start) and ends in one of four ways; a second batch asks after the event", move || {
        prog(
            move || async move {
                fixed_schedule();
                let n = size();
                let bad = choose(2) == 1;
                let how = choose(4);
                let stop_err = choose(2) == 1;
                let slow: HookFn = Arc::new(|_| {
                    Box::pin(async {
                        sleep(Duration::from_secs(1)).await;
                    })
                });
                let a = spawn_t(
                    tc("T", Cfg { start: if bad { Outcome::Err(7) } else { Outcome::Ok }, start_hook: Some(slow), stop_yields: 2, stop: if stop_err { Outcome::Err(8) } else { Outcome::Ok }, ..Default::default() }),
                    Mb::U,
                );
                ev("cfg", "n", n as i64, if bad { "Err(TErr(7))" } else { "Ok(())" });
                ev("cfg", "stop", 0, if stop_err { "Err(TErr(8))" } else { "Ok(())" });
                let mut hs = vec![];
                let start = |tag: &'static str, k: usize, a: &ActorRef<T>, hs: &mut Vec<tokio::task::JoinHandle<()>>| {
                    for i in 0..k {
                        let a = a.clone();
                        hs.push(client(name(tag, i), async move {
                            match i % 4 {
                                0 => {
                                    a.wait_for_startup().await;
                                    ev(tag, "up", i as i64, "");
                                }
                                1 => {
                                    let r = a.wait_for_startup_result().await;
                                    ev(tag, "up", i as i64, format!("{r:?}"));
                                }
                                2 => {
                                    a.wait_for_shutdown().await;
                                    ev(tag, "down", i as i64, "");
                                }
                                _ => {
                                    let r = a.wait_for_shutdown_result().await;
                                    ev(tag, "down", i as i64, format!("{r:?}"));
                                }
                            }
                        }));
                    }
                };
                start("w", n, &a, &mut hs);
                mcrt::settle();
                start("x", n.min(40), &a, &mut hs);
                mcrt::quiesce();
                if !bad {
                    ev("cfg", "ending", 0, "");
                    match how {
                        0 => {
                            let _ = a.stop_gracefully().await;
                        }
                        1 => kill(&a),
                        2 => {
                            let _ = a.tell(m_panic(90)).send().await;
                        }
                        _ => {
                            let _ = a.tell(m_err(91)).send().await;
                        }
                    }
                }
                for h in hs {
                    let _ = h.await;
                }
                let mut hs = vec![];
                start("y", n.min(40), &a, &mut hs);
                for h in hs {
                    let _ = h.await;
                }
            },
            move |f, l, v| {
                all_done(f, v);
                let n = l.ns("cfg", "n")[0] as usize;
                let bad = l.ss("cfg", "n").concat() != "Ok(())";
                let want = if prop == "P07" { l.ss("cfg", "n").concat() } else { l.ss("cfg", "stop").concat() };
                let what = if prop == "P07" { "up" } else { "down" };
                let class = if prop == "P07" { 0 } else { 2 };
                for (tag, k) in [("w", n), ("x", n.min(40)), ("y", n.min(40))] {
                    let exp = (0..k).filter(|i| i % 4 == class || i % 4 == class + 1).count();
                    let got = l.countk(tag, what);
                    if got != exp {
                        v.push(format!("{got} of {exp} waiters came back"));
                    }
                    if prop == "P11" && bad {
                        continue;
                    }
                    for e in l.0.iter().filter(|e| e.who == tag && e.what == what && e.n % 2 == 1) {
                        if e.s != want {
                            v.push(format!("waiter {} was told {} instead of {want}", e.n, e.s));
                        }
                    }
                }
                let mark = if prop == "P07" { l.first("T", "started") } else { l.first("T", "stopped") };
                if l.0.iter().enumerate().any(|(i, e)| ["w", "x", "y"].contains(&e.who.as_str()) && e.what == what && Some(i) < mark) {
                    v.push("a waiter came back too early".into());
                }
            },
        )
    })
    .steps(400_000)
}

/// A hub linked with many leaves.
fn star(prop: &'static str, nm: &'static str) -> Scn {
    scn(prop, nm, 0, 0, "a hub linked with up to 257 leaves (from either side), every third unlinked again; the hub dies, or every leaf does, in turn or at once: each linked side hears of each death once", move || {
        prog(
            move || async move {
                fixed_schedule();
                let n = SIZES[choose(16)];
                let hub_dies = choose(2) == 1;
                let mb = [Mb::B(2), Mb::U][choose(2)];
                let at_once = choose(2) == 1;
                ev("cfg", "n", n as i64, if hub_dies { "hub" } else { "leaves" });
                let cont = |nm| tc(nm, Cfg { on_link: LinkPolicy::Continue, ..Default::default() });
                let hub = spawn_t(cont("H"), mb);
                let leaves: Vec<ActorRef<T>> = (0..n).map(|i| spawn_t(cont(name("L", i)), mb)).collect();
                for (i, x) in leaves.iter().enumerate() {
                    if i % 2 == 0 { hub.link(x).await } else { x.link(&hub).await }
                }
                for (i, x) in leaves.iter().enumerate().filter(|(i, _)| i % 3 == 2) {
                    if i % 4 < 2 { hub.unlink(x).await } else { x.unlink(&hub).await }
                }
                if hub_dies {
                    kill(&hub);
                    hub.wait_for_shutdown().await;
                } else {
                    for (i, x) in leaves.iter().enumerate() {
                        match i % 3 {
                            0 => kill(x),
                            1 => {
                                let _ = x.tell(m_panic(90)).send().await;
                            }
                            _ => {
                                let _ = x.stop_gracefully().await;
                            }
                        }
                        if !at_once {
                            x.wait_for_shutdown().await;
                        }
                    }
                    for x in &leaves {
                        x.wait_for_shutdown().await;
                    }
                }
                mcrt::settle();
                let r = if hub_dies { Ok(1001) } else { hub.ask(m(1)).send().await };
                if !matches!(r, Ok(1001)) {
                    fail(format!("the hub answered {}", crate::kit::res_text(&r)));
                }
                if hub_dies {
                    for x in &leaves {
                        let r = x.ask(m(1)).send().await;
                        if !matches!(r, Ok(1001)) {
                            fail(format!("a leaf answered {}", crate::kit::res_text(&r)));
                        }
                    }
                }
            },
            move |f, l, v| {
                all_done(f, v);
                let n = l.ns("cfg", "n")[0] as usize;
                if l.ss("cfg", "n").concat() == "hub" {
                    for i in 0..n {
                        let got = l.ss(name("L", i), "link_died");
                        let want: Vec<&str> = if i % 3 == 2 { vec![] } else { vec!["H Killed"] };
                        if got != want {
                            v.push(format!("leaf {i} heard {got:?}"));
                        }
                    }
                } else {
                    let mut got = l.ss("H", "link_died");
                    let mut want: Vec<String> = (0..n)
                        .filter(|i| i % 3 != 2)
                        .map(|i| format!("L{i} {}", ["Killed", "Panicked:str:handler 90 panics"][i % 3]))
                        .collect();
                    got.sort();
                    want.sort();
                    if got != want {
                        v.push(format!("the hub heard of {} deaths instead of {}: {got:?}", got.len(), want.len()));
                    }
                }
            },
        )
    })
    .steps(400_000)
}

/// A chain of actors with the default link hook.
fn chain() -> Scn {
    scn("P14", "large-chain", 0, 0, "a chain of up to 65 linked actors with default hooks, whose end (or middle) dies abnormally or normally: all of them die and the nested reason leads back to the first, or none does", || {
        prog(
            || async {
                fixed_schedule();
                let n = few().max(2);
                let n = n.min(65);
                let abnormal = choose(2) == 1;
                let victim = [0, n / 2][choose(2)];
                let xs: Vec<(ActorRef<T>, _)> = (0..n).map(|i| spawn_tj(t(name("K", i)), Mb::U)).collect();
                for w in xs.windows(2) {
                    w[0].0.link(&w[1].0).await;
                }
                mcrt::settle();
                if abnormal { kill(&xs[victim].0) } else { xs[victim].0.stop_gracefully().await.unwrap() }
                mcrt::settle();
                ev("cfg", "n", n as i64, if abnormal { "abnormal" } else { "normal" });
                ev("cfg", "victim", victim as i64, "");
                for (i, (a, j)) in xs.into_iter().enumerate() {
                    let alive = a.is_alive();
                    ev("alive", "is", i as i64, if alive { "yes" } else { "no" });
                    drop(a);
                    let (_, r) = j.await.unwrap();
                    ev("end", "r", i as i64, reason_text(&r));
                }
            },
            |f, l, v| {
                all_done(f, v);
                let n = l.ns("cfg", "n")[0] as usize;
                let victim = l.ns("cfg", "victim")[0] as usize;
                let abnormal = l.ss("cfg", "n").concat() == "abnormal";
                let (al, rs) = (l.ss("alive", "is"), l.ss("end", "r"));
                for i in 0..n {
                    let dead = abnormal || i == victim;
                    let mut want = if abnormal { "Killed".to_string() } else { "Normal".to_string() };
                    if abnormal {
                        let mut k = victim;
                        while k != i {
                            want = format!("LinkDied:K{k}:{want}");
                            if i > k { k += 1 } else { k -= 1 }
                        }
                    }
                    if (al[i] == "no") != dead || rs[i] != want {
                        v.push(format!("actor {i} of {n} is alive: {}, ended {} instead of {want}", al[i], rs[i]));
                    }
                }
            },
        )
    })
    .steps(400_000)
}

/// Identifiers.
fn idents() -> Scn {
    scn("P17", "large-idents", 0, 0, "up to 1,000 identifiers made by preparing, spawning and generating, over threads: all different, and each compares, hashes, prints and reads back as itself", || {
        prog(
            || async {
                fixed_schedule();
                let n = [10usize, 100, 300, 1000][choose(4)];
                let mut ids: Vec<ActorID> = vec![];
                let mut keep = vec![];
                for i in 0..n {
                    match i % 10 {
                        0 => {
                            let a = spawn_t(t(name("A", i)), Mb::U);
                            ids.push(a.id());
                            keep.push(a);
                        }
                        1 => ids.push(PreparedActor::<DefaultHooks>::new(mailbox::bounded(1)).actor_ref().id()),
                        _ => ids.push(ActorID::generate()),
                    }
                }
                let set: std::collections::HashSet<ActorID> = ids.iter().copied().collect();
                let texts: std::collections::HashSet<String> = ids.iter().map(|i| i.to_string()).collect();
                if set.len() != n || texts.len() != n {
                    fail(format!("{n} identifiers: {} different, {} as text", set.len(), texts.len()));
                }
                for i in &ids {
                    if ActorID::from_bytes(&i.to_bytes()).ok() != Some(*i) {
                        fail(format!("{i} does not survive its byte form"));
                    }
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
    .steps(400_000)
}

/// Many failing actors.
fn hooks() -> Scn {
    scn("P22", "large-hook", 0, 0, "up to 257 actors of which two in three fail to start or to stop: the error hook hears of each once", || {
        prog(
            || async {
                fixed_schedule();
                let n = SIZES[choose(16)];
                ev("cfg", "n", n as i64, "");
                set_actor_error_hook(|e| ev("hook", "heard", 0, perr_text(e)));
                let mut hs = vec![];
                for i in 0..n {
                    let (start, stop) = match i % 3 {
                        0 => (Outcome::Err(1000 + i as u32), Outcome::Ok),
                        1 => (Outcome::Ok, Outcome::Err(1000 + i as u32)),
                        _ => (Outcome::Ok, Outcome::Ok),
                    };
                    let (a, j) = spawn_tj(tc(name("A", i), Cfg { start, stop, ..Default::default() }), Mb::U);
                    if i % 2 == 0 {
                        let _ = a.stop_gracefully().await;
                    }
                    hs.push((a, j));
                }
                mcrt::settle();
                for (a, j) in hs {
                    drop(a);
                    let _ = j.await;
                }
            },
            |f, l, v| {
                all_done(f, v);
                let n = l.ns("cfg", "n")[0] as usize;
                let mut got = l.ss("hook", "heard");
                let mut want: Vec<String> = (0..n).filter(|i| i % 3 != 2).map(|i| format!("TErr{}", 1000 + i)).collect();
                got.sort();
                want.sort();
                if got != want {
                    v.push(format!("the error hook heard {got:?} instead of {want:?}"));
                }
            },
        )
    })
    .steps(400_000)
}

pub fn scenarios() -> Vec<Scn> {
    vec![
        bulk("P01", "large-order"),
        bulk("P02", "large-once"),
        bulk("P03", "large-replies"),
        bulk("P06", "large-start"),
        bulk("P08", "large-stop"),
        bulk("P09", "large-kill"),
        bulk("P10", "large-drain"),
        bulk("P12", "large-failing"),
        bulk("P16", "large-end"),
        deadlines(),
        failures(),
        waiters("P07", "large-startup-waiters"),
        waiters("P11", "large-shutdown-waiters"),
        star("P13", "large-star"),
        star("P15", "large-star-rest"),
        chain(),
        idents(),
        hooks(),
    ]
}
