//! P06/P07: start-up with messages that are already there, messages the actor sends itself, waiters.
use crate::kit::*;

pub fn scenarios() -> Vec<Scn> {
    vec![
        // Messages queued before start-up, messages sent by the start-up hook to itself, messages of others meanwhile.
        scn("P06", "self-messages", 2, 3, "the start-up hook sends itself 0-2 messages (tell, try, ask without waiting, through a recipient); 0-2 messages are queued before start-up, others arrive during it; the mailbox may be full", || {
            static PLAN: std::sync::OnceLock<(usize, usize, usize)> = std::sync::OnceLock::new();
            prog(
                || async move {
                    let mb = [Mb::B(1), Mb::B(2), Mb::B(3), Mb::U][choose(4)];
                    let pre = choose(3);
                    let own = choose(3);
                    let how = choose(4);
                    let cont = choose(2);
                    let _ = PLAN.set((pre, own, how));
                    let p = PreparedActor::new(mb.make());
                    let a = p.actor_ref().clone();
                    let mut queued = 0;
                    for i in 0..pre {
                        if a.tell(m(1 + i as u32)).try_send().is_ok() {
                            queued += 1;
                            ev("A", "queued", 1 + i as i64, "");
                        }
                    }
                    let _ = queued;
                    let hook: HookFn = Arc::new(move |ar: ActorRef<T>| {
                        Box::pin(async move {
                            for i in 0..own {
                                let id = 11 + i as u32;
                                // the first own message fails if the actor continues after failures
                                let msg = if cont == 1 && i == 0 { m_panic(id) } else { m(id) };
                                let ok = match how {
                                    0 => ar.tell(msg).try_send().is_ok(),
                                    1 => ar.clone().recipient::<M>().tell(msg).try_send().is_ok(),
                                    2 => ar.ask(msg).try_enqueue().is_ok(),
                                    _ => {
                                        if i == 1 {
                                            yield_now().await;
                                        }
                                        ar.tell(msg).try_send().is_ok()
                                    }
                                };
                                if ok {
                                    ev("A", "own", id as i64, "");
                                }
                            }
                        })
                    });
                    mcrt::set_next_name("A");
                    p.spawn(tc("A", Cfg { start_hook: Some(hook), on_panic: if cont == 1 { PanicPolicy::Continue } else { PanicPolicy::Default }, ..Default::default() }));
                    let b = a.clone();
                    client("c", async move {
                        for id in [21u32, 22] {
                            if b.tell(m(id)).send().await.is_ok() {
                                ev("A", "other", id as i64, "");
                            }
                        }
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let begins = l.ns("A", "begin");
                    let own = l.ns("A", "own");
                    let mut rest = l.ns("A", "queued");
                    rest.extend([21, 22]);
                    let mut want = own.clone();
                    want.extend(rest);
                    if begins != want {
                        v.push(format!("order: the actor handled {begins:?} instead of {want:?}"));
                    }
                    let st = l.first("A", "started");
                    if l.first("A", "begin").is_some_and(|b| Some(b) < st) {
                        v.push("a message was handled before start-up finished".into());
                    }
                },
            )
        }),
        waiters(),
        stops(),
        keepers(),
        many_waits(),
    ]
}

/// P07: waiters of every kind are released when the start-up hook is over, whatever the actor does next.
fn waiters() -> Scn {
    scn("P07", "startup-waiters", 1, 2, "waiters of every kind (early, late, recipient, deprecated names, result form) with mailboxes filled before start-up by messages or a stop, a first handler that never ends, a kill during start-up, failing start-up", || {
        static PLAN: std::sync::OnceLock<Outcome> = std::sync::OnceLock::new();
        prog(
            || async move {
                let mb = [Mb::B(1), Mb::B(2), Mb::U][choose(3)];
                let start = [Outcome::Ok, Outcome::Err(7), Outcome::Panic][choose(3)];
                let yields = choose(2) as u8;
                // what is in the mailbox before the actor runs
                let fill = choose(4);
                let end = choose(3);
                let _ = PLAN.set(start);
                let p = PreparedActor::new(mb.make());
                let a = p.actor_ref().clone();
                match fill {
                    1 => {
                        // a handler that never ends
                        let _ = a.tell(m_do(1, |_| futures::future::pending())).try_send();
                    }
                    2 => {
                        for i in 0..3 {
                            let _ = a.tell(m(1 + i)).try_send();
                        }
                    }
                    3 => {
                        let _ = a.stop_gracefully().await;
                    }
                    _ => {}
                }
                for w in 0..5usize {
                    let a = a.clone();
                    let who = ["w0", "w1", "w2", "w3", "w4"][w];
                    client(who, async move {
                        let mut text = "released".to_string();
                        let res = |r: Result<(), TErr>| match r {
                            Ok(()) => "ok".to_string(),
                            Err(TErr(n)) => format!("TErr{n}"),
                        };
                        #[allow(deprecated)]
                        match w {
                            0 => a.wait_for_startup().await,
                            1 => a.wait_startup().await,
                            2 => a.clone().recipient::<M>().wait_for_startup().await,
                            // a panic cannot be expressed by the result form
                            3 if start != Outcome::Panic => text = res(a.wait_for_startup_result().await),
                            4 if start != Outcome::Panic => text = res(a.wait_startup_result().await),
                            _ => a.wait_for_startup().await,
                        }
                        ev_hb(who, "up", 0, text);
                        // again, and from a weak reference
                        let up = a.downgrade().upgrade().unwrap();
                        up.wait_for_startup().await;
                        ev_hb(who, "again", 0, "");
                    });
                }
                mcrt::set_next_name("A");
                p.spawn(tc("A", Cfg { start, start_yields: yields, ..Default::default() }));
                match end {
                    1 => {
                        client("k", async move {
                            kill(&a);
                            a.wait_for_shutdown().await;
                            a.wait_for_startup().await;
                            ev("k", "after", 0, "");
                        });
                    }
                    2 => {
                        client("k", async move {
                            a.wait_for_startup().await;
                            kill(&a);
                            a.wait_for_shutdown().await;
                            ev("k", "after", 0, "");
                        });
                    }
                    _ => {
                        // whatever else: end it so that the execution comes to rest
                        client("k", async move {
                            mcrt::settle();
                            ev("k", "last_resort", 0, "");
                            kill(&a);
                            a.wait_for_shutdown().await;
                            ev("k", "after", 0, "");
                        });
                    }
                }
            },
            |f, l, v| {
                all_done(f, v);
                let started = l.first("A", "started");
                for w in ["w0", "w1", "w2", "w3", "w4"] {
                    match l.first(w, "up") {
                        None => v.push(format!("{w} was never released")),
                        Some(p) => {
                            if started.map_or(true, |s| s > p) {
                                v.push(format!("{w} was released before the start-up hook finished"));
                            }
                            let want = match PLAN.get() {
                                Some(Outcome::Err(n)) => format!("TErr{n}"),
                                _ => "ok".into(),
                            };
                            if l.0[p].s != "released" && l.0[p].s != want {
                                v.push(format!("{w} got {} instead of {want}", l.0[p].s));
                            }
                        }
                    }
                }
                // they are released before the last resort kill of the idle actor: nothing else may be needed
                if let Some(k) = l.first("k", "last_resort") {
                    if ["w0", "w1", "w2", "w3", "w4"].iter().any(|w| l.first(w, "again").map_or(true, |p| p > k)) {
                        v.push("a waiter was still waiting when nothing else could happen".into());
                    }
                }
            },
        )
    })
    .post()
}

/// P07: however many wait, together or one after another.
fn many_waits() -> Scn {
    scn("P07", "startup-waits-many", 0, 0, "a hundred waiters at once, before and after start-up is over, some of which give up, and three hundred waits one after another", || {
        static START: std::sync::OnceLock<Outcome> = std::sync::OnceLock::new();
        prog(
            || async move {
                let start = [Outcome::Ok, Outcome::Err(7)][choose(2)];
                let give_up = choose(2) == 1;
                let _ = START.set(start);
                mcrt::calm(true);
                let p = PreparedActor::new(Mb::B(2).make());
                let a = p.actor_ref().clone();
                let wait = |k: usize| {
                    let a = a.clone();
                    async move {
                        match k % 2 {
                            0 => {
                                a.wait_for_startup().await;
                                true
                            }
                            _ => a.wait_for_startup_result().await == if let Outcome::Err(n) = start { Err(TErr(n)) } else { Ok(()) },
                        }
                    }
                };
                let early: Vec<_> = (0..100).map(|k| tokio::spawn(wait(k))).collect();
                mcrt::quiesce();
                if give_up {
                    for (i, h) in early.iter().enumerate() {
                        if i % 3 == 0 {
                            h.abort();
                        }
                    }
                    mcrt::quiesce();
                }
                ev("h", "go", early.iter().filter(|h| h.is_finished()).count() as i64, "");
                mcrt::calm(false);
                mcrt::set_next_name("A");
                p.spawn(tc("A", Cfg { start, start_yields: 1, ..Default::default() }));
                let late = futures::future::join_all((0..100).map(wait)).await;
                mcrt::settle();
                mcrt::calm(true);
                let mut right = late.into_iter().filter(|x| *x).count();
                for (i, h) in early.into_iter().enumerate() {
                    right += (h.await.unwrap_or(give_up && i % 3 == 0)) as usize;
                }
                for k in 0..300 {
                    right += wait(k).await as usize;
                }
                ev("h", "right", right as i64, "");
                kill(&a);
            },
            |f, l, v| {
                sane(f, v);
                no_panics(f, v);
                if l.0.iter().filter(|e| e.who == "h" && e.what == "right").map(|e| e.n).collect::<Vec<_>>() != [500] {
                    v.push("not all waits for start-up end with its result".into());
                }
            },
        )
    })
}

/// P08: stops through every form of reference, before start-up, from inside, with a full mailbox.
fn stops() -> Scn {
    scn("P08", "stop-forms", 2, 3, "a stop through a reference, a recipient, an upgraded weak reference, from a handler or the start-up hook, before start-up; a full mailbox makes it wait; messages before and after", || {
        static PLAN: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        prog(
            || async move {
                let form = choose(6);
                // from its own start-up hook, a full mailbox would never get room
                let mb = if form == 4 { Mb::U } else { [Mb::B(2), Mb::U][choose(2)] };
                let yields = choose(2) as u8;
                let _ = PLAN.set(form);
                let p = PreparedActor::new(mb.make());
                let a = p.actor_ref().clone();
                let hook: Option<HookFn> = if form == 4 {
                    Some(Arc::new(|me: ActorRef<T>| {
                        Box::pin(async move {
                            ev_hb("s", "stopreq", 0, "");
                            let r = me.stop_gracefully().await;
                            ev_hb("s", "stopped", 0, if r.is_ok() { "ok" } else { "err" });
                        })
                    }))
                } else {
                    None
                };
                if form == 5 {
                    a.tell(m(1)).send().await.unwrap();
                    ev_hb("c", "sent", 1, "ok");
                    ev_hb("s", "stopreq", 0, "");
                    let r = a.stop_gracefully().await;
                    ev_hb("s", "stopped", 0, if r.is_ok() { "ok" } else { "err" });
                }
                mcrt::set_next_name("A");
                p.spawn(tc("A", Cfg { start_yields: yields, start_hook: hook, ..Default::default() }));
                let b = a.clone();
                client("c", async move {
                    for i in 2..5u32 {
                        let msg = if i == 2 { m_yield(i, 1) } else { m(i) };
                        ev_hb("c", "send", i as i64, "");
                        let r = b.tell(msg).send().await;
                        ev_hb("c", "sent", i as i64, tell_text(&r));
                    }
                });
                if form < 4 {
                    let b = a.clone();
                    client("s", async move {
                        match form {
                            0 => {
                                ev_hb("s", "stopreq", 0, "");
                                let r = b.stop_gracefully().await;
                                ev_hb("s", "stopped", 0, if r.is_ok() { "ok" } else { "err" });
                            }
                            1 => {
                                let r = b.clone().recipient::<M>();
                                ev_hb("s", "stopreq", 0, "");
                                let r = r.stop_gracefully().await;
                                ev_hb("s", "stopped", 0, if r.is_ok() { "ok" } else { "err" });
                            }
                            2 => {
                                let r = b.downgrade().upgrade().unwrap();
                                ev_hb("s", "stopreq", 0, "");
                                let r = r.stop_gracefully().await;
                                ev_hb("s", "stopped", 0, if r.is_ok() { "ok" } else { "err" });
                            }
                            _ => {
                                // from a handler, in a task of its own: the own mailbox may be full
                                let _ = b
                                    .tell(m_do(9, |me| async move {
                                        client("s2", async move {
                                            ev_hb("s", "stopreq", 0, "");
                                            let r = me.stop_gracefully().await;
                                            ev_hb("s", "stopped", 0, if r.is_ok() { "ok" } else { "err" });
                                        });
                                        Ok(0)
                                    }))
                                    .send()
                                    .await;
                            }
                        }
                    });
                }
                // the reference is kept: only the stop ends the actor
                a.wait_for_shutdown().await;
                ev("root", "down", 0, "");
            },
            |f, l, v| {
                all_done(f, v);
                let (Some(req), Some(done)) = (l.first("s", "stopreq"), l.first("s", "stopped")) else {
                    v.push("the stop was never requested".into());
                    return;
                };
                if l.0[done].s != "ok" {
                    v.push("the stop request was refused although the actor was running".into());
                }
                let begins = l.ns("A", "begin");
                for e in l.0.iter().enumerate().filter(|(_, e)| e.who == "c" && e.what == "sent") {
                    let n = e.1.n;
                    let send = l.pos("c", "send", n);
                    if e.0 < req && e.1.s == "ok" && !begins.contains(&n) {
                        v.push(format!("message {n} was accepted before the stop request but never handled"));
                    }
                    if send.is_some_and(|s| s > done) && begins.contains(&n) {
                        v.push(format!("message {n} was handled although it was sent after the stop request"));
                    }
                }
                if l.ss("A", "stop") != ["Normal"] {
                    v.push(format!("the stop hook saw {:?}", l.ss("A", "stop")));
                }
                let _ = PLAN.get();
            },
        )
    })
}

/// P10: what keeps an actor running and what does not.
fn keepers() -> Scn {
    scn("P10", "keepers", 1, 2, "one thing at a time keeps the actor (a reference, a recipient, a queued message, a handler in progress, an attached stream, a reference inside another actor) while weak references and links do not", || {
        static PLAN: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        prog(
            || async move {
                let mb = [Mb::B(2), Mb::U][choose(2)];
                let k = choose(8);
                let extra = choose(3);
                let _ = PLAN.set(k);
                let a = spawn_t(t("A"), mb);
                let b = spawn_t(tc("B", Cfg { on_link: LinkPolicy::Continue, ..Default::default() }), Mb::U);
                // things that never count
                let (w, wr) = (a.downgrade(), a.clone().recipient::<M>().downgrade());
                if extra >= 1 {
                    a.link(&b).await;
                }
                if extra == 2 {
                    let w2 = w.clone();
                    client("weak", async move {
                        for _ in 0..2 {
                            yield_now().await;
                            let _ = w2.upgrade().map(|x| x.id());
                        }
                    });
                }
                let gate = Arc::new(tokio::sync::Semaphore::new(0));
                let g = gate.clone();
                let alive_before: bool = match k {
                    0 => {
                        let x = a.clone();
                        client("keep", async move {
                            let _ = g.acquire().await;
                            ev("keep", "release", 0, "");
                            drop(x);
                        });
                        true
                    }
                    1 => {
                        let x = a.clone().recipient::<M>();
                        client("keep", async move {
                            let _ = g.acquire().await;
                            ev("keep", "release", 0, "");
                            drop(x);
                        });
                        true
                    }
                    2 => {
                        // a handler in progress, with another message queued
                        a.tell(m_do(1, move |_| async move {
                            let _ = g.acquire().await;
                            ev("keep", "release", 0, "");
                            Ok(1)
                        }))
                        .send()
                        .await
                        .unwrap();
                        a.tell(m(2)).send().await.unwrap();
                        true
                    }
                    3 => {
                        // a stream that is not over
                        let (tx, rx) = futures::channel::mpsc::unbounded::<u32>();
                        let x = a.clone();
                        a.attach_stream(rx, (), ());
                        drop(x);
                        client("keep", async move {
                            let _ = g.acquire().await;
                            ev("keep", "release", 0, "");
                            drop(tx);
                        });
                        true
                    }
                    4 => {
                        // inside another actor's message
                        let x = a.clone();
                        b.tell(m_do(7, move |_| async move {
                            let _ = g.acquire().await;
                            ev("keep", "release", 0, "");
                            drop(x);
                            Ok(0)
                        }))
                        .send()
                        .await
                        .unwrap();
                        true
                    }
                    5 => {
                        // two references, one after the other
                        let (x, y) = (a.clone(), a.clone());
                        client("keep", async move {
                            drop(y);
                            let _ = g.acquire().await;
                            ev("keep", "release", 0, "");
                            drop(x);
                        });
                        true
                    }
                    6 => {
                        // a task started by a handler holds the actor's reference
                        a.tell(m_do(1, move |me| async move {
                            client("keep", async move {
                                let _ = g.acquire().await;
                                ev("keep", "release", 0, "");
                                drop(me);
                            });
                            Ok(1)
                        }))
                        .send()
                        .await
                        .unwrap();
                        true
                    }
                    _ => false,
                };
                ev("root", "drop", 0, "");
                drop(a);
                mcrt::settle();
                let stopped = log().countk("A", "stop") > 0;
                if alive_before && stopped {
                    fail("the actor stopped although something still refers to it");
                }
                if !alive_before && !stopped {
                    fail("the actor keeps running although nothing refers to it");
                }
                if alive_before {
                    if w.upgrade().is_none() || wr.upgrade().is_none() {
                        fail("a weak reference could not be upgraded although a strong one exists");
                    }
                    gate.add_permits(1);
                    mcrt::settle();
                }
                if w.upgrade().is_some() || wr.upgrade().is_some() {
                    fail("a weak reference was upgraded after the actor stopped");
                }
                let r = b.ask(m(60)).send().await;
                ev("B", "served", 0, res_text(&r));
            },
            |f, l, v| {
                all_done(f, v);
                if l.ss("A", "stop") != ["Normal"] {
                    v.push(format!("the stop hook saw {:?}", l.ss("A", "stop")));
                }
                let want: Vec<i64> = match PLAN.get() {
                    Some(2) => vec![1, 2],
                    Some(6) => vec![1],
                    _ => vec![],
                };
                if l.ns("A", "end").into_iter().filter(|n| *n < 1000).collect::<Vec<_>>() != want {
                    v.push(format!("the actor handled {:?} instead of {want:?} before it stopped", l.ns("A", "end")));
                }
            },
        )
    })
}

impl Message<kameo::message::StreamMessage<u32, (), ()>> for T {
    type Reply = ();
    async fn handle(&mut self, _m: kameo::message::StreamMessage<u32, (), ()>, _c: &mut Context<Self, ()>) {}
}
