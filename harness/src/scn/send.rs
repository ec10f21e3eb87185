//! P04, P05, P18, P19: results of sends, timeouts, forwarding, streams.
use crate::kit::*;
use crate::vars::*;
use futures::StreamExt;
use kameo::message::StreamMessage;

fn mb_any() -> Mb {
    [Mb::B(1), Mb::B(2), Mb::U][choose(3)]
}
fn mb_b1u() -> Mb {
    [Mb::B(1), Mb::U][choose(2)]
}
/// Runs `f` on a blocking thread when the variant blocks.
fn go(v: V, name: &str, a: ActorRef<T>, id: u32, msg: impl FnOnce() -> M + Send + 'static, timeout: Duration) {
    let who = name.to_string();
    if v.blocking() {
        client_blocking(name, move || {
            ev(&who, "call", id as i64, format!("{v:?}"));
            let r = mcrt::block_on(send_v(v, &a, msg(), timeout));
            ev(&who, "ret", id as i64, r);
        });
    } else {
        client(name, async move {
            ev(&who, "call", id as i64, format!("{v:?}"));
            let r = send_v(v, &a, msg(), timeout).await;
            ev(&who, "ret", id as i64, r);
        });
    }
}

static CHOSEN: Mutex<Vec<V>> = Mutex::new(Vec::new());
fn choose_v() -> V {
    let v = ALL[choose(ALL.len())];
    CHOSEN.lock().unwrap().push(v);
    v
}

pub fn scenarios() -> Vec<Scn> {
    let mut v = vec![
        scn("P04", "dead-target", 1, 3, "every way to send to an actor that has stopped, or whose mailbox never ran", || {
            prog(
                || async {
                    let mb = mb_any();
                    let never = choose(2) == 1;
                    let a = if never {
                        let p = PreparedActor::new(mb.make());
                        let a = p.actor_ref().clone();
                        std::mem::drop(p);
                        a
                    } else {
                        let (a, j) = spawn_tj(t("A"), mb);
                        if choose(2) == 0 {
                            a.stop_gracefully().await.unwrap();
                        } else {
                            kill(&a);
                        }
                        let _ = j.await;
                        a
                    };
                    ev("A", "alive", a.is_alive() as i64, "");
                    let r = a.stop_gracefully().await;
                    ev("root", "stop", 0, tell_text(&r));
                    kill(&a);
                    go(choose_v(), "c", a, 10, || m(10), LONG);
                },
                |f, l, v| {
                    all_done(f, v);
                    let k = CHOSEN.lock().unwrap()[0];
                    let r = l.ss("c", "ret");
                    if r != vec![k.fail_text("NotRunning", 10)] {
                        v.push(format!("{k:?} to a dead actor: {r:?}"));
                    }
                    if l.ns("A", "alive") != vec![0] {
                        v.push("a dead actor reports that it is alive".into());
                    }
                    if l.ss("root", "stop") != vec!["NotRunning"] {
                        v.push(format!("stop_gracefully on a dead actor: {:?}", l.ss("root", "stop")));
                    }
                    if l.countk("A", "begin") > 0 {
                        v.push("a dead actor handled a message".into());
                    }
                },
            )
        }),
        scn("P04", "full-target", 1, 3, "every way to send to an actor whose bounded mailbox is full and that starts running later", || {
            prog(
                || async {
                    let n = 1 + choose(2);
                    let p = PreparedActor::new(Mb::B(n).make());
                    let a = p.actor_ref().clone();
                    for i in 0..n as u32 {
                        a.tell(m(1 + i)).try_send().unwrap();
                    }
                    let k = choose_v();
                    go(k, "c", a.clone(), 10, || m(10), LONG);
                    mcrt::quiesce();
                    ev("root", "run", 0, "");
                    name_id(a.id(), "A");
                    mcrt::set_next_name("A");
                    p.spawn(t("A"));
                },
                |f, l, v| {
                    all_done(f, v);
                    let k = CHOSEN.lock().unwrap()[0];
                    let r = l.ss("c", "ret");
                    let h = l.count("A", "begin", 10);
                    if k.is_try() {
                        if r != vec![k.fail_text("Full", 10)] || h != 0 {
                            v.push(format!("{k:?} to a full mailbox: {r:?}, handled {h} times"));
                        }
                    } else {
                        let want = if k.is_ask() { "ok1010".to_string() } else { "ok".into() };
                        // the clock may reach a long mailbox timeout before the actor runs
                        let late = r == vec![k.fail_text("Timeout", 10)] && h == 0 && format!("{k:?}").contains("Timeout");
                        if !late && (r != vec![want] || h != 1) {
                            v.push(format!("{k:?} waiting for room: {r:?}, handled {h} times"));
                        }
                        if !late && l.first("c", "ret") < l.first("root", "run") {
                            v.push(format!("{k:?} did not wait for room"));
                        }
                    }
                    if l.count("A", "begin", 1) != 1 {
                        v.push("the queued message was not handled once".into());
                    }
                },
            )
        }),
        scn("P04", "dying-target", 2, 4, "every way to send, racing with the stop or kill of the target (mailbox free or full)", || {
            prog(
                || async {
                    let a = spawn_t(t("A"), mb_b1u());
                    if choose(2) == 1 {
                        a.tell(m_yield(1, 1)).send().await.unwrap();
                    }
                    go(choose_v(), "c", a.clone(), 10, || m(10), LONG);
                    let how = choose(2);
                    client("killer", async move {
                        if how == 0 {
                            kill(&a)
                        } else {
                            let _ = a.stop_gracefully().await;
                        }
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let k = CHOSEN.lock().unwrap()[0];
                    let r = l.ss("c", "ret").concat();
                    let (b, e) = (l.count("A", "begin", 10), l.count("A", "end", 10));
                    let ok = match r.as_str() {
                        "ok" => !k.is_ask() && b <= 1,
                        "ok1010" => k.is_ask() && e == 1,
                        "Stopped" => k.is_ask() && e == 0,
                        x if x == k.fail_text("NotRunning", 10) => b == 0,
                        // the clock may reach a long mailbox timeout
                        x if x == k.fail_text("Timeout", 10) && format!("{k:?}").contains("Timeout") => b == 0,
                        x if x == k.fail_text("Full", 10) => b == 0 && k.is_try(),
                        _ => false,
                    };
                    if !ok {
                        v.push(format!("{k:?} returned {r} (begun {b}, finished {e})"));
                    }
                },
            )
        }),
        scn("P03", "every-ask-race", 2, 4, "every kind of ask against an actor that is stopped, killed, fails or panics around it", || {
            prog(
                || async {
                    let a = spawn_t(t("A"), mb_b1u());
                    let asks: Vec<V> = ALL.iter().copied().filter(|v| v.is_ask()).collect();
                    let k = asks[choose(asks.len())];
                    CHOSEN.lock().unwrap().push(k);
                    let kind = choose(4);
                    go(k, "c", a.clone(), 10, move || match kind {
                        0 => m(10),
                        1 => m_yield(10, 1),
                        2 => m_err(10),
                        _ => m_panic_late(10),
                    }, LONG);
                    let end = choose(3);
                    client("killer", async move {
                        match end {
                            0 => kill(&a),
                            1 => {
                                let _ = a.stop_gracefully().await;
                            }
                            _ => {
                                let _ = a.tell(m_panic(5)).send().await;
                            }
                        }
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let k = CHOSEN.lock().unwrap()[0];
                    let r = l.ss("c", "ret").concat();
                    let (b, e) = (l.count("A", "begin", 10), l.count("A", "end", 10));
                    let ok = match r.as_str() {
                        "ok1010" => e == 1,
                        "handler:TErr(10)" => e == 1,
                        "Stopped" => e == 0,
                        x if x == k.fail_text("NotRunning", 10) => b == 0,
                        // the clock may reach a long mailbox timeout
                        x if x == k.fail_text("Timeout", 10) && format!("{k:?}").contains("Timeout") => b == 0,
                        x if x == k.fail_text("Full", 10) => b == 0 && k.is_try(),
                        _ => false,
                    };
                    if !ok {
                        v.push(format!("{k:?} returned {r} (begun {b}, finished {e})"));
                    }
                },
            )
        }),
        scn("P03", "ask-vs-channel-close", 3, 6, "an ask or tell published while the mailbox is being closed (two-step channel send), with queued messages", || {
            prog(
                || async {
                    let a = spawn_t(t("A"), mb_b1u());
                    let b = a.clone();
                    client("c", async move {
                        let r = b.ask(m(10)).send().await;
                        ev("c", "ret", 10, res_text(&r));
                    });
                    let how = choose(2);
                    client("killer", async move {
                        if how == 0 {
                            kill(&a)
                        } else {
                            let _ = a.stop_gracefully().await;
                        }
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let r = l.ss("c", "ret").concat();
                    let e = l.count("A", "end", 10);
                    if !(matches!(r.as_str(), "ok1010") && e == 1 || matches!(r.as_str(), "Stopped" | "NotRunning") && e == 0) {
                        v.push(format!("ask returned {r}, handler finished {e} times"));
                    }
                    if l.count("A", "begin", 10) + l.count("msg", "dropped", 10) != 1 {
                        v.push("the message was neither handled nor destroyed".into());
                    }
                },
            )
        })
        .split(),
        scn("P03", "ask-vs-never-spawned", 3, 6, "an ask or tell published while its target, prepared but never spawned, is dropped (two-step channel send), with queued messages", || {
            prog(
                || async {
                    let p = PreparedActor::new(mb_b1u().make());
                    let b = p.actor_ref().clone();
                    name_id(b.id(), "A");
                    client("c", async move {
                        let r = b.ask(m(10)).send().await;
                        ev("c", "ret", 10, res_text(&r));
                    });
                    client("dropper", async move {
                        std::mem::drop::<PreparedActor<T>>(p);
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let r = l.ss("c", "ret").concat();
                    if !matches!(r.as_str(), "Stopped" | "NotRunning") {
                        v.push(format!("ask returned {r}"));
                    }
                    if l.count("msg", "dropped", 10) != 1 {
                        v.push("the message was not destroyed".into());
                    }
                },
            )
        })
        .split(),
    ];
    v.push(startup_forms());
    v.push(cancelled("P02", "sends-cancelled"));
    v.push(cancelled("P03", "asks-cancelled"));
    v.extend(timeouts());
    v.extend(forwards());
    v.extend(streams());
    v
}

/// Senders whose tasks are aborted, at whatever point they have got to.
fn cancelled(prop: &'static str, name: &'static str) -> Scn {
    let asks = prop == "P03";
    scn(prop, name, 1, 3, "a sender's task is aborted at any point of its send, or of its wait for a reply, beside another sender: the message is handled once or destroyed, the other one's is handled, and the mailbox keeps its whole capacity", move || {
        prog(
            move || async move {
                let mb = mb_any();
                let vs: &[V] = if asks { &[V::Ask, V::AskTimeout, V::Enqueue, V::EnqueueTimeout] } else { &[V::Tell, V::TellTimeout, V::RTell, V::RTellTimeout, V::Enqueue, V::Ask] };
                let (k, k2) = (vs[choose(vs.len())], [V::Ask, V::Tell, V::TellTimeout][choose(3)]);
                let kind = if asks { choose(4) } else { choose(2) };
                let a = spawn_t(tc("A", Cfg { on_panic: PanicPolicy::Continue, ..Default::default() }), mb);
                mcrt::settle();
                ev("cfg", "case", 0, format!("{mb:?} {k:?} {k2:?} {kind}"));
                a.tell(m_yield(1, 1)).try_send().unwrap();
                let msg = move || match kind {
                    0 => m(10),
                    1 => m_yield(10, 1),
                    2 => m_do(10, |_| async move {
                        yield_now().await;
                        Err(TErr(10))
                    }),
                    _ => m_panic_late(10),
                };
                let b = a.clone();
                let h = tokio::spawn(async move {
                    let msg = msg();
                    ev_hb("c", "call", 10, "");
                    let r = if let V::Enqueue | V::EnqueueTimeout = k {
                        let ask = b.ask(msg);
                        let p = if k == V::Enqueue { ask.enqueue().await } else { ask.mailbox_timeout(LONG).enqueue().await };
                        ev_hb("c", "accepted", 10, "");
                        res_text(&p.unwrap().await)
                    } else {
                        send_v(k, &b, msg, LONG).await
                    };
                    ev_hb("c", "ret", 10, r);
                });
                let b = a.clone();
                client("d", async move {
                    let r = send_v(k2, &b, m(20), LONG).await;
                    ev_hb("d", "ret", 20, r);
                });
                client("x", async move { h.abort() });
                mcrt::settle();
                // the mailbox has all of its room
                let gate = Arc::new(tokio::sync::Notify::new());
                let g = gate.clone();
                a.tell(m_do(30, move |_| async move {
                    g.notified().await;
                    Ok(1030)
                }))
                .try_send()
                .unwrap();
                mcrt::settle();
                let cap = match mb {
                    Mb::B(n) => n as u32,
                    _ => 3,
                };
                for i in 0..cap {
                    ev("root", "fill", i as i64, if a.tell(m(40 + i)).try_send().is_ok() { "ok" } else { "failed" });
                }
                if let Mb::B(_) = mb {
                    ev("root", "over", 0, if a.tell(m(50)).try_send().is_ok() { "ok" } else { "full" });
                }
                gate.notify_one();
                let r = a.ask(m(60)).send().await;
                ev("root", "last", 0, res_text(&r));
                kill(&a);
            },
            |f, l, v| {
                all_done(f, v);
                let cfg = l.ss("cfg", "case").concat();
                let (b, d) = (l.count("A", "begin", 10), l.count("msg", "dropped", 10));
                if b + d != l.countk("c", "call") {
                    v.push(format!("[{cfg}] the aborted sender's message was handled {b} times and destroyed unhandled {d} times"));
                }
                let rets = l.ss("c", "ret");
                let accepted = l.countk("c", "accepted") > 0 || rets.iter().any(|r| matches!(r.as_str(), "ok" | "ok1010"));
                if accepted && b != 1 {
                    v.push(format!("[{cfg}] the message was accepted ({rets:?}) and not handled"));
                }
                if rets.iter().any(|r| !matches!(r.as_str(), "ok" | "ok1010" | "handler:TErr(10)" | "Stopped")) {
                    v.push(format!("[{cfg}] a send returned {rets:?}"));
                }
                let want = if cfg.contains("Ask") && cfg.split(' ').nth(2) == Some("Ask") { "ok1020" } else { "ok" };
                if l.ss("d", "ret") != [want] || l.count("A", "end", 20) != 1 {
                    v.push(format!("[{cfg}] the other sender got {:?}, its message was handled {} times", l.ss("d", "ret"), l.count("A", "end", 20)));
                }
                if l.ss("root", "fill").iter().any(|r| r != "ok") || l.ss("root", "over").iter().any(|r| r != "full") {
                    v.push(format!("[{cfg}] the mailbox does not hold as many messages as before: {:?} {:?}", l.ss("root", "fill"), l.ss("root", "over")));
                }
                if l.ss("root", "last") != ["ok1060"] {
                    v.push(format!("[{cfg}] the actor is disturbed: {:?}", l.ss("root", "last")));
                }
            },
        )
    })
    .lazy()
}

// ---------------------------------------------------------------- P05

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn now() -> i64 {
    (mcrt::now_nanos() / 1_000_000) as i64
}

fn timeouts() -> Vec<Scn> {
    vec![
        scn("P05", "reply-timeout", 2, 4, "asks (send, try, enqueue, try-enqueue) with reply timeouts shorter than, equal to and longer than the handler, which succeeds, fails or panics late", || {
            prog(
                || async {
                    let (a, _j) = spawn_tj(tc("A", Cfg { on_panic: PanicPolicy::Continue, ..Default::default() }), if choose(2) == 0 { Mb::B(2) } else { Mb::U });
                    mcrt::settle();
                    let work = [0u64, 5, 10, 15][choose(4)];
                    let kind = choose(3);
                    let how = choose(4);
                    ev("cfg", "work", work as i64, "");
                    let b = a.clone();
                    client("c", async move {
                        let msg = m_do(10, move |_| async move {
                            if work > 0 {
                                tokio::time::sleep(ms(work)).await;
                            }
                            match kind {
                                0 => Ok(1010),
                                1 => Err(TErr(10)),
                                _ => panic!("late"),
                            }
                        });
                        ev("c", "t0", now(), "");
                        let r = match how {
                            0 => b.ask(msg).reply_timeout(ms(10)).send().await,
                            1 => b.ask(msg).reply_timeout(ms(10)).try_send().await,
                            2 => b.ask(msg).reply_timeout(ms(10)).enqueue().await.unwrap().await,
                            _ => b.ask(msg).reply_timeout(ms(10)).try_enqueue().unwrap().await,
                        };
                        ev("c", "t1", now(), "");
                        ev("c", "ret", 10, res_text(&r));
                    });
                    client("d", async move {
                        // waits for the first message to be over, then checks that the actor is undisturbed
                        yield_now().await;
                        tokio::time::sleep(ms(1)).await;
                        let r = a.ask(m_do(20, |_| async move {
                            ev("A", "second", now(), "");
                            Ok(1020)
                        })).send().await;
                        ev("d", "ret", 20, res_text(&r));
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let r = l.ss("c", "ret").concat();
                    let (t0, t1) = (l.ns("c", "t0")[0], l.ns("c", "t1").first().copied().unwrap_or(-1));
                    let ok = match r.as_str() {
                        "Timeout" => t1 >= t0 + 10,
                        "ok1010" | "handler:TErr(10)" => l.count("A", "end", 10) == 1,
                        "Stopped" => l.count("A", "panicked", 10) == 1,
                        _ => false,
                    };
                    if !ok {
                        v.push(format!("ask with a 10 ms reply timeout returned {r} after {} ms", t1 - t0));
                    }
                    // the reply was sent for sure before the second message began
                    let second = l.ns("A", "second").first().copied().unwrap_or(0);
                    if r == "Timeout" && l.first("A", "second").is_some_and(|p| l.pos("A", "begin", 10).is_some_and(|b| b < p)) && second < t0 + 10 {
                        v.push("timeout reported although the reply came before the deadline".into());
                    }
                    if l.ss("d", "ret") != vec!["ok1020"] {
                        v.push(format!("another request was disturbed: {:?}", l.ss("d", "ret")));
                    }
                    let panics = l.countk("A", "panicked");
                    if l.countk("A", "on_panic") != panics {
                        v.push("a late reply disturbed the actor".into());
                    }
                    if l.count("A", "begin", 10) != 1 {
                        v.push("the timed-out request was not handled exactly once".into());
                    }
                },
            )
        }),
        scn("P05", "mailbox-timeout", 2, 4, "tell, ask, enqueue and recipient tell with mailbox timeouts 0, 5, 10 and 30 ms against a full bounded mailbox whose actor is busy for 10 ms", || {
            prog(
                || async {
                    let a = spawn_t(t("A"), Mb::B(1));
                    ev("cfg", "h", now(), "");
                    a.tell(m_do(1, |_| async {
                        tokio::time::sleep(ms(10)).await;
                        Ok(1)
                    })).send().await.unwrap();
                    mcrt::quiesce(); // the actor is in its handler
                    a.tell(m(2)).send().await.unwrap(); // the mailbox is full
                    let to = [0u64, 5, 10, 30][choose(4)];
                    let vs = [V::TellTimeout, V::AskTimeout, V::EnqueueTimeout, V::RTellTimeout];
                    let k = vs[choose(4)];
                    CHOSEN.lock().unwrap().push(k);
                    ev("c", "t0", now(), "");
                    ev("cfg", "to", to as i64, "");
                    client("c", async move {
                        let r = send_v(k, &a, m(10), ms(to)).await;
                        ev("c", "t1", now(), "");
                        ev("c", "ret", 10, r);
                        let r = a.ask(m(11)).send().await;
                        ev("c", "ret2", 11, res_text(&r));
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let k = CHOSEN.lock().unwrap()[0];
                    let r = l.ss("c", "ret").concat();
                    let to = l.ns("cfg", "to")[0];
                    let (t0, t1) = (l.ns("c", "t0")[0], l.ns("c", "t1").first().copied().unwrap_or(-1));
                    let b = l.count("A", "begin", 10);
                    let ok = if r == k.fail_text("Timeout", 10) { b == 0 && t1 >= t0 + to } else { r == if k.is_ask() { "ok1010" } else { "ok" } && b == 1 };
                    if !ok {
                        v.push(format!("{k:?} with mailbox timeout {to} ms returned {r} after {} ms (handled {b} times)", t1 - t0));
                    }
                    // room is certain to appear at 10 ms; a timeout that the clock reaches first must be reported
                    if b == 1 && t1 < l.ns("cfg", "h")[0] + 10 {
                        v.push("a full mailbox accepted a message".into());
                    }
                    if l.ss("c", "ret2") != vec!["ok1011"] {
                        v.push(format!("the actor was disturbed: {:?}", l.ss("c", "ret2")));
                    }
                    if l.ns("A", "begin").iter().filter(|x| **x == 2).count() != 1 {
                        v.push("the queued message was lost".into());
                    }
                },
            )
        }),
        scn("P05", "both-timeouts", 2, 4, "asks with a mailbox and a reply timeout against a busy actor; a second timed request must keep its own deadline", || {
            prog(
                || async {
                    let a = spawn_t(t("A"), mb_b1u());
                    a.tell(m_do(1, |_| async {
                        tokio::time::sleep(ms(10)).await;
                        Ok(1)
                    })).send().await.unwrap();
                    mcrt::quiesce();
                    for c in 0..2u32 {
                        let (tm, tr) = [(5, 5), (20, 5), (20, 20), (5, 20)][choose(4)];
                        let name = ["c0", "c1"][c as usize];
                        let id = 10 + c;
                        let a = a.clone();
                        let enq = choose(2) == 1;
                        ev(name, "tm", tm, "");
                        ev(name, "tr", tr, "");
                        client(name, async move {
                            ev(name, "t0", now(), "");
                            let q = a.ask(m(id)).mailbox_timeout(ms(tm as u64)).reply_timeout(ms(tr as u64));
                            let r = if enq {
                                match q.enqueue().await {
                                    Ok(p) => res_text(&p.await),
                                    Err(e) => unit_err(e),
                                }
                            } else {
                                res_text(&q.send().await)
                            };
                            ev(name, "t1", now(), "");
                            ev(name, "ret", id as i64, r);
                        });
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    for (c, name) in ["c0", "c1"].into_iter().enumerate() {
                        let id = 10 + c as i64;
                        let r = l.ss(name, "ret").concat();
                        let b = l.count("A", "begin", id);
                        let (tm, tr) = (l.ns(name, "tm")[0], l.ns(name, "tr")[0]);
                        let (t0, t1) = (l.ns(name, "t0")[0], l.ns(name, "t1").first().copied().unwrap_or(-1));
                        let ok = match r.as_str() {
                            "Timeout+msg" => b == 0 && t1 >= t0 + tm,
                            "Timeout" => b <= 1 && t1 >= t0 + tr,
                            x => x == format!("ok{}", id + 1000) && b == 1,
                        };
                        if !ok {
                            v.push(format!("{name}: mailbox timeout {tm}, reply timeout {tr}: {r} after {} ms (handled {b})", t1 - t0));
                        }
                    }
                },
            )
        }),
        scn("P05", "never-answered", 2, 4, "every form of ask with a reply timeout (alone or with a mailbox timeout), to a bounded and an unbounded mailbox, whose handler replies, fails or panics only after the asker has given up", || {
            prog(
                || async {
                    let (a, _j) = spawn_tj(tc("A", Cfg { on_panic: PanicPolicy::Continue, ..Default::default() }), if choose(2) == 0 { Mb::B(2) } else { Mb::U });
                    mcrt::settle();
                    let how = choose(8);
                    let kind = choose(3);
                    ev("cfg", "how", how as i64, "");
                    let gate = Arc::new(tokio::sync::Notify::new());
                    let g2 = gate.clone();
                    client("c", async move {
                        let msg = m_do(10, move |_| async move {
                            g2.notified().await;
                            match kind {
                                0 => Ok(1010),
                                1 => Err(TErr(10)),
                                _ => panic!("late"),
                            }
                        });
                        ev("c", "t0", now(), "");
                        let q = a.ask(msg);
                        let r = match how {
                            0 => q.reply_timeout(ms(10)).send().await,
                            1 => q.reply_timeout(ms(10)).await,
                            2 => q.reply_timeout(ms(10)).try_send().await,
                            3 => q.reply_timeout(ms(10)).enqueue().await.unwrap().await,
                            4 => q.reply_timeout(ms(10)).try_enqueue().unwrap().await,
                            5 => q.mailbox_timeout(LONG).reply_timeout(ms(10)).send().await,
                            6 => q.reply_timeout(ms(10)).mailbox_timeout(LONG).await,
                            _ => q.mailbox_timeout(LONG).reply_timeout(ms(10)).enqueue().await.unwrap().await,
                        };
                        ev("c", "t1", now(), "");
                        ev("c", "ret", 10, res_text(&r));
                        gate.notify_one();
                        let r = a.ask(m(11)).send().await;
                        ev("c", "ret2", 11, res_text(&r));
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let how = l.ns("cfg", "how")[0];
                    let r = l.ss("c", "ret").concat();
                    let (t0, t1) = (l.ns("c", "t0")[0], l.ns("c", "t1").first().copied().unwrap_or(-1));
                    if r != "Timeout" || t1 < t0 + 10 {
                        v.push(format!("ask (form {how}) with a 10 ms reply timeout that is never answered returned {r:?} after {} ms", t1 - t0));
                    }
                    if l.ss("c", "ret2") != vec!["ok1011"] || l.countk("A", "on_panic") != l.countk("A", "panicked") {
                        v.push(format!("the late reply disturbed the actor: {:?}", l.ss("c", "ret2")));
                    }
                },
            )
        }),
        scn("P05", "exact-deadlines", 1, 3, "time passes only when nothing can run: every form of ask and timed tell whose handler takes 0 to 30 ms, after a wait of 0 to 30 ms for room in the mailbox, with every pair of timeouts: each answer comes at the very time it is due", || {
            prog(
                || async {
                    let mb = if choose(2) == 0 { Mb::B(1) } else { Mb::U };
                    let (a, _j) = spawn_tj(tc("A", Cfg { on_panic: PanicPolicy::Continue, ..Default::default() }), mb);
                    mcrt::settle();
                    let busy = [0u64, 5, 20][choose(3)];
                    let work = [0u64, 5, 10, 20, 30][choose(5)];
                    let how = choose(12);
                    let tm = [5u64, 10, 30][if how >= 5 { choose(3) } else { 2 }];
                    let tr = [10u64, 25][choose(2)];
                    // how long the message waits for room and for its handler to begin
                    let full = busy > 0 && matches!(mb, Mb::B(_));
                    ev("cfg", "x", 0, format!("{mb:?} busy {busy} work {work} form {how} timeouts {tm} {tr}"));
                    if busy > 0 {
                        a.tell(m_do(1, move |_| async move {
                            tokio::time::sleep(ms(busy)).await;
                            Ok(1)
                        })).send().await.unwrap();
                        mcrt::quiesce(); // the actor is in its handler
                        a.tell(m(2)).send().await.unwrap(); // a bounded mailbox is full
                    }
                    let waits = how >= 2;
                    let (want, at) = if full && !waits {
                        ("Full".to_string(), 0)
                    } else {
                        // when it gets into the mailbox
                        let put = if full { busy } else { 0 };
                        if how >= 5 && put > tm {
                            ("Timeout+".into(), tm)
                        } else if how >= 9 {
                            ("ok".into(), put)
                        } else if busy + work > put + tr {
                            ("Timeout".into(), put + tr)
                        } else {
                            ("ok1010".into(), busy + work)
                        }
                    };
                    // both at the same moment: either
                    let tie = want != "Full" && ((how >= 5 && full && busy == tm) || how < 9 && busy + work == (if full { busy } else { 0 }) + tr);
                    ev("cfg", "want", at as i64, want);
                    ev("cfg", "tie", tie as i64, "");
                    client("c", async move {
                        let msg = m_do(10, move |_| async move {
                            if work > 0 {
                                tokio::time::sleep(ms(work)).await;
                            }
                            Ok(1010)
                        });
                        let (a2, msg2) = (a.clone(), m(10));
                        let t0 = now();
                        let q = a.ask(msg);
                        let (tm, tr) = (ms(tm), ms(tr));
                        let r = match how {
                            0 => short(q.reply_timeout(tr).try_send().await),
                            1 => match q.reply_timeout(tr).try_enqueue() {
                                Ok(p) => short(p.await),
                                Err(_) => "Full".into(),
                            },
                            2 => short(q.reply_timeout(tr).send().await),
                            3 => short(q.reply_timeout(tr).await),
                            4 => match q.reply_timeout(tr).enqueue().await {
                                Ok(p) => short(p.await),
                                Err(e) => unit_err(e),
                            },
                            5 => short(q.mailbox_timeout(tm).reply_timeout(tr).send().await),
                            6 => short(q.reply_timeout(tr).mailbox_timeout(tm).await),
                            7 => short(q.reply_timeout(tr).mailbox_timeout(tm).send().await),
                            8 => match q.mailbox_timeout(tm).reply_timeout(tr).enqueue().await {
                                Ok(p) => short(p.await),
                                Err(SendError::Timeout(_)) => "Timeout+".into(),
                                Err(e) => unit_err(e),
                            },
                            _ => {
                                let r = if how == 9 {
                                    a2.tell(msg2).mailbox_timeout(tm).send().await
                                } else if how == 10 {
                                    a2.tell(msg2).mailbox_timeout(tm).await
                                } else {
                                    a2.recipient::<M>().tell(msg2).mailbox_timeout(tm).send().await
                                };
                                match r {
                                    Ok(()) => "ok".into(),
                                    Err(SendError::Timeout(Some(_))) => "Timeout+".into(),
                                    Err(e) => err_text(&e),
                                }
                            }
                        };
                        ev("c", "ret", now() - t0, r);
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let (want, at) = (l.ss("cfg", "want").concat(), l.ns("cfg", "want")[0]);
                    let (r, t) = (l.ss("c", "ret").concat(), l.ns("c", "ret").first().copied().unwrap_or(-1));
                    if l.ns("cfg", "tie")[0] == 0 && (r != want || t != at) {
                        v.push(format!("{}: {r} after {t} ms instead of {want} after {at} ms", l.ss("cfg", "x").concat()));
                    }
                },
            )
        })
        .lazy(),
        scn("P05", "far-deadlines", 0, 1, "time passes only when nothing can run: every form of ask and timed tell with timeouts from 100 ns over 50 days, 3 years and 100 years to the longest there is, to an actor that takes a moment, 60 days or 3 years: each answer comes when it is due", || {
            prog(
                || async {
                    const DAY: u64 = 86_400_000_000_000;
                    let durs = [
                        Duration::from_nanos(100),
                        Duration::from_micros(999),
                        Duration::from_nanos(1_000_001),
                        Duration::from_nanos(50 * DAY),
                        Duration::from_nanos(1000 * DAY),
                        Duration::from_nanos(36_500 * DAY),
                        Duration::from_millis(u64::MAX),
                        Duration::from_secs(u64::MAX),
                        Duration::MAX,
                    ];
                    let (a, _j) = spawn_tj(tc("A", Cfg { on_panic: PanicPolicy::Continue, ..Default::default() }), Mb::B(1));
                    mcrt::settle();
                    let spans = [Duration::ZERO, Duration::from_micros(300), ms(7), Duration::from_nanos(60 * DAY), Duration::from_nanos(1100 * DAY)];
                    let how = choose(10);
                    let busy = if how >= 3 { spans[choose(5)] } else { Duration::ZERO };
                    let work = if how < 7 { spans[choose(5)] } else { Duration::ZERO };
                    let tm = if how >= 3 { durs[choose(9)] } else { Duration::MAX };
                    let tr = if how < 7 { durs[choose(9)] } else { Duration::MAX };
                    let full = busy > Duration::ZERO;
                    ev("cfg", "x", 0, format!("busy {busy:?} work {work:?} form {how} timeouts {tm:?} {tr:?}"));
                    let start = mcrt::now_nanos();
                    if full {
                        a.tell(m_do(1, move |_| async move {
                            tokio::time::sleep(busy).await;
                            Ok(1)
                        })).send().await.unwrap();
                        mcrt::quiesce(); // the actor is in its handler
                        a.tell(m(2)).send().await.unwrap(); // the mailbox is full
                    }
                    let t0 = mcrt::now_nanos();
                    let r = {
                        let msg = m_do(10, move |_| async move {
                            if work > Duration::ZERO {
                                tokio::time::sleep(work).await;
                            }
                            Ok(1010)
                        });
                        let (a2, msg2) = (a.clone(), m(10));
                        let q = a.ask(msg);
                        match how {
                            0 => short(q.reply_timeout(tr).try_send().await),
                            1 => short(q.reply_timeout(tr).send().await),
                            2 => match q.reply_timeout(tr).enqueue().await {
                                Ok(p) => short(p.await),
                                Err(e) => unit_err(e),
                            },
                            3 => short(q.mailbox_timeout(tm).reply_timeout(tr).send().await),
                            4 => short(q.reply_timeout(tr).mailbox_timeout(tm).await),
                            5 => short(q.mailbox_timeout(tm).reply_timeout(tr).await),
                            6 => match q.mailbox_timeout(tm).reply_timeout(tr).enqueue().await {
                                Ok(p) => short(p.await),
                                Err(SendError::Timeout(_)) => "Timeout+".into(),
                                Err(e) => unit_err(e),
                            },
                            _ => {
                                let r = if how == 7 {
                                    a2.tell(msg2).mailbox_timeout(tm).send().await
                                } else if how == 8 {
                                    a2.tell(msg2).mailbox_timeout(tm).await
                                } else {
                                    a2.recipient::<M>().tell(msg2).mailbox_timeout(tm).send().await
                                };
                                match r {
                                    Ok(()) => "ok".into(),
                                    Err(SendError::Timeout(Some(_))) => "Timeout+".into(),
                                    Err(e) => err_text(&e),
                                }
                            }
                        }
                    };
                    let t = mcrt::now_nanos();
                    // what is due, and when; deadlines are kept to within two milliseconds
                    const TOL: u128 = 2_000_000;
                    let (busy, work, tm, tr) = (busy.as_nanos(), work.as_nanos(), tm.as_nanos(), tr.as_nanos());
                    let mut want: Vec<(&str, u128)> = vec![];
                    let put = busy;
                    let done = busy + work;
                    let near = |a: u128, b: u128| a.abs_diff(b) <= TOL;
                    let timed_put = how >= 3 && full;
                    if timed_put && (tm < put || near(tm, put)) {
                        want.push(("Timeout+", tm));
                    }
                    if !timed_put || tm > put || near(tm, put) {
                        if how >= 7 {
                            want.push(("ok", put));
                        } else {
                            if put + tr < done || near(put + tr, done) {
                                want.push(("Timeout", put + tr));
                            }
                            if put + tr > done || near(put + tr, done) {
                                want.push(("ok1010", done));
                            }
                        }
                    }
                    let took = (t - t0) as u128;
                    if !want.iter().any(|(w, at)| r == *w && took + TOL >= *at && took <= *at + 2 * TOL) {
                        fail(format!("{r} after {took} ns instead of one of {want:?}; {}", log().ss("cfg", "x").concat()));
                    }
                    let _ = start;
                    // nothing timed out is handled, and the actor goes on
                    let ok = a.ask(m(11)).send().await;
                    if res_text(&ok) != "ok1011" {
                        fail(format!("the next ask returned {}", res_text(&ok)));
                    }
                    let n = log().count("A", "begin", 10);
                    if n != (r != "Timeout+") as usize {
                        fail(format!("a message whose send returned {r} was handled {n} times"));
                    }
                },
                |f, _l, v| all_done(f, v),
            )
        })
        .lazy(),
        scn("P05", "to-oneself", 1, 3, "time passes only when nothing can run: an actor sends to itself, with every form of ask and timed tell, from its start-up hook, a handler or its failure hook, where nobody can take the message or answer before it is through", || {
            prog(
                || async {
                    let place = choose(3);
                    let how = choose(10);
                    let mb = if choose(2) == 0 { Mb::B(1) } else { Mb::U };
                    ev("cfg", "x", how as i64, format!("{place} {mb:?}"));
                    let f: HookFn = Arc::new(move |a: ActorRef<T>| {
                        Box::pin(async move {
                            static USED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
                            if USED.swap(true, std::sync::atomic::Ordering::SeqCst) {
                                return;
                            }
                            if how >= 6 && matches!(mb, Mb::B(_)) {
                                ev("A", "first", 0, tell_text(&a.tell(m(9)).try_send()));
                            }
                            let t0 = now();
                            let r = match how {
                                0 => res_text(&a.ask(m(10)).reply_timeout(ms(10)).send().await),
                                1 => res_text(&a.ask(m(10)).reply_timeout(ms(10)).try_send().await),
                                2 => res_text(&a.ask(m(10)).reply_timeout(ms(10)).enqueue().await.unwrap().await),
                                3 => res_text(&a.ask(m(10)).reply_timeout(ms(10)).try_enqueue().unwrap().await),
                                4 => res_text(&a.ask(m(10)).mailbox_timeout(ms(50)).reply_timeout(ms(10)).send().await),
                                5 => res_text(&a.ask(m(10)).mailbox_timeout(ms(50)).reply_timeout(ms(10)).enqueue().await.unwrap().await),
                                6 => tell_text(&a.tell(m(10)).mailbox_timeout(ms(10)).send().await),
                                7 => tell_text(&a.clone().recipient().tell(m(10)).mailbox_timeout(ms(10)).send().await),
                                8 => res_text(&a.ask(m(10)).mailbox_timeout(ms(10)).reply_timeout(ms(5)).send().await),
                                _ => match a.ask(m(10)).mailbox_timeout(ms(10)).reply_timeout(ms(5)).enqueue().await {
                                    Ok(p) => res_text(&p.await),
                                    Err(e) => err_text(&e),
                                },
                            };
                            ev("A", "ret", (now() - t0) as i64, r);
                        })
                    });
                    let mut c = Cfg { on_panic: PanicPolicy::Continue, ..Default::default() };
                    match place {
                        0 => c.start_hook = Some(f.clone()),
                        2 => c.panic_hook = Some(f.clone()),
                        _ => {}
                    }
                    let (a, _j) = spawn_tj(tc("A", c), mb);
                    mcrt::settle();
                    match place {
                        1 => a.tell(m_do(1, move |a| async move { f(a).await; Ok(1) })).send().await.unwrap(),
                        2 => a.tell(m_panic(1)).send().await.unwrap(),
                        _ => {}
                    }
                    mcrt::settle();
                    ev("root", "last", 0, res_text(&a.ask(m(20)).send().await));
                },
                |f, l, v| {
                    all_done(f, v);
                    let how = l.ns("cfg", "x")[0];
                    let full = how >= 6 && l.ss("cfg", "x")[0].contains("B(");
                    let (want, at, handled) = match how {
                        0..=5 => ("Timeout", 10, 1),
                        _ if full => ("Timeout+msg", 10, 0),
                        6 | 7 => ("ok", 0, 1),
                        _ => ("Timeout", 5, 1),
                    };
                    if l.ss("A", "ret") != vec![want] || l.ns("A", "ret") != vec![at] {
                        v.push(format!("{} form {how}: {:?} after {:?} ms, expected {want} after {at}", l.ss("cfg", "x")[0], l.ss("A", "ret"), l.ns("A", "ret")));
                    }
                    let n = l.count("A", "begin", 10);
                    if n != handled {
                        v.push(format!("{} form {how}: the message was handled {n} times instead of {handled}", l.ss("cfg", "x")[0]));
                    }
                    if full && (l.ss("A", "first") != vec!["ok"] || l.count("A", "begin", 9) != 1) {
                        v.push("the message that filled the mailbox was lost".into());
                    }
                    if l.ss("root", "last") != vec!["ok1020"] {
                        v.push(format!("the actor answers {:?} afterwards", l.ss("root", "last")));
                    }
                },
            )
        })
        .lazy(),
        scn("P05", "never-taken", 2, 4, "every form of send with a mailbox timeout to a full mailbox whose actor takes nothing until the sender has given up", || {
            prog(
                || async {
                    let a = spawn_t(t("A"), Mb::B(1));
                    let gate = Arc::new(tokio::sync::Notify::new());
                    let g2 = gate.clone();
                    a.tell(m_do(1, |_| async move {
                        g2.notified().await;
                        Ok(1)
                    })).send().await.unwrap();
                    mcrt::quiesce(); // the actor is in its handler
                    a.tell(m(2)).send().await.unwrap(); // the mailbox is full
                    let how = choose(10);
                    let to = ms([0u64, 10][choose(2)]);
                    ev("cfg", "how", how as i64, "");
                    ev("cfg", "to", to.as_millis() as i64, "");
                    client("c", async move {
                        ev("c", "t0", now(), "");
                        let rec = a.clone().recipient::<M>();
                        let tell = |r: Result<(), SendError<M>>| r.map_or_else(back, |()| "ok".into());
                        let ask = |r: Result<u32, SendError<M, TErr>>| r.map_or_else(back, |v| format!("ok{v}"));
                        let enq = |r: Result<(), SendError>| r.map_or_else(unit_err, |()| "ok".into());
                        let msg = m(10);
                        let r = match how {
                            0 => tell(a.tell(msg).mailbox_timeout(to).send().await),
                            1 => tell(a.tell(msg).mailbox_timeout(to).await),
                            2 => tell(rec.tell(msg).mailbox_timeout(to).send().await),
                            3 => tell(rec.tell(msg).mailbox_timeout(to).await),
                            4 => ask(a.ask(msg).mailbox_timeout(to).send().await),
                            5 => ask(a.ask(msg).mailbox_timeout(to).await),
                            6 => ask(a.ask(msg).mailbox_timeout(to).reply_timeout(LONG).send().await),
                            7 => ask(a.ask(msg).reply_timeout(LONG).mailbox_timeout(to).await),
                            8 => enq(a.ask(msg).mailbox_timeout(to).enqueue().await.map(drop)),
                            _ => enq(a.ask(msg).mailbox_timeout(to).reply_timeout(LONG).enqueue().await.map(drop)),
                        };
                        ev("c", "t1", now(), "");
                        ev("c", "ret", 10, r);
                        gate.notify_one();
                        let r = a.ask(m(11)).send().await;
                        ev("c", "ret2", 11, res_text(&r));
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let (how, to) = (l.ns("cfg", "how")[0], l.ns("cfg", "to")[0]);
                    let r = l.ss("c", "ret").concat();
                    let (t0, t1) = (l.ns("c", "t0")[0], l.ns("c", "t1").first().copied().unwrap_or(-1));
                    let want = if how >= 8 { "Timeout+msg" } else { "Timeout#10" };
                    if r != want || t1 < t0 + to || l.count("A", "begin", 10) != 0 {
                        v.push(format!("send (form {how}) with a {to} ms mailbox timeout to a mailbox that stays full returned {r:?} after {} ms", t1 - t0));
                    }
                    if l.ss("c", "ret2") != vec!["ok1011"] || l.count("A", "begin", 2) != 1 {
                        v.push(format!("the actor was disturbed: {:?}", l.ss("c", "ret2")));
                    }
                },
            )
        }),
    ]
}

// ---------------------------------------------------------------- P18

/// P06: a message waiting at start-up, sent in any way from outside, comes after the messages the actor sends itself in
/// any way from its start-up hook, and before those that come later.
fn startup_forms() -> Scn {
    scn("P06", "startup-forms", 0, 1, "before start-up a message is sent in each way there is (every form of tell, ask, enqueue, recipient, forwarding, by a task or by another actor); the start-up hook sends one in each way to itself; another comes later", || {
        prog(
            || async {
                let mb = [Mb::B(6), Mb::U][choose(2)];
                let out = choose(ALL.len() + 2 * HOWS.len());
                let own = choose(if mb == Mb::U { 11 } else { 10 });
                let p = PreparedActor::new(mb.make());
                let a = p.actor_ref().clone();
                name_id(a.id(), "A");
                let r = spawn_r("R", PanicPolicy::Continue, Mb::U);
                ev("cfg", "x", 0, format!("{mb:?} outside {out} own {own}"));
                if out < ALL.len() {
                    go(ALL[out], "c", a.clone(), 1, || m(1), LONG);
                } else {
                    let (a2, how) = (a.clone(), HOWS[(out - ALL.len()) % HOWS.len()]);
                    let raw = out - ALL.len() >= HOWS.len();
                    client("c", async move {
                        let s = if raw {
                            res_text(&r.ask(D { id: 1, how: Deleg::Raw(how), to: Some(a2), k: K2::Ok }).send().await)
                        } else {
                            fwd_text(r.ask(Fwd { to: a2, msg: m(1), how }).send().await)
                        };
                        ev("c", "ret", 1, s);
                    });
                }
                mcrt::quiesce();
                let hook: HookFn = Arc::new(move |me: ActorRef<T>| {
                    Box::pin(async move {
                        let msg = m(11);
                        let ok = match own {
                            0 => me.tell(msg).send().await.is_ok(),
                            1 => me.tell(msg).await.is_ok(),
                            2 => me.tell(msg).mailbox_timeout(LONG).send().await.is_ok(),
                            3 => me.tell(msg).try_send().is_ok(),
                            4 => me.clone().recipient::<M>().tell(msg).send().await.is_ok(),
                            5 => me.clone().recipient::<M>().tell(msg).mailbox_timeout(LONG).send().await.is_ok(),
                            6 => me.clone().recipient::<M>().tell(msg).try_send().is_ok(),
                            7 => me.ask(msg).enqueue().await.is_ok(),
                            8 => me.ask(msg).try_enqueue().is_ok(),
                            9 => me.ask(msg).mailbox_timeout(LONG).reply_timeout(LONG).enqueue().await.is_ok(),
                            _ => tokio::task::block_in_place(|| me.ask(msg).blocking_enqueue().is_ok()),
                        };
                        ev("A", "own", ok as i64, "");
                    })
                });
                mcrt::set_next_name("A");
                p.spawn(tc("A", Cfg { start_hook: Some(hook), ..Default::default() }));
                client("o", async move {
                    let r = a.ask(m(21)).send().await;
                    ev("o", "ret", 21, res_text(&r));
                });
            },
            |f, l, v| {
                all_done(f, v);
                if l.ns("A", "begin") != vec![11, 1, 21] || l.ns("A", "own") != vec![1] {
                    v.push(format!("{}: handled {:?} instead of [11, 1, 21]", l.ss("cfg", "x").concat(), l.ns("A", "begin")));
                }
                if !l.ss("c", "ret").concat().starts_with("ok") || l.ss("o", "ret") != vec!["ok1021"] {
                    v.push(format!("{}: answered {:?} and {:?}", l.ss("cfg", "x").concat(), l.ss("c", "ret"), l.ss("o", "ret")));
                }
            },
        )
    })
}

/// An answer; a timeout that hands back the message is one of the mailbox.
fn short(r: Result<u32, SendError<M, TErr>>) -> String {
    match r {
        Ok(v) => format!("ok{v}"),
        Err(SendError::Timeout(Some(_))) => "Timeout+".into(),
        Err(SendError::Timeout(None)) => "Timeout".into(),
        Err(SendError::MailboxFull(_)) => "Full".into(),
        Err(e) => err_text(&e),
    }
}

fn forwards() -> Vec<Scn> {
    vec![
        scn("P18", "forward", 1, 3, "one and two hops of forwarding (waiting, non-waiting, blocking), asked or told, to a live, full, dead or dying target that replies, fails or panics", || {
            prog(
                || async {
                    let mb = mb_b1u();
                    let target = choose(4); // live, full-then-live, dead, dying
                    let hops = 1 + choose(2);
                    let how = HOWS[choose(3)];
                    let k = [K2::Ok, K2::Yield, K2::Err, K2::Panic][choose(4)];
                    let ask = choose(2) == 0;
                    ev("cfg", "target", target as i64, format!("{hops} {how:?} {k:?} {} {mb:?}", if ask { "ask" } else { "tell" }));
                    let p = PreparedActor::new(mb.make());
                    let a = p.actor_ref().clone();
                    name_id(a.id(), "A");
                    if target == 1 {
                        a.tell(m(1)).try_send().unwrap();
                    }
                    mcrt::set_next_name("A");
                    let cfg = Cfg { on_panic: PanicPolicy::Continue, ..Default::default() };
                    let j = match target {
                        1 => {
                            // starts when everybody else waits
                            client("starter", async move {
                                mcrt::quiesce();
                                p.spawn(tc("A", cfg));
                            });
                            None
                        }
                        _ => Some(p.spawn(tc("A", cfg))),
                    };
                    if target == 2 {
                        a.stop_gracefully().await.unwrap();
                        let _ = j.unwrap().await;
                    } else if target != 1 {
                        mcrt::settle(); // start-up is over and has left the mailbox
                    }
                    let r1 = spawn_r("R1", PanicPolicy::Continue, Mb::U);
                    let r2 = spawn_r("R2", PanicPolicy::Continue, Mb::U);
                    let a2 = a.clone();
                    let r1b = r1.clone();
                    client("c", async move {
                        let inner = Fwd { to: a2, msg: m_k2(10, k), how };
                        let s = match (hops, ask) {
                            (1, true) => match r1.ask(inner).send().await {
                                Ok(v) => format!("ok{v}"),
                                Err(SendError::HandlerError(e)) => format!("h:{}", back(e)),
                                Err(e) => err_text(&e),
                            },
                            (1, false) => tell_text(&r1.tell(inner).send().await),
                            (_, true) => fwd2_text(r1.ask(Fwd2 { via: r2, inner, how }).send().await),
                            (_, false) => tell_text(&r1.tell(Fwd2 { via: r2, inner, how }).send().await),
                        };
                        ev("c", "ret", 10, s);
                    });
                    client("other", async move {
                        // the router serves others meanwhile
                        let r = r1b.ask(D { id: 50, how: Deleg::Now, to: None, k: K2::Ok }).send().await;
                        ev("other", "ret", 50, res_text(&r));
                    });
                    if target == 3 {
                        client("killer", async move { kill(&a) });
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    let target = l.ns("cfg", "target")[0];
                    let cfg = l.ss("cfg", "target").concat();
                    let parts: Vec<&str> = cfg.split(' ').collect();
                    let (hops, how, k, ask, mb) = (parts[0], parts[1], parts[2], parts[3] == "ask", parts[4]);
                    let r = l.ss("c", "ret").concat();
                    let (b, e) = (l.count("A", "begin", 10), l.count("A", "end", 10));
                    let pre = if hops == "1" { "h:" } else { "h:h:" };
                    let mut want: Vec<String> = vec![];
                    let full = target == 1 && mb != "U";
                    if ask {
                        if e == 1 {
                            want.push(match k {
                                "Err" => format!("{pre}handler:TErr(10)"),
                                _ => "ok1010".into(),
                            });
                        } else if b == 1 {
                            want.push("Stopped".into());
                        } else {
                            if target >= 2 {
                                want.push(format!("{pre}NotRunning#10"));
                            }
                            if target == 3 {
                                want.push("Stopped".into());
                            }
                            if full && how == "Try" {
                                want.push(format!("{pre}Full#10"));
                            }
                        }
                        if !want.contains(&r) {
                            v.push(format!("forward [{cfg}] target {target}: the asker got {r}, expected {want:?} (begun {b}, finished {e})"));
                        }
                    } else if r != "ok" {
                        v.push(format!("tell returned {r}"));
                    }
                    if b > 1 {
                        v.push("the forwarded message was handled twice".into());
                    }
                    if target <= 1 && b == 0 && !(how == "Try" && full) {
                        v.push(format!("forward [{cfg}] target {target}: the message was lost"));
                    }
                    for r in ["R1", "R2"] {
                        let hooks = l.ss(r, "on_panic");
                        // a failed forward of a tell is the router's own failure; nothing else is
                        if hooks.iter().any(|h| h.starts_with("str:")) || (ask && !hooks.is_empty()) {
                            v.push(format!("router {r} failed: {hooks:?}"));
                        }
                    }
                    if l.ss("other", "ret") != vec!["ok1050"] {
                        v.push(format!("the router did not serve another asker: {:?}", l.ss("other", "ret")));
                    }
                },
            )
        }),
        scn("P18", "forward-three-hops", 2, 4, "three hops of forwarding with success and failure at the end and a dead second router", || {
            prog(
                || async {
                    let a = spawn_t(t("A"), Mb::U);
                    let k = [K2::Ok, K2::Err][choose(2)];
                    let dead = choose(2) == 1;
                    ev("cfg", "c", dead as i64, format!("{k:?}"));
                    let r1 = spawn_r("R1", PanicPolicy::Continue, Mb::U);
                    let r2 = spawn_r("R2", PanicPolicy::Continue, Mb::B(1));
                    let r3 = spawn_r("R3", PanicPolicy::Continue, Mb::U);
                    if dead {
                        r3.stop_gracefully().await.unwrap();
                        r3.wait_for_shutdown().await;
                    }
                    client("c", async move {
                        let msg = Fwd3 { via: r2, inner: Fwd2 { via: r3, inner: Fwd { to: a, msg: m_k2(10, k), how: How::Wait }, how: How::Wait } };
                        let s = match r1.ask(msg).send().await {
                            Ok(v) => format!("ok{v}"),
                            Err(SendError::HandlerError(e)) => format!("h:{}", fwd2_text(Err(e))),
                            Err(e) => err_text(&e),
                        };
                        ev("c", "ret", 10, s);
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let dead = l.ns("cfg", "c")[0] == 1;
                    let want = if dead {
                        "h:h:NotRunning#10"
                    } else if l.ss("cfg", "c") == vec!["Err"] {
                        "h:h:h:handler:TErr(10)"
                    } else {
                        "ok1010"
                    };
                    if l.ss("c", "ret") != vec![want] {
                        v.push(format!("three hops: {:?} instead of {want}", l.ss("c", "ret")));
                    }
                },
            )
        }),
        scn("P18", "delegate", 2, 4, "replies delegated to a task, answered early, dropped, answered with an error or lost to a panic, asked or told; the actor serves others meanwhile", || {
            prog(
                || async {
                    let hows = [Deleg::Task, Deleg::Now, Deleg::DropIt, Deleg::DropNow, Deleg::CtxReply, Deleg::TaskErr, Deleg::Panic];
                    let how = hows[choose(hows.len())];
                    let ask = choose(2) == 0;
                    let r = spawn_r("R1", PanicPolicy::Continue, mb_b1u());
                    ev("cfg", "how", ask as i64, format!("{how:?}"));
                    let r2 = r.clone();
                    client("c", async move {
                        let d = D { id: 10, how, to: None, k: K2::Ok };
                        let s = if ask { res_text(&r.ask(d).send().await) } else { tell_text(&r.tell(d).send().await) };
                        ev("c", "ret", 10, s);
                    });
                    client("c2", async move {
                        let s = res_text(&r2.ask(D { id: 20, how: Deleg::Task, to: None, k: K2::Ok }).send().await);
                        ev("c2", "ret", 20, s);
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let how = l.ss("cfg", "how").concat();
                    let ask = l.ns("cfg", "how")[0] == 1;
                    let want = match (ask, how.as_str()) {
                        (false, _) => "ok",
                        (_, "Task" | "Now" | "CtxReply") => "ok1010",
                        (_, "TaskErr") => "handler:TErr(10)",
                        _ => "Stopped",
                    };
                    if l.ss("c", "ret") != vec![want] {
                        v.push(format!("{how}: the asker got {:?} instead of {want}", l.ss("c", "ret")));
                    }
                    if l.ss("c2", "ret") != vec!["ok1020"] {
                        v.push(format!("{how}: another asker got {:?}", l.ss("c2", "ret")));
                    }
                    let s = l.0.iter().find(|e| e.what == "sender" && e.n == 10).map(|e| e.s.clone());
                    if s.is_some() && (s.as_deref() == Some("some")) != ask {
                        v.push("a reply sender was offered for a tell or withheld for an ask".into());
                    }
                    let n = l.countk("R1", "on_panic");
                    if n != (how == "Panic") as usize {
                        v.push(format!("{how}: the failure hook ran {n} times"));
                    }
                },
            )
        }),
        scn("P18", "asker-gone", 1, 2, "the asker of a message that is forwarded (once or twice, in every way) or whose reply is delegated is aborted at any point: the message still ends at its target or is destroyed, and both actors serve others", || {
            prog(
                || async {
                    let form = choose(11);
                    let k = [K2::Ok, K2::Yield, K2::Err][choose(3)];
                    let mb = mb_b1u();
                    let a = spawn_t(tc("A", Cfg { on_panic: PanicPolicy::Continue, ..Default::default() }), mb);
                    let r1 = spawn_r("R1", PanicPolicy::Continue, Mb::B(2));
                    let r2 = spawn_r("R2", PanicPolicy::Continue, mb);
                    mcrt::settle();
                    ev("cfg", "case", form as i64, format!("{k:?} {mb:?}"));
                    a.tell(m_yield(1, 1)).try_send().unwrap();
                    let (b, q1, q2) = (a.clone(), r1.clone(), r2.clone());
                    let h = tokio::spawn(async move {
                        ev("c", "call", 10, "");
                        let msg = m_k2(10, k);
                        let d = |how| D { id: 10, how, to: Some(b.clone()), k };
                        let s = match form {
                            0..=2 => fwd_text(q1.ask(Fwd { to: b.clone(), msg, how: HOWS[form] }).send().await),
                            3..=4 => fwd2_text(q1.ask(Fwd2 { via: q2, inner: Fwd { to: b.clone(), msg, how: How::Wait }, how: HOWS[form - 3] }).send().await),
                            5..=6 => {
                                drop(msg);
                                res_text(&q1.ask(d(Deleg::Raw(HOWS[form - 5]))).send().await)
                            }
                            7 => res_text(&q1.ask(d(Deleg::RawTimed(1000))).send().await),
                            8 => res_text(&q1.ask(d(Deleg::Task)).send().await),
                            9 => res_text(&q1.ask(d(Deleg::TaskErr)).send().await),
                            _ => res_text(&q1.ask(d(Deleg::CtxReply)).send().await),
                        };
                        ev("c", "ret", 10, s);
                    });
                    client("x", async move { h.abort() });
                    let (b, q1) = (a.clone(), r1.clone());
                    let d = client("d", async move {
                        ev("d", "ret", 20, fwd_text(q1.ask(Fwd { to: b, msg: m(20), how: How::Wait }).send().await));
                    });
                    let _ = d.await;
                    mcrt::settle();
                    for r in [&r1, &r2] {
                        ev("root", "after", 0, fwd_text(r.ask(Fwd { to: a.clone(), msg: m(30), how: How::Wait }).send().await));
                    }
                    for r in [r1, r2] {
                        r.kill();
                    }
                    kill(&a);
                },
                |f, l, v| {
                    all_done(f, v);
                    let form = l.ns("cfg", "case")[0];
                    let cfg = l.ss("cfg", "case").concat();
                    if l.ss("d", "ret") != ["ok1020"] || l.ss("root", "after") != ["ok1030"; 2] {
                        v.push(format!("[{form} {cfg}] others got {:?} and {:?}", l.ss("d", "ret"), l.ss("root", "after")));
                    }
                    let n = l.count("A", "begin", 10);
                    let tries = matches!(form, 1 | 6) || form == 4 && cfg.contains("B(1)");
                    let routed = form < 8 && l.count("R1", "end", 10) > 0;
                    if n > 1 || form >= 8 && n > 0 || routed && n == 0 && !tries {
                        v.push(format!("[{form} {cfg}] the message was handled {n} times by its target"));
                    }
                    if form < 5 && l.countk("c", "call") > 0 && n + l.count("msg", "dropped", 10) != 1 {
                        v.push(format!("[{form} {cfg}] the message was handled {n} times and destroyed unhandled {} times", l.count("msg", "dropped", 10)));
                    }
                    if l.countk("R1", "on_panic") + l.countk("R2", "on_panic") + l.countk("A", "on_panic") > 0 {
                        v.push(format!("[{form} {cfg}] an actor failed because an asker went away"));
                    }
                },
            )
        })
        .lazy(),
        scn("P18", "raw-forward", 2, 4, "a reply sender passed on with ask().forward (with and without a timeout) / try_forward / blocking_forward to an actor that is live, full for now, full until the forwarding is over, or dead", || {
            prog(
                || async {
                    let how = [Deleg::Raw(How::Wait), Deleg::Raw(How::Try), Deleg::Raw(How::Block), Deleg::RawTimed(10)][choose(4)];
                    let k = [K2::Ok, K2::Err, K2::Panic][choose(3)];
                    let target = match how {
                        Deleg::RawTimed(_) | Deleg::Raw(How::Try) => choose(4),
                        _ => choose(3),
                    };
                    let mb = mb_b1u();
                    ev("cfg", "how", target as i64, format!("{how:?} {k:?} {mb:?}"));
                    let fwded = Arc::new(tokio::sync::Notify::new());
                    let f2 = fwded.clone();
                    let p = PreparedActor::new(mb.make());
                    let a = p.actor_ref().clone();
                    name_id(a.id(), "A");
                    mcrt::set_next_name("A");
                    let cfg = Cfg { on_panic: PanicPolicy::Continue, ..Default::default() };
                    match target {
                        0 => {
                            p.spawn(tc("A", cfg));
                            mcrt::settle(); // start-up is over and has left the mailbox
                        }
                        1 => {
                            a.tell(m(1)).try_send().unwrap();
                            client("starter", async move {
                                mcrt::quiesce();
                                p.spawn(tc("A", cfg));
                            });
                        }
                        3 => {
                            a.tell(m(1)).try_send().unwrap();
                            client("starter", async move {
                                f2.notified().await;
                                p.spawn(tc("A", cfg));
                            });
                        }
                        _ => std::mem::drop(p),
                    }
                    let r = spawn_r("R1", PanicPolicy::Continue, Mb::U);
                    client("c", async move {
                        let (a2, r2) = (a.clone(), r.clone());
                        let pending = r.ask(D { id: 10, how, to: Some(a), k }).enqueue().await.unwrap();
                        // the router serves in order: the forwarding is over
                        let _ = r2.ask(D { id: 11, how: Deleg::Now, to: None, k: K2::Ok }).send().await;
                        fwded.notify_one();
                        ev("c", "ret", 10, res_text(&pending.await));
                        std::mem::drop(a2);
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    let cfg = l.ss("cfg", "how").concat();
                    let target = l.ns("cfg", "how")[0];
                    let p: Vec<&str> = cfg.split(' ').collect();
                    let full = matches!(target, 1 | 3) && p[2] != "U";
                    let (fws, rets) = (l.ss("R1", "fwd"), l.ss("c", "ret"));
                    if target == 1 && full && p[0].starts_with("RawTimed") && (fws.as_slice(), rets.as_slice()) == (&["Timeout#10".to_string()][..], &["handler:TErr(555)".to_string()][..]) {
                        return; // the clock may be faster than the actor
                    }
                    let (fw, want) = if target == 2 {
                        ("NotRunning#10", "handler:TErr(555)")
                    } else if full && target == 3 && p[0].starts_with("RawTimed") {
                        ("Timeout#10", "handler:TErr(555)")
                    } else if full && p[0] == "Raw(Try)" {
                        ("Full#10", "handler:TErr(555)")
                    } else {
                        ("ok", match p[1] {
                            "Ok" => "ok1010",
                            "Err" => "handler:TErr(10)",
                            _ => "Stopped",
                        })
                    };
                    if fws != vec![fw] || rets != vec![want] {
                        v.push(format!("[{cfg}] target {target}: forward gave {:?}, the asker got {:?}; expected {fw} and {want}", l.ss("R1", "fwd"), l.ss("c", "ret")));
                    }
                },
            )
        }),
    ]
}

// ---------------------------------------------------------------- P19

/// The actor a stream is attached to.
struct St {
    c: Option<u32>,
}
impl Actor for St {
    type Error = TErr;
    async fn on_stop(&mut self, _r: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), TErr> {
        ev("S", "stop", 0, reason_text(&reason));
        Ok(())
    }
}
type SM = StreamMessage<u32, u32, u32>;
impl Message<SM> for St {
    type Reply = ();
    async fn handle(&mut self, m: SM, _ctx: &mut Context<Self, ()>) {
        match m {
            StreamMessage::Started(s) => ev("S", "got", s as i64, "started"),
            StreamMessage::Next(n) => ev("S", "got", n as i64, "next"),
            StreamMessage::Finished(n) => ev("S", "got", n as i64, "finished"),
        }
        if self.c.is_some() {
            yield_now().await;
        }
        if let (StreamMessage::Next(n), Some(p)) = (&m, self.c) {
            if *n == p {
                panic!("stream handler panics")
            }
        }
    }
}
struct Other(u32);
impl Message<Other> for St {
    type Reply = u32;
    async fn handle(&mut self, m: Other, _ctx: &mut Context<Self, u32>) -> u32 {
        ev("S", "other", m.0 as i64, "");
        m.0
    }
}

fn streams() -> Vec<Scn> {
    vec![
        scn("P19", "stream-complete", 2, 5, "a stream of 0 to 3 items (ready at once, or suspending before each item) attached to an actor with bounded(1), bounded(2) and unbounded mailboxes, another sender interleaving", || {
            prog(
                || async {
                    let n = choose(4) as u32;
                    let slow = choose(2) == 1;
                    let mb = mb_any();
                    ev("cfg", "n", n as i64, "");
                    mcrt::set_next_name("S");
                    let a = spawn_with_mailbox(St { c: if choose(2) == 1 { Some(99) } else { None } }, mb.make());
                    let s = futures::stream::iter(1..=n).then(move |x| async move {
                        if slow {
                            yield_now().await;
                        }
                        x
                    });
                    mcrt::set_next_name("pump");
                    let j = a.attach_stream(Box::pin(s), 100, 200);
                    let b = a.clone();
                    client("o", async move {
                        let r = b.ask(Other(7)).send().await;
                        ev("o", "ret", 0, format!("{:?}", r.ok()));
                    });
                    std::mem::drop(a);
                    match j.await {
                        Ok(Ok(s)) => {
                            let rest: Vec<u32> = s.collect().await;
                            ev("j", "res", rest.len() as i64, "stream");
                        }
                        Ok(Err(e)) => ev("j", "res", 0, format!("{e:?}")),
                        Err(_) => ev("j", "res", 0, "panic"),
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    let n = l.ns("cfg", "n")[0];
                    let got: Vec<(i64, String)> = l.0.iter().filter(|e| e.what == "got").map(|e| (e.n, e.s.clone())).collect();
                    let mut want = vec![(100, "started".to_string())];
                    want.extend((1..=n).map(|x| (x, "next".to_string())));
                    want.push((200, "finished".into()));
                    if got != want {
                        v.push(format!("the actor received {got:?} from a stream of {n}"));
                    }
                    if l.ss("j", "res") != vec!["stream"] || l.ns("j", "res") != vec![0] {
                        v.push(format!("the attachment ended with {:?}", l.ss("j", "res")));
                    }
                    if l.countk("S", "other") != 1 || l.ss("o", "ret") != vec!["Some(7)"] {
                        v.push("another sender was disturbed".into());
                    }
                },
            )
        }),
        scn("P19", "stream-actor-ends", 2, 5, "the actor is stopped, killed or panics while a finite or endless stream is attached", || {
            prog(
                || async {
                    let endless = choose(2) == 1;
                    let mb = mb_b1u();
                    let how = choose(4);
                    ev("cfg", "how", how as i64, if endless { "endless" } else { "finite" });
                    mcrt::set_next_name("S");
                    let a = spawn_with_mailbox(St { c: if how == 2 { Some(1) } else { Some(99) } }, mb.make());
                    let j = if endless {
                        let s = futures::stream::iter(1..=2u32).chain(futures::stream::pending());
                        mcrt::set_next_name("pump");
                        let j = a.attach_stream(s.boxed(), 100, 200);
                        j
                    } else {
                        mcrt::set_next_name("pump");
                        a.attach_stream(futures::stream::iter(1..=3u32).boxed(), 100, 200)
                    };
                    let b = a.clone();
                    client("killer", async move {
                        match how {
                            0 => {
                                let _ = b.stop_gracefully().await;
                            }
                            1 => kill(&b),
                            2 => {}
                            _ => {
                                mcrt::quiesce();
                                kill(&b)
                            }
                        }
                    });
                    std::mem::drop(a);
                    match j.await {
                        Ok(Ok(s)) => {
                            let rest: Vec<u32> = if endless { vec![] } else { s.collect().await };
                            ev("j", "res", rest.first().copied().unwrap_or(0) as i64, "stream");
                        }
                        Ok(Err(SendError::ActorNotRunning(m))) => ev("j", "res", match m {
                            StreamMessage::Started(s) => s,
                            StreamMessage::Next(n) => n,
                            StreamMessage::Finished(n) => n,
                        } as i64, "NotRunning"),
                        Ok(Err(e)) => ev("j", "res", 0, format!("{e:?}")),
                        Err(_) => ev("j", "res", 0, "panic"),
                    }
                    ev("j", "dead", 0, "");
                },
                |f, l, v| {
                    all_done(f, v);
                    let r = l.ss("j", "res").concat();
                    let got = l.ns("S", "got");
                    let how = l.ns("cfg", "how")[0];
                    let endless = l.ss("cfg", "how") == vec!["endless"];
                    let full: Vec<i64> = if endless { vec![100, 1, 2] } else { vec![100, 1, 2, 3, 200] };
                    if full[..got.len().min(full.len())] != got[..] {
                        v.push(format!("the actor received {got:?}"));
                    }
                    match r.as_str() {
                        "stream" => {
                            // what was not delivered is still in the stream
                            let rest = l.ns("j", "res")[0];
                            if !endless && rest != 0 && got.contains(&rest) {
                                v.push(format!("item {rest} was delivered and is still in the stream"));
                            }
                        }
                        "NotRunning" => {
                            let m = l.ns("j", "res")[0];
                            if got.contains(&m) {
                                v.push(format!("item {m} was handed back although it was handled"));
                            }
                        }
                        _ => v.push(format!("the attachment ended with {r:?} (case {how})")),
                    }
                },
            )
        }),
        scn("P19", "stream-attached-where", 1, 3, "a stream attached before the actor is spawned, in its start-up hook, in a handler, in its failure hook or from outside; one of the stream's messages fails and the actor goes on", || {
            prog(
                || async {
                    let from = choose(5) as u8;
                    let n = 1 + choose(2) as u32;
                    let fails = choose(n as usize + 1) as u32;
                    let slow = choose(3) as u8;
                    let mb = mb_any();
                    ev("cfg", "n", n as i64, format!("{from} {fails} {slow}"));
                    let (jtx, jrx) = tokio::sync::oneshot::channel();
                    let mut st = St2 { from, n, slow, fails, jtx: Some(jtx) };
                    let p = PreparedActor::new(mb.make());
                    let a = p.actor_ref().clone();
                    if from == 0 {
                        st.attach(&a);
                    }
                    mcrt::set_next_name("S");
                    p.spawn(st);
                    match from {
                        2 => a.tell(Go(false)).send().await.unwrap(),
                        3 => a.tell(Go(true)).send().await.unwrap(),
                        4 => {
                            let Ok(mut st) = a.ask(Take).send().await else { return fail("the actor did not answer") };
                            st.attach(&a);
                        }
                        _ => {}
                    }
                    let b = a.clone();
                    client("o", async move {
                        let r = b.ask(Other(7)).send().await;
                        ev("o", "ret", 0, format!("{:?}", r.ok()));
                    });
                    std::mem::drop(a);
                    let j = jrx.await.unwrap();
                    match j.await {
                        Ok(Ok(s)) => {
                            let rest: Vec<u32> = s.collect().await;
                            ev("j", "res", rest.len() as i64, "stream");
                        }
                        Ok(Err(e)) => ev("j", "res", 0, format!("{e:?}")),
                        Err(_) => ev("j", "res", 0, "panic"),
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    let n = l.ns("cfg", "n")[0];
                    let got = l.ns("S", "got");
                    let want: Vec<i64> = std::iter::once(100).chain(1..=n).chain([200]).collect();
                    if got != want {
                        v.push(format!("the actor received {got:?} from a stream of {n}"));
                    }
                    if l.ss("j", "res") != vec!["stream"] || l.ns("j", "res") != vec![0] {
                        v.push(format!("the attachment ended with {:?}", l.ss("j", "res")));
                    }
                    if l.countk("S", "other") != 1 || l.ss("o", "ret") != vec!["Some(7)"] {
                        v.push("another sender was disturbed".into());
                    }
                    if l.ss("S", "stop") != vec!["Normal"] {
                        v.push(format!("the actor stopped with {:?}", l.ss("S", "stop")));
                    }
                },
            )
        }),
    ]
}

type Attached = tokio::task::JoinHandle<Result<futures::stream::BoxStream<'static, u32>, SendError<SM>>>;
/// An actor that attaches a stream to itself.
struct St2 {
    from: u8,
    n: u32,
    slow: u8,
    fails: u32,
    jtx: Option<tokio::sync::oneshot::Sender<Attached>>,
}
impl St2 {
    fn attach(&mut self, a: &ActorRef<St2>) {
        let slow = self.slow;
        let s = futures::stream::iter(1..=self.n).then(move |x| async move {
            for _ in 0..slow {
                yield_now().await;
            }
            x
        });
        mcrt::set_next_name("pump");
        let j = a.attach_stream(s.boxed(), 100, 200);
        let _ = self.jtx.take().unwrap().send(j);
    }
}
impl Actor for St2 {
    type Error = TErr;
    async fn on_start(&mut self, a: ActorRef<Self>) -> Result<(), TErr> {
        if self.from == 1 {
            self.attach(&a);
        }
        yield_now().await;
        Ok(())
    }
    async fn on_panic(&mut self, a: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, TErr> {
        if self.from == 3 && self.jtx.is_some() {
            match a.upgrade() {
                Some(a) => self.attach(&a),
                None => fail("no reference left"),
            }
        }
        yield_now().await;
        Ok(ControlFlow::Continue(()))
    }
    async fn on_stop(&mut self, _r: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), TErr> {
        ev("S", "stop", 0, reason_text(&reason));
        Ok(())
    }
}
impl Message<SM> for St2 {
    type Reply = ();
    async fn handle(&mut self, m: SM, _ctx: &mut Context<Self, ()>) {
        match m {
            StreamMessage::Started(s) => ev("S", "got", s as i64, "started"),
            StreamMessage::Next(n) => ev("S", "got", n as i64, "next"),
            StreamMessage::Finished(n) => ev("S", "got", n as i64, "finished"),
        }
        yield_now().await;
        if let StreamMessage::Next(n) = m {
            if n == self.fails {
                panic!("stream handler panics")
            }
        }
    }
}
impl Message<Other> for St2 {
    type Reply = u32;
    async fn handle(&mut self, m: Other, _ctx: &mut Context<Self, u32>) -> u32 {
        ev("S", "other", m.0 as i64, "");
        m.0
    }
}
struct Go(bool);
impl Message<Go> for St2 {
    type Reply = ();
    async fn handle(&mut self, m: Go, ctx: &mut Context<Self, ()>) {
        if m.0 {
            panic!("the failure hook attaches the stream")
        }
        self.attach(&ctx.actor_ref());
    }
}
struct Take;
impl Message<Take> for St2 {
    type Reply = St2;
    async fn handle(&mut self, _: Take, _ctx: &mut Context<Self, St2>) -> St2 {
        St2 { jtx: self.jtx.take(), ..*self }
    }
}
impl kameo::Reply for St2 {
    type Ok = Self;
    type Error = kameo::error::Infallible;
    type Value = Self;
    fn to_result(self) -> Result<Self, kameo::error::Infallible> {
        Ok(self)
    }
    fn into_any_err(self) -> Option<Box<dyn kameo::reply::ReplyError>> {
        None
    }
    fn into_value(self) -> Self {
        self
    }
}
