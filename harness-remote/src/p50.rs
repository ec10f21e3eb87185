//! P50: remote messaging gives the outcomes of local messaging.
use crate::kit::*;
use crate::net::*;
use crate::node::*;
use kameo::remote::*;

pub fn all() -> Vec<Scn> {
    vec![
        scn("P50", "remote-outcomes", 2, 3, "every request variant x route x message, reply and payload kind x actor state", outcomes),
        scn("P50", "remote-waits", 2, 4, "every request variant x timeouts x full mailbox, slow handler, slow start", waits).lazy(),
        scn("P50", "remote-failures", 2, 3, "every request variant x every network failure of the request or of its answer", failures),
        scn("P50", "remote-concurrent", 2, 3, "two callers with two requests each, to one actor and to two; answers in any order", concurrent),
        scn("P50", "remote-stop-race", 2, 4, "a request against the actor being killed, stopped, or panicking", stop_race),
        scn("P50", "remote-blocked", 1, 3, "a request that waits (full mailbox, slow handler, slow start) against everything else the node is asked to do", blocked),
        scn("P50", "remote-garbage", 0, 0, "payloads cut short and corrupted, in requests and in answers; the node goes on serving", garbage),
        scn("P50", "remote-wire", 0, 0, "every request and response the protocol has, through the wire's encoding and back", wire_values),
        scn("P50", "remote-error-values", 0, 0, "every remote error, and every local one turned into it, through every sequence of three operations (mapped, nested and flattened), then shown: its kind and what it carries are kept", error_values),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Ask,
    TryAsk,
    Tell,
    TryTell,
}
pub const OPS: [Op; 4] = [Op::Ask, Op::TryAsk, Op::Tell, Op::TryTell];
impl Op {
    fn ask(self) -> bool {
        matches!(self, Op::Ask | Op::TryAsk)
    }
    fn tries(self) -> bool {
        matches!(self, Op::TryAsk | Op::TryTell)
    }
}

pub fn rich() -> Data {
    let mut d = Data { a: Some(-7), b: vec!["".into(), "x\u{e9}".into()], c: (255, true), d: Default::default(), e: None };
    d.d.insert("k".into(), vec![0, 127, 128, 255]);
    d.e = Some(Box::new(Data { a: Some(i64::MIN), ..Data::default() }));
    d
}

/// A message as sent: through every variant of request, with optional timeouts (ms).
pub async fn send_q<A>(f: &RemoteActorRef<A>, op: Op, m: Q, mt: Option<u64>, rt: Option<u64>) -> String
where
    A: Actor + RemoteActor + RemoteMessage<Q> + Message<Q, Reply = Result<Rep, RErr>>,
{
    let ms = Duration::from_millis;
    match op {
        Op::Ask => match (mt, rt) {
            (None, None) => rres(&f.ask(&m).send().await),
            (Some(x), None) => rres(&f.ask(&m).mailbox_timeout(ms(x)).send().await),
            (None, Some(y)) => rres(&f.ask(&m).reply_timeout(ms(y)).send().await),
            (Some(x), Some(y)) => rres(&f.ask(&m).mailbox_timeout(ms(x)).reply_timeout(ms(y)).await),
        },
        Op::TryAsk => match rt {
            None => rres(&f.ask(&m).try_send().await),
            Some(y) => rres(&f.ask(&m).reply_timeout(ms(y)).try_send().await),
        },
        Op::Tell => match mt {
            None => rres(&f.tell(&m).send().await),
            Some(x) => rres(&f.tell(&m).mailbox_timeout(ms(x)).send().await),
        },
        Op::TryTell => rres(&f.tell(&m).try_send().await),
    }
}
pub async fn send_any<A, M>(f: &RemoteActorRef<A>, op: Op, m: M) -> String
where
    A: Actor + RemoteActor + RemoteMessage<M> + Message<M>,
    M: serde::Serialize + Send + Sync + 'static,
    <A::Reply as kameo::Reply>::Ok: serde::de::DeserializeOwned + std::fmt::Debug,
    <A::Reply as kameo::Reply>::Error: serde::de::DeserializeOwned,
{
    match op {
        Op::Ask => rres(&f.ask(&m).await),
        Op::TryAsk => rres(&f.ask(&m).try_send().await),
        Op::Tell => rres(&f.tell(&m).await),
        Op::TryTell => rres(&f.tell(&m).try_send().await),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Route {
    /// a peer's actor
    Far,
    /// an actor of this node, which has no peers
    Alone,
    /// an actor of this node, which has peers
    Own,
}
const ROUTES: [Route; 3] = [Route::Far, Route::Alone, Route::Own];
fn cfg(r: Route) -> NetCfg {
    if r == Route::Alone {
        alone()
    } else {
        NetCfg::default()
    }
}
async fn reach<A: Actor + RemoteActor>(r: Route, node: &NodeRef, a: &ActorRef<A>) -> RemoteActorRef<A> {
    match r {
        Route::Far => far(node, a).await,
        _ => near(a).await,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Case {
    Ok,
    Rich,
    Err,
    Panic,
    MsgSer,
    MsgDe,
    RepSer,
    RepDe,
    ErrSer,
    ErrDe,
    Plain,
    LaterOk,
    LaterErr,
    LaterDrop,
    Secret,
    Dead,
    WrongType,
    OtherType,
    StopSelf,
    KillSelf,
}
const CASES: [Case; 20] = {
    use Case::*;
    [Ok, Rich, Err, Panic, MsgSer, MsgDe, RepSer, RepDe, ErrSer, ErrDe, Plain, LaterOk, LaterErr, LaterDrop, Secret, Dead, WrongType, OtherType, StopSelf, KillSelf]
};

fn outcomes() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let (op, route, case) = (OPS[choose(4)], ROUTES[choose(3)], CASES[choose(20)]);
            let node = node(cfg(route));
            *res2.lock().unwrap() = Some((op, route, case));
            let mut m = q(1, K::Ok);
            match case {
                Case::Rich => m.data = rich(),
                Case::Err => m.k = K::Err,
                Case::Panic => m.k = K::Panic,
                Case::MsgSer => m.me.0 = 1,
                Case::MsgDe => m.me.0 = 2,
                Case::RepSer => m.reply = 1,
                Case::RepDe => m.reply = 2,
                Case::ErrSer => (m.k, m.reply) = (K::Err, 1),
                Case::ErrDe => (m.k, m.reply) = (K::Err, 2),
                _ => {}
            }
            let a = n("a", NC::default(), Mb::B(3));
            let b = o("b", NC::default(), Mb::B(3));
            let fa = prepare(async {
                let f = reach(route, &node, &a).await;
                if case == Case::Dead {
                    kill(&a);
                    a.wait_for_stop().await;
                }
                f
            })
            .await;
            if matches!(case, Case::WrongType | Case::OtherType) {
                // an entry that says the actor is of another type than it is; and another actor, of a
                // type with the same message
                let fb = prepare(async {
                    let f = reach(route, &node, &b).await;
                    if case == Case::OtherType {
                        return f;
                    }
                    a.register("x").await.unwrap();
                    let mut v = match node.dht.lock().unwrap().get(&b"x"[..]).cloned() {
                        Some(r) => r.value,
                        None => vec![],
                    };
                    if v.is_empty() {
                        v = node.on_node(|_, s| s.behaviour_mut().stored(&kad_key("x"))).await.unwrap().value;
                    }
                    if route == Route::Far {
                        v = mirrored(v);
                    }
                    let at = v.windows(2).rposition(|w| w == b"na").expect("the type's id is in the entry");
                    v[at..at + 2].copy_from_slice(b"nb");
                    node.publish("y", v);
                    RemoteActorRef::<_>::lookup("y").await.unwrap().unwrap()
                })
                .await;
                client("c", async move {
                    let s = send_q(&fb, op, m, None, None).await;
                    ev("c", "got", 0, s);
                });
            } else {
                client("c", async move {
                    let s = match case {
                        Case::Plain => send_any(&fa, op, Plain(14)).await,
                        Case::LaterOk => send_any(&fa, op, Later { id: 1, ok: true, drop: false }).await,
                        Case::LaterErr => send_any(&fa, op, Later { id: 1, ok: false, drop: false }).await,
                        Case::LaterDrop => send_any(&fa, op, Later { id: 1, ok: true, drop: true }).await,
                        Case::Secret => send_any(&fa, op, Secret).await,
                        Case::StopSelf => send_any(&fa, op, StopIt(false)).await,
                        Case::KillSelf => send_any(&fa, op, StopIt(true)).await,
                        _ => send_q(&fa, op, m, None, None).await,
                    };
                    ev("c", "got", 0, s);
                });
            }
            mcrt::settle();
            // whatever that was, the node goes on
            let z = n("z", NC::default(), Mb::U);
            prepare(async {
                let f = reach(route, &node, &z).await;
                ev("z", "got", 0, send_any(&f, Op::Ask, Plain(5)).await);
            })
            .await;
        },
        move |f, l, v| {
            sane(f, v);
            let Some((op, route, case)) = *res.lock().unwrap() else { return };
            let what = format!("{op:?} {route:?} {case:?}");
            let got = l.get("c", "got").map(|e| e.s.clone()).unwrap_or("nothing".into());
            let rep = |d: Data, n: u32| format!("ok {:?}", Rep { v: n, f: Fussy(0), data: d });
            let rerr = format!("handler {:?}", RErr { opt: None, v: 1, f: Fussy(0) });
            let told = "ok ()".to_string();
            let is = |asked: String| vec![if op.ask() { asked } else { told.clone() }];
            use Case::*;
            let want: Vec<String> = match case {
                Ok => is(rep(Data::default(), 1001)),
                Rich => is(rep(rich(), 1001)),
                Err | LaterErr => is(rerr),
                Panic => is("Stopped".into()),
                MsgSer => vec!["SerializeMessage".into()],
                MsgDe => vec!["DeserializeMessage".into()],
                RepSer => is("SerializeReply".into()),
                // there is no better name for a reply the caller cannot read
                RepDe => is("DeserializeMessage".into()),
                ErrSer => is("SerializeHandlerError".into()),
                ErrDe => is("DeserializeHandlerError".into()),
                Plain => is("ok 42".into()),
                LaterOk => is(rep(Data::default(), 1001)),
                LaterDrop => is("Stopped".into()),
                Secret => vec!["UnknownMessage na secret".into()],
                Dead => vec!["NotRunning".into()],
                WrongType => vec!["BadActorType".into()],
                OtherType => is(rep(Data::default(), 101_001)),
                StopSelf => is("ok ()".into()),
                // its reply is given, or the kill comes first
                KillSelf => vec!["ok ()".into(), if op.ask() { "Stopped".into() } else { told.clone() }],
            };
            if !want.contains(&got) {
                v.push(format!("{what}: the caller got '{got}', expected {want:?}"));
            }
            let begun = l.countk("a", "begin") + l.countk("a", "plain") + l.countk("a", "secret") + l.countk("a", "stop-it");
            let want_begun = match case {
                MsgSer | MsgDe | Secret | Dead | WrongType | OtherType => 0,
                _ => 1,
            };
            if begun != want_begun {
                v.push(format!("{what}: handled {begun} times, expected {want_begun}"));
            }
            if l.countk("b", "begin") != (case == OtherType) as usize {
                v.push(format!("{what}: the other actor handled {} messages", l.countk("b", "begin")));
            }
            let z = l.get("z", "got").map(|e| e.s.clone()).unwrap_or_default();
            if z != "ok 15" {
                v.push(format!("{what}: afterwards the node answered '{z}'"));
            }
            // no panic but the handler's, in the actor that panics
            // a told failure or panic stops the actor, which is as local
            let stopped = l.countk("a", "stop") > 0;
            let stops = match case {
                Panic | StopSelf | KillSelf | Dead => true,
                Err | ErrSer | ErrDe => !op.ask(),
                LaterErr => false,
                _ => false,
            };
            if stopped != stops {
                v.push(format!("{what}: actor stopped: {stopped}, expected {stops}"));
            }
            no_panics(f, v);
        },
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Jam {
    /// mailbox full, room at 50 ms
    Full,
    /// the handler answers at 50 ms
    Slow,
    /// startup ends at 50 ms, mailbox has room
    Starting,
}
fn waits() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let op = OPS[choose(4)];
            let route = [Route::Far, Route::Own][choose(2)];
            let jam = [Jam::Full, Jam::Slow, Jam::Starting][choose(3)];
            // up to a hundred years, and for ever
            let t = |n| [None, Some(0), Some(10), Some(100), Some(3_153_600_000_000), Some(u64::MAX)][n];
            let mt = if op.tries() { None } else { t(choose(6)) };
            let rt = if op.ask() { t(choose(6)) } else { None };
            *res2.lock().unwrap() = Some((op, route, jam, mt, rt));
            let node = node(NetCfg { delays: false, ..cfg(route) });
            let a = n("a", NC { start_gate: jam == Jam::Starting, ..NC::default() }, Mb::B(if jam == Jam::Starting { 2 } else { 1 }));
            let f = prepare(async {
                let f = reach(route, &node, &a).await;
                if jam != Jam::Starting {
                    mcrt::quiesce();
                }
                if jam == Jam::Full {
                    a.tell(q(8, K::Wait)).await.unwrap();
                    mcrt::quiesce();
                    a.tell(q(9, K::Ok)).await.unwrap();
                }
                f
            })
            .await;
            let t0 = mcrt::now_nanos();
            let h = client("c", async move {
                let k = if jam == Jam::Slow { K::Wait } else { K::Ok };
                let s = send_q(&f, op, q(1, k), mt, rt).await;
                ev("c", "got", ((mcrt::now_nanos() - t0) / 1_000_000) as i64, s);
            });
            client("opener", async move {
                tokio::time::sleep(Duration::from_millis(50)).await;
                open_gate(1);
            });
            let _ = h.await;
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((op, route, jam, mt, rt)) = *res.lock().unwrap() else { return };
            let what = format!("{op:?} {route:?} {jam:?} mailbox {mt:?} reply {rt:?}");
            let Some(e) = l.get("c", "got") else { return };
            let ok = if op.ask() { format!("ok {:?}", Rep { v: 1001, f: Fussy(0), data: Data::default() }) } else { "ok ()".into() };
            // (outcome, at which ms)
            let want: (String, i64) = match jam {
                Jam::Full if op.tries() => ("Full".into(), 0),
                Jam::Full if matches!(mt, Some(0 | 10)) => ("Timeout".into(), mt.unwrap() as i64),
                // an enqueued request is then answered at once
                Jam::Full => match rt {
                    // the reply timeout starts with the wait for a reply, which here is after the mailbox
                    _ => (ok, 50),
                },
                Jam::Slow | Jam::Starting if !op.ask() => (ok, 0),
                Jam::Slow | Jam::Starting if matches!(rt, Some(0 | 10)) => ("Timeout".into(), rt.unwrap() as i64),
                Jam::Slow | Jam::Starting => (ok, 50),
            };
            // no time at all for the reply, which may be there already
            let at_once = jam == Jam::Full && want.1 == 50 && rt == Some(0);
            if (e.s.clone(), e.n) != want && !(at_once && e.s == "Timeout" && e.n == 50) {
                v.push(format!("{what}: got '{}' after {} ms, expected '{}' after {} ms", e.s, e.n, want.0, want.1));
            }
            let begun = l.count("a", "begin", 1);
            let mut ok_begun = vec![match want.0.as_str() {
                "Full" => 0,
                _ => 1,
            }];
            if want.0 == "Timeout" && jam == Jam::Full {
                ok_begun = vec![0];
            }
            if jam == Jam::Starting {
                ok_begun = vec![0, 1];
            }
            if !ok_begun.contains(&begun) {
                v.push(format!("{what}: handled {begun} times, expected {ok_begun:?}"));
            }
        },
    )
}

static FATE: Mutex<Fate> = Mutex::new(Fate::Deliver);
fn failures() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let what = choose(7);
            let k = choose(FAILURES as usize + 1) as u8;
            let answer = choose(2) == 1;
            let fate = match (k, answer) {
                (5, _) => Fate::Deliver,
                (k, true) => Fate::LoseAnswer(k),
                (k, false) => Fate::Lose(k),
            };
            *res2.lock().unwrap() = Some((what, k, answer));
            let node = node(NetCfg { fate: |_, _| *FATE.lock().unwrap(), ..NetCfg::default() });
            let a = n("a", NC::default(), Mb::B(3));
            let b = n("b", NC::default(), Mb::B(3));
            // k = 5: the peer is not there at all
            let f = prepare(async {
                let f = far(&node, &a).await;
                if k != 5 {
                    return f;
                }
                let mut v = node.dht.lock().unwrap().get(&b"far"[..]).cloned().unwrap().value;
                mirror_to(&mut v, r(), nobody());
                node.publish("none", v);
                RemoteActorRef::<N>::lookup("none").await.unwrap().unwrap()
            })
            .await;
            *FATE.lock().unwrap() = fate;
            let b2 = b.clone();
            client("c", async move {
                let s = match what {
                    0..=3 => send_q(&f, OPS[what], q(1, K::Ok), None, None).await,
                    4 => rres(&b2.link_remote(&f).await),
                    5 => rres(&b2.unlink_remote(&f).await),
                    _ => {
                        // the death of a linked actor cannot be reported: the actor stops all the same
                        *FATE.lock().unwrap() = if k == 5 { Fate::Deliver } else { Fate::Deliver };
                        let _ = b2.link_remote(&f).await;
                        *FATE.lock().unwrap() = fate;
                        kill(&b2);
                        b2.wait_for_stop().await;
                        "gone".into()
                    }
                };
                ev("c", "got", 0, s);
            });
            mcrt::settle();
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((what, k, answer)) = *res.lock().unwrap() else { return };
            let label = format!("{} {} {}", ["ask", "try_ask", "tell", "try_tell", "link", "unlink", "died"][what], if answer { "answer" } else { "request" }, k);
            let got = l.get("c", "got").map(|e| e.s.clone()).unwrap_or_default();
            let want = match (what, k) {
                (6, _) => "gone",
                (_, 0) | (_, 5) => "DialFailure",
                (_, 1) => "NetworkTimeout",
                (_, 2) => "ConnectionClosed",
                (_, 3) => "UnsupportedProtocols",
                _ => "Io true",
            };
            if got != want {
                v.push(format!("{label}: got '{got}', expected '{want}'"));
            }
            let begun = l.count("a", "begin", 1);
            let want_begun = (what < 4 && answer && k != 5) as usize;
            if begun != want_begun {
                v.push(format!("{label}: handled {begun} times, expected {want_begun}"));
            }
        },
    )
}
pub fn mirror_to(v: &mut [u8], from: libp2p::PeerId, to: libp2p::PeerId) {
    let (x, y) = (from.to_bytes(), to.to_bytes());
    let at = v.windows(x.len()).position(|w| w == x).expect("peer in entry");
    v[at..at + x.len()].copy_from_slice(&y);
}

fn concurrent() -> Program {
    let res = Arc::new(Mutex::new(false));
    let res2 = res.clone();
    prog(
        move || async move {
            let two = choose(2) == 1;
            let hold = choose(2) == 1;
            *res2.lock().unwrap() = two;
            let node = node(NetCfg { fate: |_, _| *FATE.lock().unwrap(), ..NetCfg::default() });
            let a = n("a", NC::default(), Mb::B(1));
            let b = o("b", NC::default(), Mb::B(1));
            let (fa, fb) = prepare(async { (far(&node, &a).await, far(&node, &b).await) }).await;
            if hold {
                *FATE.lock().unwrap() = Fate::Hold;
            }
            let fa2 = fa.clone();
            client("c", async move {
                ev("c", "got", 1, send_q(&fa, Op::Ask, q(1, K::Ok), None, None).await);
                if !hold {
                    ev("c", "got", 2, send_q(&fa, Op::Ask, q(2, K::Err), None, None).await);
                }
            });
            client("d", async move {
                if two {
                    ev("d", "got", 3, send_q(&fb, Op::Ask, q(3, K::Ok), None, None).await);
                } else {
                    ev("d", "got", 3, send_q(&fa2, Op::Tell, q(3, K::Ok), None, None).await);
                }
                if !hold {
                    ev("d", "got", 4, send_q(&fa2, Op::Ask, q(4, K::Ok), None, None).await);
                }
            });
            if hold {
                mcrt::settle();
                if choose(2) == 0 {
                    node.release()
                } else {
                    node.release_reversed()
                }
            }
            mcrt::settle();
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let two = *res.lock().unwrap();
            let ok = |n: u32| format!("ok {:?}", Rep { v: n, f: Fussy(0), data: Data::default() });
            for e in l.0.iter().filter(|e| e.what == "got") {
                let want = match e.n {
                    1 => ok(1001),
                    2 => format!("handler {:?}", RErr { opt: None, v: 2, f: Fussy(0) }),
                    3 if two => ok(101_003),
                    3 => "ok ()".into(),
                    _ => ok(1004),
                };
                if e.s != want {
                    v.push(format!("request {} got '{}', expected '{want}'", e.n, e.s));
                }
                let who = if e.n == 3 && two { "b" } else { "a" };
                if l.count(who, "begin", e.n) != 1 {
                    v.push(format!("request {} was handled {} times", e.n, l.count(who, "begin", e.n)));
                }
            }
            // a caller that waits for one answer before the next request has them handled in that order
            for (x, y) in [(1, 2), (3, 4)] {
                if let (Some(i), Some(j)) = (l.pos("a", "begin", x), l.pos("a", "begin", y)) {
                    if i > j {
                        v.push(format!("request {y} was handled before {x}"));
                    }
                }
            }
        },
    )
}

fn stop_race() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let op = OPS[choose(4)];
            let end = choose(3);
            let route = [Route::Far, Route::Own][choose(2)];
            *res2.lock().unwrap() = Some((op, end));
            let node = node(NetCfg { delays: false, ..cfg(route) });
            let a = n("a", NC::default(), Mb::B(2));
            let f = prepare(async { reach(route, &node, &a).await }).await;
            client("c", async move {
                let s = send_q(&f, op, q(1, K::Yield(1)), None, None).await;
                ev("c", "got", 0, s);
            });
            client("k", async move {
                match end {
                    0 => kill(&a),
                    1 => {
                        let _ = a.stop_gracefully().await;
                    }
                    _ => {
                        let _ = a.tell(q(2, K::Panic)).await;
                    }
                }
                a.wait_for_stop().await;
                ev("k", "done", 0, "");
            });
            mcrt::settle();
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((op, end)) = *res.lock().unwrap() else { return };
            let got = l.get("c", "got").map(|e| e.s.clone()).unwrap_or_default();
            let (begun, done) = (l.count("a", "begin", 1), l.count("a", "end", 1));
            if begun > 1 {
                v.push(format!("handled {begun} times"));
            }
            let ok = if op.ask() { format!("ok {:?}", Rep { v: 1001, f: Fussy(0), data: Data::default() }) } else { "ok ()".into() };
            let fits = match got.as_str() {
                "NotRunning" => begun == 0,
                "Stopped" => op.ask() && done == 0,
                "Full" => false,
                s if s == ok => !op.ask() || done == 1,
                _ => false,
            };
            if !fits {
                v.push(format!("{op:?} against {}: got '{got}', begun {begun}, ended {done}", ["kill", "stop", "panic"][end]));
            }
        },
    )
}

/// While a request waits for its actor, the node does everything else; and the actor can end.
fn blocked() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let op = [Op::Ask, Op::Tell][choose(2)];
            let jam = [Jam::Full, Jam::Slow, Jam::Starting][choose(3)];
            let route = [Route::Far, Route::Own][choose(2)];
            let act = choose(9);
            *res2.lock().unwrap() = Some((op, jam, route, act));
            let node = node(NetCfg { delays: false, ..cfg(route) });
            let a = n("a", NC { start_gate: jam == Jam::Starting, ..NC::default() }, Mb::B(1));
            let b = n("b", NC::default(), Mb::B(1));
            let (fa, fb) = prepare(async {
                let (fa, fb) = match route {
                    Route::Far => (far_at(&node, &a, "a", r()).await, far_at(&node, &b, "b", r()).await),
                    _ => {
                        a.register("a").await.unwrap();
                        b.register("b").await.unwrap();
                        (RemoteActorRef::<N>::lookup("a").await.unwrap().unwrap(), RemoteActorRef::<N>::lookup("b").await.unwrap().unwrap())
                    }
                };
                if jam == Jam::Full {
                    mcrt::quiesce();
                    a.tell(q(8, K::Wait)).await.unwrap();
                    mcrt::quiesce();
                }
                if jam == Jam::Full || jam == Jam::Starting {
                    a.tell(q(9, K::Ok)).await.unwrap();
                }
                (fa, fb)
            })
            .await;
            let (fa2, a2, b2) = (fa.clone(), a.clone(), b.clone());
            client("c", async move {
                let k = if jam == Jam::Slow { K::Wait } else { K::Ok };
                let s = send_q(&fa, op, q(1, k), None, None).await;
                ev("c", "got", 0, s);
            });
            client("d", async move {
                let s = match act {
                    0 => send_any(&fb, Op::Ask, Plain(5)).await,
                    1 => send_any(&fb, Op::TryTell, Plain(5)).await,
                    2 => {
                        kill(&a2);
                        a2.wait_for_stop().await;
                        "gone".into()
                    }
                    3 => {
                        kill(&b2);
                        b2.wait_for_stop().await;
                        "gone".into()
                    }
                    4 => format!("{:?}", b2.register("b again").await.is_ok()),
                    5 => format!("{:?}", RemoteActorRef::<N>::lookup("b").await.unwrap().is_some()),
                    6 => format!("{:?}", ActorRef::<N>::lookup("b").await.unwrap().is_some()),
                    7 => format!("{:?}", b2.link_remote(&fa2).await.is_ok()),
                    _ => {
                        let x = b2.link_remote(&fa2).await.is_ok();
                        format!("{:?}", x && b2.unlink_remote(&fa2).await.is_ok())
                    }
                };
                ev("d", "did", 0, s);
            });
            mcrt::settle();
            ev("main", "open", 0, "");
            open_gate(4);
            mcrt::settle();
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((op, jam, route, act)) = *res.lock().unwrap() else { return };
            let what = format!("{op:?} {jam:?} {route:?} and {}", ["ask another", "try_tell another", "kill", "kill another", "register", "lookup", "lookup local", "link", "link and unlink"][act]);
            let want = match act {
                0 => "ok 15",
                1 => "ok ()",
                2 | 3 => "gone",
                _ => "true",
            };
            match (l.pos("d", "did", 0), l.pos("main", "open", 0)) {
                // an actor that is starting up is killed once it has started
                (Some(i), Some(o)) if i < o || (act == 2 && jam == Jam::Starting) => {
                    let got = &l.0[i].s;
                    if got != want {
                        v.push(format!("{what}: the other thing gave '{got}', expected '{want}'"));
                    }
                }
                (i, _) => v.push(format!("{what}: the other thing was {} while the request waited", if i.is_some() { "held up" } else { "never done" })),
            }
            let got = l.get("c", "got").map(|e| e.s.clone()).unwrap_or("nothing".into());
            let ok = if op.ask() { format!("ok {:?}", Rep { v: 1001, f: Fussy(0), data: Data::default() }) } else { "ok ()".into() };
            let fits = match act {
                2 => match got.as_str() {
                    "NotRunning" => true,
                    "Stopped" => op.ask(),
                    s => s == ok && (!op.ask() || l.count("a", "end", 1) == 1),
                },
                _ => got == ok,
            };
            if !fits {
                v.push(format!("{what}: the request got '{got}'"));
            }
        },
    )
}

/// Sends raw bytes as the peer's request, returns what goes back over the wire.
pub async fn raw(node: &NodeRef, bytes: Vec<u8>) -> Option<SwarmResponse> {
    let (tx, rx) = tokio::sync::oneshot::channel();
    node.send(Net::Raw { bytes, tx });
    rx.await.ok()
}

/// A request of a peer that is gone before it is answered.
pub fn raw_gone(node: &NodeRef, bytes: Vec<u8>) {
    let (tx, _) = tokio::sync::oneshot::channel();
    node.send(Net::Raw { bytes, tx });
}

fn garbage() -> Program {
    prog(
        move || async move {
            let mode = choose(5);
            let part = choose(16);
            let node = node(NetCfg { delays: false, ..NetCfg::default() });
            let a = n("a", NC::default(), Mb::U);
            let f = prepare(far(&node, &a)).await;
            mcrt::calm(true);
            let mut m = q(1, K::Ok);
            m.data = rich();
            let id = a.id();
            let good = to_payload(&m);
            let ask = |payload: Vec<u8>| SwarmRequest::Ask {
                actor_id: id,
                actor_remote_id: "na".into(),
                message_remote_id: "q".into(),
                payload,
                mailbox_timeout: None,
                reply_timeout: None,
                immediate: false,
            };
            let mut cases: Vec<Vec<u8>> = vec![];
            match mode {
                // payloads: cut, extended, every byte changed to each of a set of values
                0 => {
                    for i in 0..good.len() {
                        cases.push(good[..i].to_vec());
                    }
                    for i in 0..=255u8 {
                        cases.push(vec![i]);
                    }
                }
                1 => {
                    for i in 0..good.len() {
                        for x in [0u8, 1, 0x7f, 0x80, 0x90, 0xa0, 0xc0, 0xc1, 0xd9, 0xde, 0xff] {
                            let mut b = good.clone();
                            b[i] = x;
                            cases.push(b);
                        }
                    }
                }
                // whole messages on the wire, likewise
                2 | 3 => {
                    let w = encode_request(ask(good.clone())).unwrap();
                    if mode == 2 {
                        for i in 0..w.len() {
                            cases.push(w[..i].to_vec());
                        }
                    } else {
                        for i in 0..w.len() {
                            for x in [0u8, 0x1b, 0x3b, 0x5b, 0x7b, 0x9b, 0xbb, 0xf6, 0xff] {
                                let mut b = w.clone();
                                b[i] = x;
                                cases.push(b);
                            }
                        }
                    }
                }
                // answers
                _ => {
                    let rep = to_payload(&Rep { v: 5, f: Fussy(0), data: rich() });
                    for i in 0..rep.len() {
                        cases.push(rep[..i].to_vec());
                        for x in [0u8, 0x7f, 0x80, 0xc1, 0xff] {
                            let mut b = rep.clone();
                            b[i] = x;
                            cases.push(b);
                        }
                    }
                }
            }
            let mut tried = 0;
            for (i, c) in cases.into_iter().enumerate().filter(|(i, _)| i % 16 == part) {
                tried += 1;
                if mode == 4 {
                    // the caller's ask is answered with these bytes
                    node.answer_with(SwarmResponse::Ask(if i % 2 == 0 { Ok(c) } else { Err(RemoteSendError::HandlerError(c)) }));
                    let s = send_q(&f, Op::Ask, q(7, K::Ok), None, None).await;
                    if !(s.starts_with("ok") || s.starts_with("handler") || s.starts_with("DeserializeMessage") || s.starts_with("DeserializeHandlerError")) {
                        fail(format!("garbage mode 4 case {i}: {s}"));
                    }
                    continue;
                }
                let bytes = if mode < 2 { encode_request(ask(c)).unwrap() } else { c };
                let before = log().countk("a", "begin");
                let r = raw(&node, bytes).await;
                let handled = log().countk("a", "begin") - before;
                use RemoteSendError::*;
                let fits = match &r {
                    None => mode >= 2 && handled == 0,
                    Some(SwarmResponse::Ask(Ok(_))) => handled == 1,
                    Some(SwarmResponse::Ask(Err(HandlerError(_)))) => handled == 1,
                    Some(SwarmResponse::Ask(Err(SerializeReply(_) | SerializeHandlerError(_)))) => handled == 1,
                    Some(SwarmResponse::Ask(Err(ActorStopped))) => handled == 1,
                    Some(SwarmResponse::Ask(Err(DeserializeMessage(_)))) => handled == 0,
                    Some(SwarmResponse::Ask(Err(ActorNotRunning | UnknownMessage { .. } | BadActorType | MailboxFull | ReplyTimeout))) => handled == 0,
                    Some(_) => mode >= 2,
                };
                if !fits {
                    fail(format!("garbage mode {mode} case {i}: {:?}, handled {handled}", r));
                }
                if mode < 2 && handled == 0 && !matches!(&r, Some(SwarmResponse::Ask(Err(DeserializeMessage(_))))) {
                    fail(format!("garbage mode {mode} case {i}: undecodable payload, but {r:?}"));
                }
                if a.is_alive() == false {
                    break; // the bytes said: panic
                }
            }
            ev("h", "tried", tried, "");
            let z = n("z", NC::default(), Mb::U);
            let f = far(&node, &z).await;
            ev("z", "got", 0, send_any(&f, Op::Ask, Plain(5)).await);
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.get("z", "got").map(|e| e.s.as_str()) != Some("ok 15") {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}

pub fn to_payload<T: serde::Serialize>(t: &T) -> Vec<u8> {
    rmp_serde::to_vec_named(t).unwrap()
}

fn wire_values() -> Program {
    prog(
        move || async move {
            let _node = node(NetCfg::default());
            let ids = [ActorID::new(0), ActorID::new(u64::MAX), ActorID::new_with_peer_id(1, r()), ActorID::new_with_peer_id(23, l()), ActorID::new_with_peer_id(u64::MAX - 1, nobody())];
            let strs = ["", "na", "a::b::<C>", "\u{1F980}\0x"];
            let pays: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255; 24], (0..=255).collect(), vec![7; 70_000]];
            let durs = [None, Some(Duration::ZERO), Some(Duration::from_nanos(1)), Some(Duration::new(u64::MAX, 999_999_999)), Some(Duration::from_millis(1500))];
            let mut why: Vec<ActorStopReason> = vec![
                ActorStopReason::Normal,
                ActorStopReason::Killed,
                ActorStopReason::PeerDisconnected,
                ActorStopReason::Panicked(PanicError::new(Box::new("boom"))),
                ActorStopReason::Panicked(PanicError::new(Box::new("panicked".to_string()))),
                ActorStopReason::Panicked(PanicError::new(Box::new(String::new()))),
            ];
            for i in 0..12 {
                let inner = why[i].clone();
                why.push(ActorStopReason::LinkDied { id: ids[i % ids.len()], reason: Box::new(inner) });
            }
            let mut n = 0;
            let mut req = |q: SwarmRequest, again: &dyn Fn(&SwarmRequest) -> bool| {
                let d = format!("{q:?}");
                n += 1;
                let b = match encode_request(q) {
                    Ok(b) => b,
                    Err(e) => return fail(format!("cannot be sent: {d}: {e}")),
                };
                match decode_request(&b) {
                    Ok(x) if format!("{x:?}") != d || !again(&x) => fail(format!("sent {d}, arrived {x:?}")),
                    Ok(_) => {}
                    Err(e) => fail(format!("cannot be received: {d}: {e}")),
                }
            };
            let t = |_: &SwarmRequest| true;
            for id in ids {
                for s in strs {
                    for p in &pays {
                        for imm in [false, true] {
                            for (i, d) in durs.iter().enumerate() {
                                let d2 = durs[(i + 1) % durs.len()];
                                req(SwarmRequest::Ask { actor_id: id, actor_remote_id: s.into(), message_remote_id: strs[i % 4].into(), payload: p.clone(), mailbox_timeout: *d, reply_timeout: d2, immediate: imm }, &t);
                                req(SwarmRequest::Tell { actor_id: id, actor_remote_id: s.into(), message_remote_id: strs[i % 4].into(), payload: p.clone(), mailbox_timeout: *d, immediate: imm }, &t);
                            }
                        }
                    }
                    for id2 in ids {
                        req(SwarmRequest::Link { actor_id: id, actor_remote_id: s.into(), sibbling_id: id2, sibbling_remote_id: "o".into() }, &t);
                        req(SwarmRequest::Unlink { actor_id: id, actor_remote_id: s.into(), sibbling_id: id2 }, &t);
                    }
                }
                for w in &why {
                    let text = reason_full(w);
                    let same = move |q: &SwarmRequest| match q {
                        SwarmRequest::SignalLinkDied { stop_reason, .. } => {
                            if reason_full(stop_reason) != text {
                                fail(format!("reason sent: {text}; arrived: {}", reason_full(stop_reason)));
                            }
                            true
                        }
                        _ => false,
                    };
                    req(SwarmRequest::SignalLinkDied { dead_actor_id: id, notified_actor_id: ids[2], notified_actor_remote_id: "na".into(), stop_reason: w.clone() }, &same);
                }
            }
            let mut res = |q: SwarmResponse| {
                let d = format!("{q:?}");
                n += 1;
                let b = match encode_response(q) {
                    Ok(b) => b,
                    Err(e) => return fail(format!("cannot be sent: {d}: {e}")),
                };
                match decode_response(&b) {
                    Ok(x) if format!("{x:?}") != d => fail(format!("sent {d}, arrived {x:?}")),
                    Ok(_) => {}
                    Err(e) => fail(format!("cannot be received: {d}: {e}")),
                }
            };
            for p in &pays {
                res(SwarmResponse::Ask(Ok(p.clone())));
                res(SwarmResponse::Ask(Err(RemoteSendError::HandlerError(p.clone()))));
            }
            for i in 0..17 {
                res(SwarmResponse::Ask(Err(err(i))));
                res(SwarmResponse::Tell(Err(err(i))));
                res(SwarmResponse::Link(Err(err(i))));
                res(SwarmResponse::Unlink(Err(err(i))));
                res(SwarmResponse::SignalLinkDied(Err(err(i))));
            }
            res(SwarmResponse::Tell(Ok(())));
            res(SwarmResponse::Link(Ok(())));
            res(SwarmResponse::Unlink(Ok(())));
            res(SwarmResponse::SignalLinkDied(Ok(())));
            ev("h", "values", n, "");
        },
        |f, _, v| sane(f, v),
    )
}
fn reason_full(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Panicked(e) => format!("Panicked[{e}][{:?}]", e.with_str(|s| s.to_string())),
        ActorStopReason::LinkDied { id, reason } => format!("LinkDied {id:?} {}", reason_full(reason)),
        r => format!("{r:?}"),
    }
}
fn err<E>(i: u32) -> RemoteSendError<E> {
    use RemoteSendError::*;
    let s = || "why \u{e9}".to_string();
    match i {
        0 => ActorNotRunning,
        1 => ActorStopped,
        2 => UnknownActor { actor_remote_id: "x".into() },
        3 => UnknownMessage { actor_remote_id: "".into(), message_remote_id: "m\u{1F980}".into() },
        4 => BadActorType,
        5 => MailboxFull,
        6 => ReplyTimeout,
        7 => SerializeMessage(s()),
        8 => DeserializeMessage(s()),
        9 => SerializeReply(s()),
        10 => SerializeHandlerError(s()),
        11 => DeserializeHandlerError(String::new()),
        12 => SwarmNotBootstrapped,
        13 => DialFailure,
        14 => NetworkTimeout,
        15 => ConnectionClosed,
        _ => UnsupportedProtocols,
    }
}

/// The text of an error, by hand.
fn shown(i: u32) -> String {
    let y = "why \u{e9}";
    match i {
        0 => "actor not running".into(),
        1 => "actor stopped".into(),
        2 => "unknown actor 'x'".into(),
        3 => "unknown message 'm\u{1F980}' for actor ''".into(),
        4 => "bad actor type".into(),
        5 => "mailbox full".into(),
        6 => "timeout".into(),
        7 => format!("failed to serialize message: {y}"),
        8 => format!("failed to deserialize message: {y}"),
        9 => format!("failed to serialize reply: {y}"),
        10 => format!("failed to serialize handler error: {y}"),
        11 => "failed to deserialize handler error: ".into(),
        12 => "swarm not bootstrapped".into(),
        13 => "dial failure".into(),
        14 => "network timeout".into(),
        15 => "connection closed".into(),
        _ => "unsupported protocols".into(),
    }
}
fn error_values() -> Program {
    prog(
        || async {
            use kameo::error::SendError;
            let kinds = 21;
            let i = choose(kinds as usize) as u32;
            let io = || std::io::Error::new(std::io::ErrorKind::Other, "disk");
            let make = |i: u32| -> RemoteSendError<u32> {
                match i {
                    17 => RemoteSendError::HandlerError(5),
                    18 => RemoteSendError::Io(None),
                    19 => RemoteSendError::Io(Some(io())),
                    20 => RemoteSendError::HandlerError(0),
                    i => err(i),
                }
            };
            for ops in 0..125 {
                let mut e = make(i);
                // what the handler's error has become
                let mut n = if i == 17 { 5u32 } else { 0 };
                for o in [ops % 5, ops / 5 % 5, ops / 25] {
                    e = match o {
                        0 => {
                            n += 1;
                            e.map_err(|x| x + 1)
                        }
                        1 => RemoteSendError::HandlerError(e).flatten(),
                        2 => e.map_err(RemoteSendError::<u32>::HandlerError).flatten(),
                        3 => e.map_err(|x| x.to_string()).map_err(|x| x.parse().unwrap()),
                        _ => e,
                    };
                }
                let want = match i {
                    17 | 20 => n.to_string(),
                    18 => "io error".into(),
                    19 => "disk".into(),
                    i => shown(i),
                };
                let same = std::mem::discriminant(&e) == std::mem::discriminant(&make(i));
                if e.to_string() != want || !same {
                    fail(format!("{:?} became {e:?}, shown as {e}", make(i)));
                }
                if matches!(i, 17 | 20) && !matches!(e, RemoteSendError::HandlerError(x) if x == n) {
                    fail(format!("a handler's error {n} became {e:?}"));
                }
            }
            // local errors
            let local: SendError<&str, u32> = match i {
                0 => SendError::ActorNotRunning("m"),
                1 => SendError::ActorStopped,
                2 => SendError::MailboxFull("m"),
                3 => SendError::HandlerError(4),
                4 => SendError::Timeout(None),
                5 => SendError::Timeout(Some("m")),
                _ => return,
            };
            let r: RemoteSendError<u32> = local.into();
            let ok = match i {
                0 => matches!(r, RemoteSendError::ActorNotRunning),
                1 => matches!(r, RemoteSendError::ActorStopped),
                2 => matches!(r, RemoteSendError::MailboxFull),
                3 => matches!(r, RemoteSendError::HandlerError(4)),
                _ => matches!(r, RemoteSendError::ReplyTimeout),
            };
            if !ok {
                fail(format!("{local:?} became {r:?}"));
            }
        },
        |f, _, v| sane(f, v),
    )
}
