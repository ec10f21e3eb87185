//! P17 (identity, current-actor test), P20 (recipients and weak references), P23 (customisation hooks).
use crate::kit::*;
use std::future::Future;
use kameo::error::SendError;
use kameo::mailbox::{MailboxReceiver, Signal};
use kameo::message::BoxMessage;
use kameo::reply::{BoxReplySender, ReplyError};

// ------------------------------------------------------------------------------------------------ P23
/// How the actor of P23 treats a message that `on_message` is asked to handle.
#[derive(Clone, Copy, PartialEq, Debug)]
enum OnMsg {
    Pass,
    /// suspends, then handles it
    Late,
    /// drops the message and its reply channel
    Swallow,
    /// does not handle it and fails
    Fail,
    Panic,
}
/// What the overridden `next` does.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Next {
    Pass,
    /// receives everything there is at once and hands it out one by one
    Batch,
    /// after its first message, ends the actor by returning nothing
    Quit,
}
struct H {
    on: OnMsg,
    nx: Next,
    batch: std::collections::VecDeque<Signal<H>>,
    given: usize,
    cont: bool,
}
impl Actor for H {
    type Error = TErr;
    async fn on_message(&mut self, msg: BoxMessage<Self>, r: ActorRef<Self>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
        let _b = Busy::enter("H-hook", "on_message");
        ev("H", "on_message", tx.is_some() as i64, if r.is_current() { "" } else { "not-current" });
        match self.on {
            OnMsg::Pass => msg.handle_dyn(self, r, tx).await,
            OnMsg::Late => {
                yield_now().await;
                msg.handle_dyn(self, r, tx).await
            }
            OnMsg::Swallow => Ok(()),
            OnMsg::Fail => Err(Box::new(TErr(77))),
            OnMsg::Panic => panic!("on_message panics"),
        }
    }
    async fn on_panic(&mut self, _r: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, TErr> {
        ev("H", "on_panic", 0, perr_text(&err));
        if self.cont {
            Ok(ControlFlow::Continue(()))
        } else {
            Ok(ControlFlow::Break(ActorStopReason::Panicked(err)))
        }
    }
    async fn next(&mut self, _r: WeakActorRef<Self>, rx: &mut MailboxReceiver<Self>) -> Option<Signal<Self>> {
        ev("H", "next", 0, "");
        let s = match self.nx {
            Next::Pass => rx.recv().await,
            Next::Batch => {
                if self.batch.is_empty() {
                    let mut v = vec![];
                    rx.recv_many(&mut v, 8).await;
                    self.batch.extend(v);
                }
                self.batch.pop_front()
            }
            Next::Quit => {
                if self.given > 0 {
                    None
                } else {
                    rx.recv().await
                }
            }
        };
        match &s {
            Some(Signal::Message { .. }) => {
                self.given += 1;
                ev("H", "given", 0, "message")
            }
            Some(Signal::Stop) => ev("H", "given", 0, "stop"),
            None => ev("H", "given", 0, "none"),
            _ => {}
        }
        s
    }
    async fn on_stop(&mut self, _r: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), TErr> {
        ev("H", "stop", 0, reason_text(&reason));
        Ok(())
    }
}
struct Q(u32);
impl Message<Q> for H {
    type Reply = Reply1;
    async fn handle(&mut self, q: Q, _c: &mut Context<Self, Reply1>) -> Reply1 {
        ev("H", "begin", q.0 as i64, "");
        Ok(q.0 + 1000)
    }
}

fn hooks() -> Scn {
    scn("P23", "message-hooks", 2, 3, "an actor that overrides on_message and next: messages passed, delayed, swallowed, failed, panicked; signals fetched one by one, in batches, or cut short", || {
        static PLAN: std::sync::OnceLock<(OnMsg, Next, bool)> = std::sync::OnceLock::new();
        prog(
            || async move {
                let on = [OnMsg::Pass, OnMsg::Late, OnMsg::Swallow, OnMsg::Fail, OnMsg::Panic][choose(5)];
                let nx = [Next::Pass, Next::Batch, Next::Quit][choose(3)];
                let cont = choose(2) == 1;
                let _ = PLAN.set((on, nx, cont));
                let mb = [Mb::B(2), Mb::U][choose(2)];
                let p = PreparedActor::new(mb.make());
                let a = p.actor_ref().clone();
                mcrt::set_next_name("H");
                p.spawn(H { on, nx, batch: Default::default(), given: 0, cont });
                let b = a.clone();
                client("c0", async move {
                    let r = b.tell(Q(10)).send().await;
                    ev("c0", "ret", 10, if r.is_ok() { "ok" } else { "err" });
                    let r = b.ask(Q(11)).send().await;
                    ev("c0", "ret", 11, res_text(&r));
                    let r = b.stop_gracefully().await;
                    ev("c0", "stopped", 0, if r.is_ok() { "ok" } else { "err" });
                });
                client("c1", async move {
                    let r = a.tell(Q(20)).send().await;
                    ev("c1", "ret", 20, if r.is_ok() { "ok" } else { "err" });
                });
            },
            |f, l, v| {
                all_done(f, v);
                let Some(&(on, nx, cont)) = PLAN.get() else { return };
                let given = l.0.iter().filter(|e| e.what == "given" && e.s == "message").count();
                let hooked = l.countk("H", "on_message");
                // every message that `next` hands out goes through on_message exactly once, unless the actor ended first
                let ended = matches!(on, OnMsg::Fail | OnMsg::Panic) && !cont;
                if hooked > given {
                    v.push(format!("on_message was called {hooked} times for {given} messages"));
                }
                if !ended && hooked != given {
                    v.push(format!("on_message was called {hooked} times for {given} messages"));
                }
                let begun = l.countk("H", "begin");
                let want = if matches!(on, OnMsg::Pass | OnMsg::Late) { hooked } else { 0 };
                if begun != want {
                    v.push(format!("{begun} messages were handled, on_message handles {want}"));
                }
                if l.0.iter().any(|e| e.what == "on_message" && e.s == "not-current") {
                    v.push("the actor is not current inside on_message".into());
                }
                // failures of on_message reach the failure hook
                let fails = l.ss("H", "on_panic");
                let wantf: Vec<String> = match on {
                    OnMsg::Fail => vec!["TErr77".into(); hooked],
                    OnMsg::Panic => vec!["str:on_message panics".into(); hooked],
                    _ => vec![],
                };
                if fails != wantf {
                    v.push(format!("the failure hook saw {fails:?} instead of {wantf:?}"));
                }
                if nx == Next::Quit && !ended {
                    // next() returned nothing: the actor stops
                    if given != 1 || l.ss("H", "given").iter().filter(|s| *s == "none").count() == 0 {
                        v.push(format!("next returned nothing after its first message, but {given} messages were taken"));
                    }
                }
                if nx != Next::Quit && !ended && given != 3 {
                    // 20 may come after the stop
                    let late = l.get("c1", "ret").is_some_and(|e| e.s == "err") || given == 2;
                    if !late {
                        v.push(format!("only {given} of 3 messages were taken out of the mailbox"));
                    }
                }
                if let Some(r) = l.pos("c0", "ret", 11).map(|p| l.0[p].s.clone()) {
                    let ok: &[&str] = match (on, nx, ended) {
                        (_, _, true) => &["Stopped", "NotRunning"],
                        (_, Next::Quit, _) => &["Stopped", "NotRunning", "ok1011"],
                        (OnMsg::Pass | OnMsg::Late, _, _) => &["ok1011"],
                        _ => &["Stopped"],
                    };
                    if !ok.contains(&r.as_str()) {
                        v.push(format!("the ask returned {r} (allowed {ok:?})"));
                    }
                }
                if l.countk("H", "stop") != 1 {
                    v.push(format!("the stop hook ran {} times", l.countk("H", "stop")));
                }
                let want = if ended {
                    if on == OnMsg::Fail { "Panicked:TErr77" } else { "Panicked:str:on_message panics" }
                } else {
                    "Normal"
                };
                if l.get("H", "stop").is_some_and(|e| e.s != want) {
                    v.push(format!("the actor stopped with {:?} instead of {want}", l.ss("H", "stop")));
                }
            },
        )
    })
}

// ------------------------------------------------------------------------------------------------ P17
fn cur(who: &'static str, place: &str, n: i64, r: &ActorRef<W>) {
    ev(who, "current", n, format!("{place}:{}", r.is_current()));
}
struct W {
    name: &'static str,
    other: Option<ActorRef<W>>,
}
impl W {
    fn look(&self, place: &str, me: &ActorRef<W>) {
        cur(self.name, place, 1, me);
        if let Some(o) = &self.other {
            cur(self.name, place, 0, o);
        }
        ev(self.name, "id", me.id().sequence_id() as i64, "");
    }
}
impl Actor for W {
    type Error = TErr;
    async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), TErr> {
        self.look("on_start", &r);
        yield_now().await;
        self.look("on_start after a suspension", &r);
        // a message to itself during start-up counts as sent within the actor
        let _ = r.tell(Look).try_send();
        Ok(())
    }
    async fn on_panic(&mut self, r: WeakActorRef<Self>, _err: PanicError) -> Result<ControlFlow<ActorStopReason>, TErr> {
        if let Some(r) = r.upgrade() {
            self.look("on_panic", &r);
        }
        Ok(ControlFlow::Continue(()))
    }
    async fn on_link_died(&mut self, r: WeakActorRef<Self>, _id: ActorID, _reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, TErr> {
        if let Some(r) = r.upgrade() {
            self.look("on_link_died", &r);
        }
        Ok(ControlFlow::Continue(()))
    }
    async fn on_stop(&mut self, r: WeakActorRef<Self>, _reason: ActorStopReason) -> Result<(), TErr> {
        if let Some(r) = r.upgrade() {
            self.look("on_stop", &r);
            yield_now().await;
            self.look("on_stop after a suspension", &r);
        }
        self.other = None;
        Ok(())
    }
}
struct Look;
impl Message<Look> for W {
    type Reply = ();
    async fn handle(&mut self, _: Look, c: &mut Context<Self, ()>) {
        let me = c.actor_ref();
        self.look("handler", &me);
        yield_now().await;
        self.look("handler after a suspension", &me);
    }
}
struct Boom;
impl Message<Boom> for W {
    type Reply = ();
    async fn handle(&mut self, _: Boom, _c: &mut Context<Self, ()>) {
        panic!("boom")
    }
}
/// Talks to the other actor from inside a handler; and looks from a task of its own.
struct Talk;
impl Message<Talk> for W {
    type Reply = ();
    async fn handle(&mut self, _: Talk, c: &mut Context<Self, ()>) {
        let me = c.actor_ref();
        if let Some(o) = self.other.clone() {
            let _ = o.ask(Look).send().await;
        }
        self.look("handler after an ask", &me);
        let m2 = me.clone();
        let j = client("outside", async move {
            cur("outside", "a task started by a handler", 0, &m2);
        });
        let _ = j.await;
        self.look("handler after a task", &me);
    }
}

/// Runs another actor to its end within a handler.
struct Nest(Option<(PreparedActor<W>, W, ActorRef<W>)>);
impl Message<Nest> for W {
    type Reply = ();
    async fn handle(&mut self, mut n: Nest, c: &mut Context<Self, ()>) {
        let me = c.actor_ref();
        self.look("handler before it runs another actor", &me);
        let (p, w, r) = n.0.take().unwrap();
        let mut run = Box::pin(p.run(w));
        // polled by turns with this handler's own code
        let mut polls = 0;
        std::future::poll_fn(|cx| {
            polls += 1;
            let x = run.as_mut().poll(cx);
            if polls < 30 {
                cur(self.name, "handler while it runs another actor", 1, &me);
                cur(self.name, "handler while it runs another actor", 0, &r);
            }
            x
        })
        .await;
        drop(run);
        cur(self.name, "handler after it ran another actor", 0, &r);
        self.look("handler after it ran another actor", &me);
    }
}
/// Looks from code that blocks.
struct Block;
impl Message<Block> for W {
    type Reply = ();
    async fn handle(&mut self, _: Block, c: &mut Context<Self, ()>) {
        let me = c.actor_ref();
        tokio::task::block_in_place(|| self.look("handler in block_in_place", &me));
        let m2 = me.clone();
        client_blocking("blocker", move || cur("blocker", "a blocking task started by a handler", 0, &m2)).await.unwrap();
        self.look("handler after a blocking task", &me);
    }
}
/// An actor with every hook overridden.
struct V2;
impl Actor for V2 {
    type Error = TErr;
    async fn next(&mut self, r: WeakActorRef<Self>, rx: &mut mailbox::MailboxReceiver<Self>) -> Option<mailbox::Signal<Self>> {
        let s = rx.recv().await;
        match r.upgrade() {
            Some(r) => ev("V2", "current", 1, format!("next:{}", r.is_current())),
            None => ev("V2", "current", 1, "next without references:true"),
        }
        s
    }
    async fn on_message(&mut self, m: kameo::message::BoxMessage<Self>, r: ActorRef<Self>, tx: Option<kameo::reply::BoxReplySender>) -> Result<(), Box<dyn kameo::reply::ReplyError>> {
        ev("V2", "current", 1, format!("on_message:{}", r.is_current()));
        yield_now().await;
        m.handle_dyn(self, r, tx).await
    }
}
impl Message<Look> for V2 {
    type Reply = ();
    async fn handle(&mut self, _: Look, c: &mut Context<Self, ()>) {
        let r = c.actor_ref();
        ev("V2", "current", 1, format!("handler:{}", r.is_current()));
        ev("V2", "current", 1, format!("handler, by a recipient:{}", r.clone().recipient::<Look>().is_current()));
        ev("V2", "current", 1, format!("handler, by an upgraded reference:{}", r.downgrade().upgrade().unwrap().is_current()));
    }
}

fn current_nested() -> Scn {
    scn("P17", "current-nested", 1, 2, "is_current where an actor is run within another one's handler, two are run by turns in one task, a handler blocks or starts a blocking task, and in overridden message and mailbox hooks", || {
        prog(
            || async move {
                let how = choose(3);
                let pa = PreparedActor::new(mailbox::unbounded());
                let pb = PreparedActor::new(mailbox::unbounded());
                let (a, b) = (pa.actor_ref().clone(), pb.actor_ref().clone());
                let wa = W { name: "A", other: Some(b.clone()) };
                let wb = W { name: "B", other: Some(a.clone()) };
                mcrt::set_next_name("V2");
                let v2 = spawn_with_mailbox(V2, mailbox::unbounded());
                match how {
                    0 => {
                        mcrt::set_next_name("A");
                        pa.spawn(wa);
                        let _ = a.tell(Nest(Some((pb, wb, b.clone())))).send().await;
                    }
                    1 => {
                        client("runner", async move {
                            futures::future::join(pa.run(wa), pb.run(wb)).await;
                        });
                    }
                    _ => {
                        client("runner", async move {
                            let mut ra = Box::pin(pa.run(wa));
                            let mut rb = Box::pin(pb.run(wb));
                            let mut done = (false, false);
                            std::future::poll_fn(|cx| {
                                done.0 = done.0 || ra.as_mut().poll(cx).is_ready();
                                done.1 = done.1 || rb.as_mut().poll(cx).is_ready();
                                done.0 = done.0 || ra.as_mut().poll(cx).is_ready();
                                if done == (true, true) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
                            })
                            .await;
                        });
                    }
                }
                for (n, x) in [("ca", a), ("cb", b)] {
                    let first = n == "cb" || how != 0;
                    client(n, async move {
                        let _ = x.tell(Look).send().await;
                        let _ = x.tell(Boom).send().await;
                        if first {
                            let _ = x.ask(Block).send().await;
                        }
                        cur(n, "client", 0, &x);
                        let _ = x.stop_gracefully().await;
                        x.wait_for_shutdown().await;
                        cur(n, "client after the end", 0, &x);
                    });
                }
                let _ = v2.ask(Look).send().await;
                ev("root", "current", 0, format!("root:{}", v2.is_current()));
            },
            |f, l, v| {
                all_done(f, v);
                for e in l.0.iter().filter(|e| e.what == "current") {
                    let (place, got) = e.s.split_once(':').unwrap();
                    if (got == "true") != (e.n == 1) {
                        v.push(format!("{place} of {} ({}): is_current is {got}", e.who, if e.n == 1 { "own reference" } else { "another actor's or an outside reference" }));
                    }
                }
                for w in ["A", "B", "V2"] {
                    if l.0.iter().filter(|e| e.what == "current" && e.who == w).count() < 5 {
                        v.push(format!("machinery: the hooks of {w} were not reached"));
                    }
                }
                v.sort();
                v.dedup();
            },
        )
    })
}

fn current() -> Scn {
    scn("P17", "current-actor", 1, 2, "is_current asked in every hook and handler of two actors, spawned as tasks, in threads or run in the caller's task, and from outside", || {
        prog(
            || async move {
                let how = choose(3);
                let pa = PreparedActor::new(mailbox::unbounded());
                let pb = PreparedActor::new(mailbox::unbounded());
                let (a, b) = (pa.actor_ref().clone(), pb.actor_ref().clone());
                name_id(a.id(), "A");
                name_id(b.id(), "B");
                mcrt::set_next_name("B");
                pb.spawn(W { name: "B", other: Some(a.clone()) });
                let act = W { name: "A", other: Some(b.clone()) };
                cur("root", "before the start", 0, &a);
                let mut th = None;
                match how {
                    0 => {
                        mcrt::set_next_name("A");
                        pa.spawn(act);
                    }
                    1 => {
                        mcrt::set_next_name("A");
                        th = Some(pa.spawn_in_thread(act));
                        mcrt::adopt_foreign("A");
                    }
                    _ => {
                        client("runner", async move {
                            pa.run(act).await;
                        });
                    }
                }
                let (a2, b2) = (a.clone(), b.clone());
                client("c", async move {
                    a2.link(&b2).await;
                    cur("c", "client", 0, &a2);
                    let _ = a2.tell(Talk).send().await;
                    let _ = a2.tell(Boom).send().await;
                    let _ = a2.ask(Look).send().await;
                    cur("c", "client after an ask", 0, &a2);
                    kill(&b2);
                    b2.wait_for_shutdown().await;
                    let _ = a2.ask(Look).send().await;
                    let _ = a2.stop_gracefully().await;
                    a2.wait_for_shutdown().await;
                    cur("c", "client after the end", 0, &a2);
                });
                drop((a, b));
                let _ = th;
            },
            |f, l, v| {
                all_done(f, v);
                for e in l.0.iter().filter(|e| e.what == "current") {
                    let (place, got) = e.s.split_once(':').unwrap();
                    let want = e.n == 1;
                    if (got == "true") != want {
                        v.push(format!("{place} ({}): is_current is {got}", if want { "own reference" } else { "another actor's or an outside reference" }));
                    }
                }
                for w in ["A", "B"] {
                    let mut ids = l.ns(w, "id");
                    ids.dedup();
                    if ids.len() > 1 {
                        v.push(format!("the identity of {w} changed: {ids:?}"));
                    }
                }
                if l.0.iter().filter(|e| e.what == "current" && e.who == "A").count() < 10 {
                    v.push("machinery: the hooks of A were not reached".into());
                }
                v.dedup();
            },
        )
    })
}

fn unique() -> Scn {
    scn("P17", "unique-ids", 2, 3, "two tasks create actor identities at the same time; preempted before any machine instruction", || {
        prog(
            || async move {
                for c in ["c0", "c1"] {
                    client_blocking(c, move || {
                        let ids = mcrt::stepped(mcrt::Step::All, || [ActorID::generate(), ActorID::generate()]);
                        for i in ids {
                            ev(c, "id", i.sequence_id() as i64, "");
                        }
                    });
                }
            },
            |f, l, v| {
                all_done(f, v);
                let mut ids: Vec<i64> = l.0.iter().filter(|e| e.what == "id").map(|e| e.n).collect();
                let n = ids.len();
                ids.sort();
                ids.dedup();
                if n != 4 || ids.len() != n {
                    v.push(format!("{n} identities were created, but only {} differ", ids.len()));
                }
            },
        )
    })
}

fn unique_actors() -> Scn {
    scn("P17", "unique-actors", 2, 3, "actors created concurrently through spawn, PreparedActor and from inside a handler; the identity is the same in every form of reference", || {
        prog(
            || async move {
                for c in ["c0", "c1"] {
                    let name = if c == "c0" { "A" } else { "B" };
                    client(c, async move {
                        let a = spawn_t(t(name), Mb::U);
                        let p = PreparedActor::<T>::new(mailbox::bounded(1));
                        let ids = [a.id(), a.clone().id(), a.downgrade().id(), a.clone().recipient::<M>().id(), a.downgrade().upgrade().unwrap().id()];
                        for i in ids {
                            ev(c, "same", i.sequence_id() as i64, "");
                        }
                        ev(c, "other", p.actor_ref().id().sequence_id() as i64, "");
                        let r = a
                            .ask(m_do(1, move |me| async move {
                                let x = PreparedActor::<T>::new(mailbox::unbounded());
                                ev(c, "same", me.id().sequence_id() as i64, "");
                                ev(c, "other", x.actor_ref().id().sequence_id() as i64, "");
                                Ok(1)
                            }))
                            .send()
                            .await;
                        let _ = r;
                    });
                }
            },
            |f, l, v| {
                all_done(f, v);
                let mut all = vec![];
                for c in ["c0", "c1"] {
                    let mut s = l.ns(c, "same");
                    if s.len() != 6 {
                        v.push("machinery: references missing".into());
                    }
                    s.dedup();
                    if s.len() != 1 {
                        v.push(format!("one actor has several identities: {s:?}"));
                    }
                    all.extend(s);
                    all.extend(l.ns(c, "other"));
                }
                let n = all.len();
                all.sort();
                all.dedup();
                if all.len() != n {
                    v.push("two actors share an identity".into());
                }
            },
        )
    })
}

// ------------------------------------------------------------------------------------------------ P20
enum Hd {
    A(ActorRef<T>),
    R(Recipient<M>),
    WA(WeakActorRef<T>),
    WR(WeakRecipient<M>),
}
impl Hd {
    fn strong(&self) -> bool {
        matches!(self, Hd::A(_) | Hd::R(_))
    }
    fn id(&self) -> ActorID {
        match self {
            Hd::A(h) => h.id(),
            Hd::R(h) => h.id(),
            Hd::WA(h) => h.id(),
            Hd::WR(h) => h.id(),
        }
    }
    fn counts(&self) -> (usize, usize) {
        match self {
            Hd::A(h) => (h.strong_count(), h.weak_count()),
            Hd::R(h) => (h.strong_count(), h.weak_count()),
            Hd::WA(h) => (h.strong_count(), h.weak_count()),
            Hd::WR(h) => (h.strong_count(), h.weak_count()),
        }
    }
    fn dup(&self) -> Hd {
        match self {
            Hd::A(h) => Hd::A(h.clone()),
            Hd::R(h) => Hd::R(h.clone()),
            Hd::WA(h) => Hd::WA(h.clone()),
            Hd::WR(h) => Hd::WR(h.clone()),
        }
    }
    fn text(&self) -> String {
        match self {
            Hd::A(h) => format!("{h:?}"),
            Hd::R(h) => format!("{h:?}"),
            Hd::WA(h) => format!("{h:?}"),
            Hd::WR(h) => format!("{h:?}"),
        }
    }
}

/// All conversions and drops of handles up to a depth, against a counting model.
fn handles() -> Scn {
    scn("P20", "handle-forms", 0, 0, "every sequence of five clones, conversions (to recipient, weak, strong) and drops of references, against counts of strong and weak handles; then the actor ends exactly when the model says so", || {
        prog(
            || async move {
                let mb = [Mb::B(2), Mb::U][choose(2)];
                let depth = 6;
                let a = spawn_t(t("A"), mb);
                let id = a.id();
                mcrt::settle();
                let base = a.weak_count();
                let mut hs = vec![Hd::A(a)];
                for step in 0..depth {
                    let strong = hs.iter().filter(|h| h.strong()).count();
                    if strong == 0 {
                        break;
                    }
                    // acts on the newest or on the oldest handle
                    let i = if hs.len() > 1 { [hs.len() - 1, 0][choose(2)] } else { 0 };
                    let opn = choose(3);
                    match opn {
                        0 => {
                            let d = hs[i].dup();
                            hs.push(d);
                        }
                        1 => {
                            // towards weak, or back
                            let n = match &hs[i] {
                                Hd::A(h) if step % 2 == 0 => Some(Hd::R(h.clone().recipient::<M>())),
                                Hd::A(h) => Some(Hd::WA(h.downgrade())),
                                Hd::R(h) => Some(Hd::WR(h.downgrade())),
                                Hd::WA(h) => h.upgrade().map(Hd::A),
                                Hd::WR(h) => h.upgrade().map(Hd::R),
                            };
                            match n {
                                Some(n) => hs.push(n),
                                None => fail("a weak reference could not be upgraded although a strong one exists"),
                            }
                        }
                        _ => {
                            hs.remove(i);
                        }
                    }
                    let strong = hs.iter().filter(|h| h.strong()).count();
                    let weak = hs.len() - strong;
                    if strong == 0 {
                        break;
                    }
                    for h in &hs {
                        let (s, w) = h.counts();
                        if s != strong || w != base + weak {
                            fail(format!("counts: a handle reports {s} strong, {} weak, but there are {strong} and {weak}", w as i64 - base as i64));
                        }
                        if h.id() != id {
                            fail("a converted reference denotes another actor");
                        }
                        if !h.text().contains(&format!("{id:?}")) {
                            fail("the debug form of a reference does not show its actor");
                        }
                    }
                }
                let strong = hs.iter().filter(|h| h.strong()).count();
                mcrt::settle();
                if strong > 0 {
                    if log().countk("A", "stop") > 0 {
                        fail("the actor stopped although a strong reference exists");
                    }
                    let r = match hs.iter().find(|h| h.strong()).unwrap() {
                        Hd::A(h) => h.tell(m(1)).try_send().is_ok() && h.is_alive(),
                        Hd::R(h) => h.tell(m(1)).try_send().is_ok() && h.is_alive(),
                        _ => unreachable!(),
                    };
                    if !r {
                        fail("a live actor rejects a message");
                    }
                    hs.retain(|h| !h.strong());
                    mcrt::settle();
                    if log().ns("A", "end") != [1] {
                        fail("a queued message was not handled before the actor stopped");
                    }
                }
                if log().countk("A", "stop") != 1 {
                    fail("the actor did not stop although only weak references are left");
                }
                for h in &hs {
                    let up = match h {
                        Hd::WA(h) => h.upgrade().is_some(),
                        Hd::WR(h) => h.upgrade().is_some(),
                        _ => false,
                    };
                    if up {
                        fail("a weak reference was upgraded after the actor stopped");
                    }
                    if h.counts().0 != 0 {
                        fail("a weak reference reports strong references after the actor stopped");
                    }
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Idle,
    Starting,
    Full,
    Stopped,
    Killed,
}

/// The same operation through every form of reference gives the same result.
fn same_results() -> Scn {
    scn("P20", "same-results", 1, 2, "every operation through a reference, a recipient, an upgraded weak reference and an upgraded weak recipient, against an actor that is idle, starting, full, stopped or killed", || {
        prog(
            || async move {
                let st = [St::Idle, St::Starting, St::Full, St::Stopped, St::Killed][choose(5)];
                let opn = choose(9);
                let mut res: Vec<String> = vec![];
                let gate = Arc::new(tokio::sync::Semaphore::new(0));
                let names = ["A0", "A1", "A2", "A3"];
                for form in 0..4 {
                    let name = names[form];
                    let g = gate.clone();
                    let hook: HookFn = Arc::new(move |_| {
                        let g = g.clone();
                        Box::pin(async move {
                            if st == St::Starting {
                                let _ = g.acquire().await;
                            }
                        })
                    });
                    let a = spawn_t(tc(name, Cfg { start_hook: Some(hook), ..Default::default() }), Mb::B(1));
                    mcrt::settle();
                    match st {
                        St::Full => {
                            let g = gate.clone();
                            a.tell(m_do(1, move |_| async move {
                                let _ = g.acquire().await;
                                Ok(1)
                            }))
                            .send()
                            .await
                            .unwrap();
                            mcrt::settle();
                            a.tell(m(2)).send().await.unwrap();
                        }
                        St::Stopped => {
                            a.stop_gracefully().await.unwrap();
                            a.wait_for_shutdown().await;
                            mcrt::settle();
                        }
                        St::Killed => {
                            kill(&a);
                            a.wait_for_shutdown().await;
                            mcrt::settle();
                        }
                        _ => {}
                    }
                    let d = Duration::from_secs(1);
                    let busy = |b: bool| if b { "done".to_string() } else { "waits".to_string() };
                    let before = log().0.iter().filter(|e| e.who == name).count();
                    let ar = match form {
                        0 => Hd::A(a.clone()),
                        1 => Hd::R(a.clone().recipient::<M>()),
                        2 => Hd::A(a.downgrade().upgrade().unwrap()),
                        _ => Hd::R(a.clone().recipient::<M>().downgrade().upgrade().unwrap()),
                    };
                    let flag = Arc::new(Mutex::new(None::<String>));
                    let fl = flag.clone();
                    // operations that may wait run in a task of their own
                    let run: BoxFuture<'static, String> = match ar {
                        Hd::A(h) => Box::pin(async move {
                            match opn {
                                0 => tell_text(&h.tell(m(5)).send().await),
                                1 => tell_text(&h.tell(m(5)).try_send()),
                                2 => tell_text(&h.tell(m(5)).mailbox_timeout(d).send().await),
                                3 => unit(h.stop_gracefully().await),
                                4 => {
                                    kill(&h);
                                    "killed".into()
                                }
                                5 => {
                                    h.wait_for_startup().await;
                                    "up".into()
                                }
                                6 => {
                                    h.wait_for_shutdown().await;
                                    "down".into()
                                }
                                7 => format!("{} {}", h.is_alive(), h.is_current()),
                                _ => tokio::task::spawn_blocking_opts(mcrt::TaskOpts { name: "blk".into(), must_finish: false }, move || tell_text(&h.tell(m(5)).blocking_send())).await.unwrap(),
                            }
                        }),
                        Hd::R(h) => Box::pin(async move {
                            match opn {
                                0 => tell_text(&h.tell(m(5)).send().await),
                                1 => tell_text(&h.tell(m(5)).try_send()),
                                2 => tell_text(&h.tell(m(5)).mailbox_timeout(d).send().await),
                                3 => unit(h.stop_gracefully().await),
                                4 => {
                                    mcrt::point(0x6111, 18);
                                    h.kill();
                                    mcrt::op(0x6111, 18);
                                    "killed".into()
                                }
                                5 => {
                                    h.wait_for_startup().await;
                                    "up".into()
                                }
                                6 => {
                                    h.wait_for_shutdown().await;
                                    "down".into()
                                }
                                7 => format!("{} {}", h.is_alive(), h.is_current()),
                                _ => tokio::task::spawn_blocking_opts(mcrt::TaskOpts { name: "blk".into(), must_finish: false }, move || tell_text(&h.tell(m(5)).blocking_send())).await.unwrap(),
                            }
                        }),
                        _ => unreachable!(),
                    };
                    let j = tokio::spawn(async move {
                        let r = run.await;
                        *fl.lock().unwrap() = Some(r);
                    });
                    mcrt::settle();
                    let r = flag.lock().unwrap().clone();
                    let mut line = busy(r.is_some());
                    if let Some(r) = r {
                        line.push_str(&format!(":{r}"));
                    }
                    // what the actor did about it
                    for e in log().0.iter().filter(|e| e.who == name).skip(before) {
                        line.push_str(&format!(" {}{}{}", e.what, e.n, e.s));
                    }
                    res.push(line);
                    // clean up
                    if st != St::Stopped && st != St::Killed {
                        kill(&a);
                    }
                    if st == St::Full || st == St::Starting {
                        // fresh permits for each actor would mix them up: the kill ends them
                        if st == St::Starting {
                            gate.add_permits(1);
                        }
                    }
                    a.wait_for_shutdown().await;
                    let _ = j.await;
                    if st == St::Starting {
                        // take the permit back
                        let _ = gate.try_acquire().map(|p| p.forget());
                    }
                }
                ev("root", "results", 0, format!("{st:?} op{opn}: {}", res.join(" | ")));
                if res.iter().any(|r| r != &res[0]) {
                    fail(format!("forms of one reference behave differently ({st:?}, operation {opn}): {res:?}"));
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}
fn unit<E: std::fmt::Debug>(r: Result<(), SendError<(), E>>) -> String {
    tell_text(&r)
}

/// Upgrades racing with the last drop.
fn upgrade_races() -> Scn {
    scn("P20", "upgrade-races", 3, 4, "weak references and weak recipients upgraded while the last strong reference is dropped", || {
        prog(
            || async move {
                let mb = [Mb::B(1), Mb::U][choose(2)];
                let form = choose(2);
                let a = spawn_t(t("A"), mb);
                let w = a.downgrade();
                let wr = a.clone().recipient::<M>().downgrade();
                client("c", async move {
                    let r = if form == 0 {
                        match w.upgrade() {
                            Some(x) => tell_text(&x.tell(m(1)).send().await),
                            None => "gone".into(),
                        }
                    } else {
                        match wr.upgrade() {
                            Some(x) => tell_text(&x.tell(m(1)).send().await),
                            None => "gone".into(),
                        }
                    };
                    ev("c", "ret", 1, r);
                    mcrt::quiesce();
                    let up = w.upgrade().is_some() || wr.upgrade().is_some();
                    ev("c", "late", up as i64, "");
                });
                ev("root", "drop", 0, "");
                drop(a);
            },
            |f, l, v| {
                all_done(f, v);
                let r = l.ss("c", "ret");
                let handled = l.count("A", "end", 1);
                match r.first().map(|s| s.as_str()) {
                    Some("ok") if handled != 1 => v.push("an upgraded reference's message was accepted but not handled".into()),
                    Some("gone") if handled != 0 => v.push("machinery: handled".into()),
                    Some("ok" | "gone") => {}
                    x => v.push(format!("the message through an upgraded reference returned {x:?}")),
                }
                if l.count("c", "late", 1) > 0 {
                    v.push("a weak reference was upgraded after the actor stopped".into());
                }
                if l.ss("A", "stop") != ["Normal"] {
                    v.push(format!("the actor stopped with {:?}", l.ss("A", "stop")));
                }
            },
        )
    })
}

pub fn scenarios() -> Vec<Scn> {
    vec![hooks(), current(), current_nested(), unique(), unique_actors(), handles(), same_results(), upgrade_races()]
}
