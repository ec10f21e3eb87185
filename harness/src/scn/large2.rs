//! Quantities, continued: replies, streams, handles, pools and the publish/subscribe actors.
use crate::kit::*;
use crate::scn::large::{few, fixed_schedule, name, size};
use kameo::actor::Recipient;
use kameo::message::StreamMessage;
use kameo::reply::{DelegatedReply, ReplySender};
use kameo_actors::pool::{ActorPool, Broadcast, Dispatch};
use kameo_actors::{broker, message_bus, pubsub, DeliveryStrategy};
use tokio::sync::Semaphore;

// ---------------------------------------------------------------- P18

/// Passes the asker on, keeps it for later, or answers.
struct Hop {
    next: Option<ActorRef<Hop>>,
    kept: Vec<(u32, ReplySender<Reply1>)>,
}
impl Actor for Hop {
    type Error = TErr;
}
struct Pass(u32);
impl Message<Pass> for Hop {
    type Reply = DelegatedReply<Reply1>;
    async fn handle(&mut self, m: Pass, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        let Some(tx) = tx else {
            fail("an ask came without its asker");
            return d;
        };
        match &self.next {
            Some(n) => {
                if n.ask(Pass(m.0)).forward(tx).await.is_err() {
                    fail(format!("hop {} failed", m.0));
                }
            }
            None => {
                ev("hop", "answer", m.0 as i64, "");
                tx.send(if m.0 % 3 == 2 { Err(TErr(m.0)) } else { Ok(m.0 + 1000) });
            }
        }
        d
    }
}
struct Keep(u32);
impl Message<Keep> for Hop {
    type Reply = DelegatedReply<Reply1>;
    async fn handle(&mut self, m: Keep, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        self.kept.push((m.0, tx.unwrap()));
        d
    }
}
struct Flush(usize);
impl Message<Flush> for Hop {
    type Reply = ();
    async fn handle(&mut self, f: Flush, _: &mut Context<Self, ()>) {
        let mut kept = std::mem::take(&mut self.kept);
        match f.0 {
            0 => {}
            1 => kept.reverse(),
            _ => {
                let k = kept.len() / 2;
                kept.rotate_left(k)
            }
        }
        for (id, tx) in kept {
            match id % 4 {
                0 => drop(tx),
                1 => tx.send(Err(TErr(id))),
                _ => tx.send(Ok(id + 1000)),
            }
        }
    }
}
fn hops() -> Scn {
    scn("P18", "large-hops", 0, 0, "three asks passed on through up to 257 actors, and up to 1,100 asks kept and answered later in three orders (or dropped): each asker gets its own reply once", || {
        prog(
            || async {
                fixed_schedule();
                if choose(2) == 0 {
                    let n = size().min(257);
                    let mut next = None;
                    let mut all = vec![];
                    for i in 0..n {
                        mcrt::set_next_name(name("hop", i));
                        let a = spawn_with_mailbox(Hop { next: next.take(), kept: vec![] }, mailbox::bounded(2));
                        all.push(a.clone());
                        next = Some(a);
                    }
                    let first = next.unwrap();
                    let mut hs = vec![];
                    for c in 1..4u32 {
                        let a = first.clone();
                        hs.push(client(name("c", c as usize), async move {
                            let r = res_text(&a.ask(Pass(c)).send().await);
                            let want = if c == 2 { "handler:TErr(2)".to_string() } else { format!("ok{}", c + 1000) };
                            if r != want {
                                fail(format!("after {n} hops the asker got {r} instead of {want}"));
                            }
                        }));
                    }
                    for h in hs {
                        let _ = h.await;
                    }
                    if (1..4).any(|c| log().count("hop", "answer", c) != 1) {
                        fail("a message arrived at the end more or less than once");
                    }
                } else {
                    let n = size();
                    let how = choose(3);
                    mcrt::set_next_name("keeper");
                    let a = spawn_with_mailbox(Hop { next: None, kept: vec![] }, [Mb::B(4), Mb::U][choose(2)].make());
                    let mut ps = vec![];
                    for i in 0..n as u32 {
                        ps.push(a.ask(Keep(i)).enqueue().await.unwrap());
                    }
                    a.ask(Flush(how)).send().await.unwrap();
                    for (i, p) in ps.into_iter().enumerate() {
                        let i = i as u32;
                        let r = res_text(&p.await);
                        let want = match i % 4 {
                            0 => "Stopped".to_string(),
                            1 => format!("handler:TErr({i})"),
                            _ => format!("ok{}", i + 1000),
                        };
                        if r != want {
                            fail(format!("kept ask {i} of {n} got {r} instead of {want}"));
                        }
                    }
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
    .steps(400_000)
}
// ---------------------------------------------------------------- P19

struct St;
impl Actor for St {
    type Error = TErr;
}
impl Message<StreamMessage<u32, u32, u32>> for St {
    type Reply = ();
    async fn handle(&mut self, m: StreamMessage<u32, u32, u32>, _: &mut Context<Self, ()>) {
        match m {
            StreamMessage::Started(s) => ev("S", "got", s as i64, "started"),
            StreamMessage::Next(n) => ev("S", "got", n as i64, ""),
            StreamMessage::Finished(n) => ev("S", "got", n as i64, "finished"),
        }
    }
}
struct Count;
impl Message<Count> for St {
    type Reply = usize;
    async fn handle(&mut self, _: Count, _: &mut Context<Self, usize>) -> usize {
        log().countk("S", "got")
    }
}
fn streams() -> Scn {
    scn("P19", "large-stream", 0, 0, "a stream of up to 1,100 items, ready at once or suspending before each, over bounded(1), bounded(64) and unbounded mailboxes, or two streams at a time, another sender interleaving", || {
        prog(
            || async {
                fixed_schedule();
                let n = size() as u32;
                let slow = choose(2) == 1;
                let two = choose(2) == 1;
                let mb = [Mb::B(1), Mb::B(64), Mb::U][choose(3)];
                mcrt::set_next_name("S");
                let a = spawn_with_mailbox(St, mb.make());
                let mut js = vec![];
                for k in 0..1 + two as u32 {
                    let s = futures::stream::iter(1..=n);
                    use futures::StreamExt;
                    let s = s.then(move |x| async move {
                        if slow {
                            yield_now().await;
                        }
                        10_000 * k + x
                    });
                    js.push(a.attach_stream(Box::pin(s), 10_000 * k, 10_000 * k + n + 1));
                }
                for _ in 0..n.min(20) {
                    if a.ask(Count).send().await.is_err() {
                        fail("another sender was disturbed");
                    }
                }
                for j in js {
                    match j.await {
                        Ok(Ok(_)) => {}
                        _ => fail("the attachment did not end well"),
                    }
                }
                a.stop_gracefully().await.unwrap();
                a.wait_for_shutdown().await;
                let l = log();
                for k in 0..1 + two as i64 {
                    let got: Vec<i64> = l.ns("S", "got").into_iter().filter(|x| x / 10_000 == k).collect();
                    if got != (10_000 * k..=10_000 * k + n as i64 + 1).collect::<Vec<_>>() {
                        fail(format!("a stream of {n} items arrived as {got:?}"));
                    }
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
    .steps(400_000)
}

// ---------------------------------------------------------------- P20

fn handles() -> Scn {
    scn("P20", "large-handles", 0, 0, "up to 1,100 clones, recipients, weak references and weak recipients of one actor: the counts, the upgrades and the end of the actor when the last strong one goes", || {
        prog(
            || async {
                fixed_schedule();
                let n = size();
                let a = spawn_t(t("T"), Mb::U);
                mcrt::settle();
                let s0 = a.strong_count();
                let w0 = a.weak_count();
                let refs: Vec<ActorRef<T>> = (0..n).map(|_| a.clone()).collect();
                let recs: Vec<Recipient<M>> = refs.iter().map(|r| r.clone().recipient()).collect();
                let weaks: Vec<_> = refs.iter().map(|r| r.downgrade()).collect();
                let wrecs: Vec<_> = recs.iter().map(|r| r.downgrade()).collect();
                if a.strong_count() != s0 + 2 * n || a.weak_count() != w0 + 2 * n {
                    fail(format!("{n} clones and as many recipients: {} strong and {} weak, from {s0} and {w0}", a.strong_count(), a.weak_count()));
                }
                for (i, r) in recs.iter().enumerate() {
                    if r.id() != a.id() || r.tell(m(i as u32)).send().await.is_err() {
                        fail(format!("recipient {i} does not lead to its actor"));
                    }
                }
                drop(a);
                drop(refs);
                mcrt::quiesce();
                if weaks.iter().any(|w| w.upgrade().is_none()) {
                    fail("a weak reference to a referenced actor cannot be upgraded");
                }
                for r in recs.into_iter().rev() {
                    if !r.is_alive() {
                        fail("an actor ended while a recipient of it was left");
                    }
                    drop(r);
                }
                mcrt::settle();
                if weaks.iter().any(|w| w.upgrade().is_some()) || wrecs.iter().any(|w| w.upgrade().is_some()) {
                    fail("a weak reference to an ended actor was upgraded");
                }
                let l = log();
                if l.ns("T", "end") != (0..n as i64).collect::<Vec<_>>() || l.ss("T", "stop") != vec!["Normal"] {
                    fail("the actor did not handle everything and stop normally");
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
    .steps(400_000)
}

// ---------------------------------------------------------------- P23

/// Overrides both message hooks: signals are taken one by one or up to 64 at a time.
struct Hk {
    many: bool,
    batch: std::collections::VecDeque<Signal<Hk>>,
    n: usize,
}
use kameo::mailbox::{MailboxReceiver, Signal};
use kameo::message::BoxMessage;
use kameo::reply::{BoxReplySender, ReplyError};
impl Actor for Hk {
    type Error = TErr;
    async fn on_message(&mut self, msg: BoxMessage<Self>, r: ActorRef<Self>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
        self.n += 1;
        msg.handle_dyn(self, r, tx).await
    }
    async fn next(&mut self, _r: WeakActorRef<Self>, rx: &mut MailboxReceiver<Self>) -> Option<Signal<Self>> {
        if !self.many {
            return rx.recv().await;
        }
        if self.batch.is_empty() {
            let mut v = vec![];
            rx.recv_many(&mut v, 64).await;
            self.batch.extend(v);
        }
        self.batch.pop_front()
    }
    async fn on_stop(&mut self, _r: WeakActorRef<Self>, _: ActorStopReason) -> Result<(), TErr> {
        ev("H", "hooked", self.n as i64, "");
        Ok(())
    }
}
struct Q(u32);
impl Message<Q> for Hk {
    type Reply = u32;
    async fn handle(&mut self, q: Q, _: &mut Context<Self, u32>) -> u32 {
        ev("H", "begin", q.0 as i64, "");
        q.0
    }
}
fn overridden() -> Scn {
    scn("P23", "large-hooks", 0, 0, "up to 1,100 messages, told and asked, before or after start-up, to an actor that overrides on_message and next (taking signals singly or up to 64 at once): each goes through on_message once and in order", || {
        prog(
            || async {
                fixed_schedule();
                let n = size() as u32;
                let many = choose(2) == 1;
                let before = choose(2) == 1;
                let mb = [Mb::B(1), Mb::B(64), Mb::U][choose(3)];
                let p = PreparedActor::new(mb.make());
                let a = p.actor_ref().clone();
                mcrt::set_next_name("H");
                let h = Hk { many, batch: Default::default(), n: 0 };
                let mut late = Some((p, h));
                if !before {
                    let (p, h) = late.take().unwrap();
                    p.spawn(h);
                    a.wait_for_startup().await;
                }
                let b = a.clone();
                let c = client("c", async move {
                    let mut ps = vec![];
                    for i in 0..n {
                        if i % 3 == 0 {
                            ps.push((i, b.ask(Q(i)).enqueue().await.unwrap()));
                        } else {
                            b.tell(Q(i)).send().await.unwrap();
                        }
                    }
                    for (i, p) in ps {
                        let r = p.await;
                        if !matches!(r, Ok(x) if x == i) {
                            fail(format!("ask {i} got {}", res_text(&r)));
                        }
                    }
                });
                if let Some((p, h)) = late {
                    mcrt::quiesce();
                    p.spawn(h);
                }
                let _ = c.await;
                a.stop_gracefully().await.unwrap();
                a.wait_for_shutdown().await;
                let l = log();
                if l.ns("H", "begin") != (0..n as i64).collect::<Vec<_>>() || l.ns("H", "hooked") != vec![n as i64] {
                    fail(format!("{n} messages: {:?} went through on_message, handled {:?}", l.ns("H", "hooked"), l.ns("H", "begin")));
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
    .steps(400_000)
}

// ---------------------------------------------------------------- P30, P31

#[derive(Clone, Debug)]
enum Job {
    Plain(u32),
    Hold(u32),
    Die(u32),
}
struct W {
    i: usize,
    gate: Arc<Semaphore>,
}
impl Actor for W {
    type Error = TErr;
}
impl Message<Job> for W {
    type Reply = (usize, u32);
    async fn handle(&mut self, j: Job, _: &mut Context<Self, (usize, u32)>) -> (usize, u32) {
        let id = match j {
            Job::Plain(id) | Job::Hold(id) | Job::Die(id) => id,
        };
        ev("w", "take", id as i64, format!("{}", self.i));
        match j {
            Job::Hold(_) => self.gate.acquire().await.unwrap().forget(),
            Job::Die(_) => panic!("worker dies"),
            _ => {}
        }
        (self.i, id)
    }
}
struct Plant {
    made: Arc<Mutex<usize>>,
    gate: Arc<Semaphore>,
}
impl Plant {
    async fn pool(&self, size: usize, mb: Mb) -> ActorRef<ActorPool<W>> {
        let (made, gate) = (self.made.clone(), self.gate.clone());
        let make = move || {
            let mut n = made.lock().unwrap();
            let i = *n;
            *n += 1;
            if i > 3000 {
                fail("the factory was called without end");
                std::process::exit(0);
            }
            mcrt::set_next_name(name("w", i));
            spawn_with_mailbox(W { i, gate: gate.clone() }, mb.make())
        };
        let p = if mb == Mb::U {
            ActorPool::new_async(size, move || {
                let mut make = make.clone();
                async move { make() }
            })
            .await
        } else {
            ActorPool::new(size, make)
        };
        mcrt::set_next_name("pool");
        spawn_with_mailbox(p, Mb::B(4).make())
    }
}
fn takers(l: &Log, id: u32) -> Vec<usize> {
    l.0.iter().filter(|e| e.who == "w" && e.what == "take" && e.n == id as i64).map(|e| e.s.parse().unwrap()).collect()
}
fn pools(prop: &'static str, nm: &'static str) -> Scn {
    scn(prop, nm, 0, 0, "pools of up to 65 workers: as many held jobs as workers and twice as many, asked and told; a broadcast; then every worker, or every second one, dies at its job and all is done again", move || {
        prog(
            move || async move {
                fixed_schedule();
                let n = few();
                let mb = [Mb::B(8), Mb::U][choose(2)];
                let die = choose(3);
                let plant = Plant { made: Default::default(), gate: Arc::new(Semaphore::new(0)) };
                let pool = plant.pool(n, mb).await;
                mcrt::settle();
                let mut id = 0u32;
                for round in 0..2 {
                    // as many as there are workers, then as many again: one each, then two each
                    let mut asks = vec![];
                    for turn in 1..=2 {
                        for k in 0..n as u32 {
                            id += 1;
                            if k % 2 == 0 {
                                pool.tell(Dispatch(Job::Hold(id))).send().await.unwrap();
                            } else {
                                asks.push((id, pool.ask(Dispatch(Job::Hold(id))).enqueue().await.unwrap()));
                            }
                        }
                        mcrt::quiesce();
                        if turn == 1 {
                            let l = log();
                            let mut by: Vec<usize> = (id + 1 - n as u32..=id).flat_map(|i| takers(&l, i)).collect();
                            by.sort();
                            let k = by.len();
                            by.dedup();
                            if k != n || by.len() != n {
                                fail(format!("round {round}: {n} jobs were taken {k} times, by {} of the {n} idle workers", by.len()));
                            }
                        }
                    }
                    plant.gate.add_permits(2 * n);
                    for (i, a) in asks {
                        let r = a.await;
                        let own = matches!(&r, Ok((w, x)) if *x == i && takers(&log(), i) == vec![*w]);
                        if !own {
                            fail(format!("ask {i} of a pool of {n} got {:?}", r.map_err(|e| err_text(&e))));
                        }
                    }
                    mcrt::quiesce();
                    let l = log();
                    for i in id + 1 - 2 * n as u32..=id {
                        if takers(&l, i).len() != 1 {
                            fail(format!("job {i} was taken by {:?}", takers(&l, i)));
                        }
                    }
                    let mut per = std::collections::BTreeMap::new();
                    for i in id + 1 - 2 * n as u32..=id {
                        for w in takers(&l, i) {
                            *per.entry(w).or_insert(0) += 1;
                        }
                    }
                    if per.len() != n || per.values().any(|k| *k != 2) {
                        fail(format!("twice {n} held jobs were spread as {per:?}"));
                    }
                    id += 1;
                    match pool.ask(Broadcast(Job::Plain(id))).send().await {
                        Ok(rs) if rs.len() == n && rs.iter().all(|r| r.is_ok()) => {}
                        Ok(rs) => fail(format!("a broadcast to {n} returned {} results", rs.len())),
                        Err(e) => fail(format!("a broadcast failed: {e:?}")),
                    }
                    mcrt::quiesce();
                    let mut by = takers(&log(), id);
                    by.sort();
                    if by != per.keys().copied().collect::<Vec<_>>() {
                        fail(format!("a broadcast to {n} workers was taken by {by:?}"));
                    }
                    if round == 0 {
                        let before = *plant.made.lock().unwrap();
                        if before != n {
                            fail(format!("{before} workers were made for a pool of {n}"));
                        }
                        let deaths = match die {
                            0 => {
                                id += 1;
                                pool.tell(Broadcast(Job::Die(id))).send().await.unwrap();
                                n
                            }
                            1 => {
                                for _ in 0..n / 2 {
                                    id += 1;
                                    pool.tell(Dispatch(Job::Die(id))).send().await.unwrap();
                                    mcrt::quiesce();
                                }
                                n / 2
                            }
                            _ => 0,
                        };
                        mcrt::settle();
                        let made = *plant.made.lock().unwrap();
                        if made != n + deaths {
                            fail(format!("{deaths} of {n} workers died and {} were made anew", made - n));
                        }
                    }
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
    .steps(400_000)
}

// ---------------------------------------------------------------- P32, P33, P34

#[derive(Clone)]
struct N(u32);
struct S(&'static str);
impl Actor for S {
    type Error = TErr;
}
impl Message<N> for S {
    type Reply = ();
    async fn handle(&mut self, n: N, _: &mut Context<Self, ()>) {
        ev(self.0, "got", n.0 as i64, "");
    }
}
#[derive(Clone)]
enum Hub {
    Broker(ActorRef<broker::Broker<N>>),
    Bus(ActorRef<message_bus::MessageBus>),
    PubSub(ActorRef<pubsub::PubSub<N>>),
}
fn hubs(prop: &'static str, nm: &'static str) -> Scn {
    scn(prop, nm, 0, 0, "up to 257 subscribers under every delivery strategy; every third leaves or dies; up to 65 messages are published before, between and after: each subscriber gets exactly those published while it was subscribed (and accepted), in order", move || {
        prog(
            move || async move {
                fixed_schedule();
                let n = size().min(257);
                let rounds = if n > 65 { 3 } else { 20 };
                let d = Duration::from_secs(10);
                let st = match prop {
                    "P32" => DeliveryStrategy::Guaranteed,
                    _ => [DeliveryStrategy::Guaranteed, DeliveryStrategy::BestEffort, DeliveryStrategy::TimedDelivery(d), DeliveryStrategy::Spawned, DeliveryStrategy::SpawnedWithTimeout(d)][choose(5)],
                };
                let spawned = matches!(st, DeliveryStrategy::Spawned | DeliveryStrategy::SpawnedWithTimeout(_));
                mcrt::set_next_name("hub");
                let hub = match prop {
                    "P33" => Hub::Broker(spawn_with_mailbox(broker::Broker::new(st), mailbox::bounded(4))),
                    "P34" => Hub::Bus(spawn_with_mailbox(message_bus::MessageBus::new(st), mailbox::bounded(4))),
                    _ => Hub::PubSub(spawn_with_mailbox(pubsub::PubSub::new(), mailbox::bounded(4))),
                };
                let subs: Vec<ActorRef<S>> = (0..n)
                    .map(|i| {
                        mcrt::set_next_name(name("s", i));
                        spawn_with_mailbox(S(name("s", i)), mailbox::unbounded())
                    })
                    .collect();
                let topic = |i: usize| glob::Pattern::new(["a/*", "*/x", "b/*"][i % 3]).unwrap();
                for (i, s) in subs.iter().enumerate() {
                    match &hub {
                        Hub::Broker(b) => b.ask(broker::Subscribe { topic: topic(i), recipient: s.clone().recipient::<N>() }).send().await.unwrap(),
                        Hub::Bus(b) => b.ask(message_bus::Register(s.clone().recipient::<N>())).send().await.unwrap(),
                        Hub::PubSub(p) => {
                            if i % 2 == 0 {
                                p.ask(pubsub::Subscribe(s.clone())).send().await.unwrap()
                            } else {
                                p.ask(pubsub::SubscribeFilter(s.clone(), [|n: &N| n.0 % 3 == 0, |n: &N| n.0 % 3 == 1, |n: &N| n.0 % 3 == 2][i % 3])).send().await.unwrap()
                            }
                        }
                    }
                }
                let hits = |i: usize, id: u32| match prop {
                    "P33" => match i % 3 {
                        0 => id % 2 == 0,
                        1 => true,
                        _ => id % 2 == 1,
                    },
                    "P34" => true,
                    _ => i % 2 == 0 || id as usize % 3 == i % 3,
                };
                let mut want: Vec<Vec<i64>> = vec![vec![]; n];
                let mut gone = vec![false; n];
                let mut id = 0;
                for phase in 0..3 {
                    for _ in 0..rounds {
                        id += 1;
                        for i in 0..n {
                            if !gone[i] && hits(i, id) {
                                want[i].push(id as i64);
                            }
                        }
                        let topic = ["a/x", "b/x"][id as usize % 2].to_string();
                        let ok = match &hub {
                            Hub::Broker(b) => b.ask(broker::Publish { topic, message: N(id) }).send().await.is_ok(),
                            Hub::Bus(b) => b.ask(message_bus::Publish(N(id))).send().await.is_ok(),
                            Hub::PubSub(b) => b.ask(pubsub::Publish(N(id))).send().await.is_ok(),
                        };
                        if !ok {
                            fail("publishing failed");
                        }
                        if spawned {
                            mcrt::quiesce();
                        }
                    }
                    mcrt::quiesce();
                    for i in (0..n).filter(|i| i % 3 == phase && i % 2 == phase % 2) {
                        gone[i] = true;
                        match &hub {
                            Hub::Broker(b) if i % 4 < 2 => b.ask(broker::Unsubscribe { topic: (i % 8 < 4).then(|| topic(i)), actor_id: subs[i].id() }).send().await.unwrap(),
                            Hub::Bus(b) if i % 4 < 2 => b.ask(message_bus::Unregister::<N>::new(subs[i].id())).send().await.unwrap(),
                            _ => {
                                subs[i].kill();
                                subs[i].wait_for_shutdown().await;
                            }
                        }
                    }
                }
                mcrt::settle();
                let l = log();
                for i in 0..n {
                    let got = l.ns(name("s", i), "got");
                    if got != want[i] {
                        fail(format!("{st:?}: subscriber {i} of {n} got {got:?} instead of {:?}", want[i]));
                    }
                }
            },
            |f, _, v| all_done(f, v),
        )
    })
    .steps(800_000)
}

pub fn scenarios() -> Vec<Scn> {
    vec![
        hops(),
        streams(),
        handles(),
        overridden(),
        pools("P30", "large-pool"),
        pools("P31", "large-pool-balance"),
        hubs("P32", "large-pubsub"),
        hubs("P33", "large-broker"),
        hubs("P34", "large-bus"),
    ]
}
