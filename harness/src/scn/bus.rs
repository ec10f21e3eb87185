//! P32, P33, P34: publish/subscribe, topic broker and message bus against a reference routing table.
use crate::kit::*;
use kameo_actors::broker::{self, Broker};
use kameo_actors::message_bus::{self, MessageBus};
use kameo_actors::pubsub::{self, PubSub};
use kameo_actors::DeliveryStrategy;
use tokio::sync::Notify;

/// Published values; the bus routes on the three types.
#[derive(Clone, Debug)]
pub struct N1(u32);
#[derive(Clone, Debug)]
pub struct N2(u32);
#[derive(Clone, Debug)]
pub struct N3(u32);
struct Hold(Arc<Notify>);
struct Die(u8);

/// A subscriber.
struct S(&'static str);
impl Drop for S {
    fn drop(&mut self) {
        ev(self.0, "dropped", 0, "");
    }
}
impl Actor for S {
    type Error = TErr;
}
impl Message<N1> for S {
    type Reply = ();
    async fn handle(&mut self, n: N1, _: &mut Context<Self, ()>) {
        ev(self.0, "got", n.0 as i64, "1");
        react(self.0, n.0).await;
    }
}
impl Message<N2> for S {
    type Reply = ();
    async fn handle(&mut self, n: N2, _: &mut Context<Self, ()>) {
        ev(self.0, "got", n.0 as i64, "2");
        react(self.0, n.0).await;
    }
}
/// Fails with every third kind: a subscriber's failure is its own business.
impl Message<N3> for S {
    type Reply = ();
    async fn handle(&mut self, n: N3, _: &mut Context<Self, ()>) {
        ev(self.0, "got", n.0 as i64, "3");
        react(self.0, n.0).await;
    }
}
impl Message<Hold> for S {
    type Reply = ();
    async fn handle(&mut self, h: Hold, _: &mut Context<Self, ()>) {
        h.0.notified().await;
    }
}
impl Message<Die> for S {
    type Reply = ();
    async fn handle(&mut self, d: Die, ctx: &mut Context<Self, ()>) {
        match d.0 {
            0 => panic!("subscriber dies"),
            _ => ctx.actor_ref().kill(),
        }
        yield_now().await;
    }
}
type React = Arc<dyn Fn() -> futures::future::BoxFuture<'static, ()> + Send + Sync>;
/// What a subscriber does within its handler of a value.
static REACT: Mutex<Option<(&'static str, u32, React)>> = Mutex::new(None);
async fn react(who: &'static str, id: u32) {
    let f = match &*REACT.lock().unwrap() {
        Some((w, i, f)) if *w == who && *i == id => Some(f.clone()),
        _ => None,
    };
    if let Some(f) = f {
        f().await;
        ev(who, "reacted", id as i64, "");
    }
}

fn spawn_s(name: &'static str, mb: Mb) -> ActorRef<S> {
    let p = PreparedActor::new(mb.make());
    let r = p.actor_ref().clone();
    name_id(r.id(), name);
    mcrt::set_next_name(name);
    p.spawn(S(name));
    r
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Broker,
    Bus,
    PubSub,
}

/// What a subscription key accepts. Broker: patterns and topics; bus: types; pubsub: filters.
const PATTERNS: &[&str] = &["a/*", "*/x", "a/**"];
const TOPICS: &[&str] = &["a/x", "a/y", "b/x", "a/x/z"];
fn accepts(kind: Kind, sub: usize, publ: usize, id: u32) -> bool {
    match kind {
        // the reference table, written by hand: rows are patterns, columns topics
        Kind::Broker => [[true, true, false, false], [true, false, true, false], [true, true, false, true]][sub][publ],
        Kind::Bus => sub == publ,
        Kind::PubSub => match sub {
            0 => true,
            1 => id % 2 == 0,
            _ => id % 2 == 1,
        },
    }
}
fn keys(kind: Kind) -> (usize, usize) {
    match kind {
        Kind::Broker => (3, 4),
        Kind::Bus => (3, 3),
        Kind::PubSub => (3, 1),
    }
}

#[derive(Clone)]
enum Sys {
    Broker(ActorRef<Broker<N1>>),
    Bus(ActorRef<MessageBus>),
    PubSub(ActorRef<PubSub<N1>>),
}
fn strategies() -> [DeliveryStrategy; 5] {
    let d = Duration::from_millis(10);
    [
        DeliveryStrategy::Guaranteed,
        DeliveryStrategy::BestEffort,
        DeliveryStrategy::TimedDelivery(d),
        DeliveryStrategy::Spawned,
        DeliveryStrategy::SpawnedWithTimeout(d),
    ]
}
impl Sys {
    fn new(kind: Kind, st: DeliveryStrategy, mb: Mb) -> Sys {
        mcrt::set_next_name("hub");
        match kind {
            Kind::Broker => Sys::Broker(spawn_with_mailbox(Broker::new(st), mb.make())),
            Kind::Bus => Sys::Bus(spawn_with_mailbox(MessageBus::new(st), mb.make())),
            Kind::PubSub => Sys::PubSub(spawn_with_mailbox(PubSub::new(), mb.make())),
        }
    }
    async fn sub(&self, s: &ActorRef<S>, k: usize) {
        match self {
            Sys::Broker(b) => b.ask(broker::Subscribe { topic: glob::Pattern::new(PATTERNS[k]).unwrap(), recipient: s.clone().recipient::<N1>() }).await.unwrap(),
            Sys::Bus(b) => match k {
                0 => b.ask(message_bus::Register(s.clone().recipient::<N1>())).await.unwrap(),
                1 => b.ask(message_bus::Register(s.clone().recipient::<N2>())).await.unwrap(),
                _ => b.ask(message_bus::Register(s.clone().recipient::<N3>())).await.unwrap(),
            },
            Sys::PubSub(p) => match k {
                0 => p.ask(pubsub::Subscribe(s.clone())).await.unwrap(),
                1 => p.ask(pubsub::SubscribeFilter(s.clone(), |n: &N1| n.0 % 2 == 0)).await.unwrap(),
                _ => p.ask(pubsub::SubscribeFilter(s.clone(), |n: &N1| n.0 % 2 == 1)).await.unwrap(),
            },
        }
    }
    /// `None`: everything (the broker only)
    async fn unsub(&self, id: ActorID, k: Option<usize>) {
        match self {
            Sys::Broker(b) => b.ask(broker::Unsubscribe { topic: k.map(|k| glob::Pattern::new(PATTERNS[k]).unwrap()), actor_id: id }).await.unwrap(),
            Sys::Bus(b) => match k.unwrap() {
                0 => b.ask(message_bus::Unregister::<N1>::new(id)).await.unwrap(),
                1 => b.ask(message_bus::Unregister::<N2>::new(id)).await.unwrap(),
                _ => b.ask(message_bus::Unregister::<N3>::new(id)).await.unwrap(),
            },
            Sys::PubSub(_) => unreachable!(),
        }
    }
    async fn publish(&self, k: usize, id: u32) -> bool {
        match self {
            Sys::Broker(b) => b.ask(broker::Publish { topic: TOPICS[k].into(), message: N1(id) }).await.is_ok(),
            Sys::Bus(b) => match k {
                0 => b.ask(message_bus::Publish(N1(id))).await.is_ok(),
                1 => b.ask(message_bus::Publish(N2(id))).await.is_ok(),
                _ => b.ask(message_bus::Publish(N3(id))).await.is_ok(),
            },
            Sys::PubSub(p) => p.ask(pubsub::Publish(N1(id))).await.is_ok(),
        }
    }
    async fn publish_tell(&self, k: usize, id: u32) {
        match self {
            Sys::Broker(b) => b.tell(broker::Publish { topic: TOPICS[k].into(), message: N1(id) }).await.unwrap(),
            Sys::Bus(b) => match k {
                0 => b.tell(message_bus::Publish(N1(id))).await.unwrap(),
                1 => b.tell(message_bus::Publish(N2(id))).await.unwrap(),
                _ => b.tell(message_bus::Publish(N3(id))).await.unwrap(),
            },
            Sys::PubSub(p) => p.tell(pubsub::Publish(N1(id))).await.unwrap(),
        }
    }
    fn alive(&self) -> bool {
        match self {
            Sys::Broker(b) => b.is_alive(),
            Sys::Bus(b) => b.is_alive(),
            Sys::PubSub(b) => b.is_alive(),
        }
    }
}

/// The reference: subscriptions as (subscriber, key), with the number of identical ones kept by repetition.
#[derive(Default)]
struct Model {
    subs: Vec<(usize, usize)>,
}
impl Model {
    fn sub(&mut self, kind: Kind, s: usize, k: usize) {
        if kind == Kind::PubSub {
            // one subscription per subscriber: the latest
            self.subs.retain(|x| x.0 != s);
        }
        self.subs.push((s, k));
    }
    fn unsub(&mut self, s: usize, k: Option<usize>) {
        self.subs.retain(|x| !(x.0 == s && k.is_none_or(|k| x.1 == k)));
    }
    fn hits(&self, kind: Kind, s: usize, k: usize, id: u32) -> usize {
        self.subs.iter().filter(|x| x.0 == s && accepts(kind, x.1, k, id)).count()
    }
}

const SN: [&str; 3] = ["s0", "s1", "s2"];

fn prop_of(kind: Kind) -> (&'static str, [&'static str; 5]) {
    match kind {
        Kind::Broker => ("P33", ["broker-sequences", "broker-deaths", "broker-full", "broker-races", "broker-sequences-deep"]),
        Kind::Bus => ("P34", ["bus-sequences", "bus-deaths", "bus-full", "bus-races", "bus-sequences-deep"]),
        Kind::PubSub => ("P32", ["pubsub-sequences", "pubsub-deaths", "pubsub-full", "pubsub-races", "pubsub-sequences-deep"]),
    }
}
fn choose_strategy(kind: Kind) -> DeliveryStrategy {
    match kind {
        Kind::PubSub => DeliveryStrategy::Guaranteed,
        _ => strategies()[choose(5)],
    }
}

/// Every sequence of operations by one client, one at a time.
fn sequences(kind: Kind, depth: usize) -> Scn {
    let (prop, names) = prop_of(kind);
    let (name, quick) = if depth == 3 { (names[0], 0) } else { (names[4], SKIP) };
    scn(prop, name, quick, 0, "every sequence of three (deep: four) subscriptions, unsubscriptions, deaths and publications over two subscribers and every key, under every delivery strategy, then a publication under every key, against a reference table", move || {
        prog(
            move || async move {
                let st = choose_strategy(kind);
                let sys = Sys::new(kind, st, Mb::U);
                let subs = [spawn_s("s0", Mb::U), spawn_s("s1", Mb::B(8))];
                let (ks, kp) = keys(kind);
                let mut model = Model::default();
                let mut dead = [false; 2];
                let mut want: [Vec<i64>; 2] = Default::default();
                let mut id = 0u32;
                ev("cfg", "st", 0, format!("{st:?}"));
                let unsubs = match kind {
                    Kind::Broker => 2 * (ks + 1),
                    Kind::Bus => 2 * ks,
                    Kind::PubSub => 0,
                };
                let publish = |model: &mut Model, dead: &[bool; 2], want: &mut [Vec<i64>; 2], k: usize, id: u32| {
                    for s in 0..2 {
                        if !dead[s] {
                            for _ in 0..model.hits(kind, s, k, id) {
                                want[s].push(id as i64);
                            }
                        }
                    }
                };
                for _ in 0..depth {
                    let c = choose(2 * ks + unsubs + kp + 2);
                    if c < 2 * ks {
                        ev("op", "sub", c as i64, "");
                        sys.sub(&subs[c % 2], c / 2).await;
                        model.sub(kind, c % 2, c / 2);
                    } else if c < 2 * ks + unsubs {
                        let c = c - 2 * ks;
                        ev("op", "unsub", c as i64, "");
                        let k = if c / 2 == ks { None } else { Some(c / 2) };
                        sys.unsub(subs[c % 2].id(), k).await;
                        model.unsub(c % 2, k);
                    } else if c < 2 * ks + unsubs + kp {
                        let k = c - 2 * ks - unsubs;
                        ev("op", "pub", k as i64, "");
                        id += 1;
                        publish(&mut model, &dead, &mut want, k, id);
                        if !sys.publish(k, id).await {
                            fail(format!("publishing failed (alive: {})", sys.alive()));
                        }
                        mcrt::quiesce();
                    } else {
                        let s = c - 2 * ks - unsubs - kp;
                        ev("op", "die", s as i64, "");
                        if s == 0 {
                            subs[0].kill();
                        } else {
                            subs[1].stop_gracefully().await.ok();
                        }
                        subs[s].wait_for_shutdown().await;
                        dead[s] = true;
                    }
                }
                for k in 0..kp {
                    for _ in 0..2 {
                        id += 1;
                        publish(&mut model, &dead, &mut want, k, id);
                        if !sys.publish(k, id).await {
                            fail(format!("publishing failed (alive: {})", sys.alive()));
                        }
                        mcrt::quiesce();
                    }
                }
                mcrt::settle();
                for s in 0..2 {
                    let got = log().ns(SN[s], "got");
                    if got != want[s] {
                        fail(format!("{st:?}: {} got {got:?} instead of {:?}", SN[s], want[s]));
                    }
                    // every key has been published under since: a dead subscriber is held by nobody but us
                    // (unless its filter turned the last messages down)
                    let n = subs[s].strong_count();
                    let tried = kind != Kind::PubSub || !model.subs.iter().any(|x| x.0 == s && x.1 > 0) || id > 1;
                    if dead[s] && tried && n != 1 {
                        fail(format!("{st:?}: {} has stopped and is still subscribed ({n} references)", SN[s]));
                    }
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

/// A subscriber dies while messages are published.
fn deaths(kind: Kind) -> Scn {
    let (prop, names) = prop_of(kind);
    scn(prop, names[1], 1, 3, "one of three subscribers is killed, stops, fails or dies with a full mailbox while three messages are published, under every delivery strategy", move || {
        prog(
            move || async move {
                let st = choose_strategy(kind);
                ev("cfg", "st", 0, format!("{st:?}"));
                let sys = Sys::new(kind, st, Mb::B(2));
                let victim = choose(3);
                let how = choose(5);
                ev("cfg", "victim", victim as i64, format!("{how}"));
                let gate = Arc::new(Notify::new());
                let subs: Vec<_> = (0..3).map(|i| spawn_s(SN[i], if i == victim && how == 4 { Mb::B(1) } else { Mb::B(4) })).collect();
                for s in &subs {
                    sys.sub(s, 0).await;
                }
                mcrt::settle();
                if how == 4 {
                    subs[victim].tell(Hold(gate.clone())).await.unwrap();
                    mcrt::quiesce();
                    subs[victim].tell(N3(99)).await.unwrap(); // full
                }
                let v = subs[victim].clone();
                let g2 = gate.clone();
                client("c", async move {
                    match how {
                        0 | 4 => kill(&v),
                        1 => drop(v.stop_gracefully().await),
                        2 => drop(v.tell(Die(0)).await),
                        _ => drop(v.tell(Die(1)).await),
                    }
                    v.wait_for_shutdown().await;
                    drop(g2);
                });
                client("p", async move {
                    for id in 1..=3 {
                        if !sys.publish(0, id).await {
                            fail("publishing failed");
                        }
                    }
                    mcrt::settle();
                    if !sys.publish(0, 4).await {
                        fail("publishing failed");
                    }
                    mcrt::settle();
                    if subs[victim].strong_count() != 1 {
                        fail(format!("{} has stopped and is still subscribed ({} references)", SN[victim], subs[victim].strong_count()));
                    }
                });
            },
            move |f, l, v| {
                all_done(f, v);
                let spawned = l.get("cfg", "st").is_some_and(|e| e.s.contains("Spawned"));
                let victim = l.ns("cfg", "victim")[0] as usize;
                for i in 0..3 {
                    let mut got = l.ns(SN[i], "got");
                    if spawned {
                        got.sort();
                    }
                    if i != victim {
                        if got != vec![1, 2, 3, 4] {
                            v.push(format!("{} got {got:?} while another subscriber died", SN[i]));
                        }
                    } else {
                        // the dying one gets some first messages, none twice
                        let mut d = got.clone();
                        d.dedup();
                        if d != got || got.contains(&4) || !spawned && !(1..=3).collect::<Vec<i64>>().starts_with(&got) {
                            v.push(format!("the dying subscriber got {got:?}"));
                        }
                    }
                }
            },
        )
    })
}

/// One subscriber's mailbox stays full until everything has been published.
fn full(kind: Kind) -> Scn {
    let (prop, names) = prop_of(kind);
    scn(prop, names[2], 1, 3, "one of two subscribers keeps a full mailbox while two messages are published, and takes messages again afterwards: waiting delivery loses nothing, best effort and timeouts skip only the full one", move || {
        prog(
            move || async move {
                let st = choose_strategy(kind);
                ev("cfg", "st", 0, format!("{st:?}"));
                let sys = Sys::new(kind, st, Mb::U);
                let slow = choose(2);
                // released once the hub can do no more, or only after every timeout has passed
                let early = choose(2);
                ev("cfg", "slow", slow as i64, format!("{early}"));
                let gate = Arc::new(Notify::new());
                let subs: Vec<_> = (0..2).map(|i| spawn_s(SN[i], if i == slow { Mb::B(1) } else { Mb::B(4) })).collect();
                for s in &subs {
                    sys.sub(s, 0).await;
                }
                mcrt::settle();
                subs[slow].tell(Hold(gate.clone())).await.unwrap();
                mcrt::quiesce();
                subs[slow].tell(N3(99)).await.unwrap(); // full
                for id in 1..=2 {
                    sys.publish_tell(0, id).await;
                }
                client("release", async move {
                    if early == 0 {
                        mcrt::quiesce();
                    } else {
                        mcrt::settle();
                    }
                    ev("release", "now", 0, "");
                    gate.notify_one();
                    mcrt::settle();
                    if !sys.publish(0, 3).await {
                        fail("publishing failed");
                    }
                    mcrt::settle();
                    drop(subs);
                });
            },
            move |f, l, v| {
                all_done(f, v);
                let st = l.get("cfg", "st").unwrap().s.clone();
                let slow = l.ns("cfg", "slow")[0] as usize;
                let early = l.get("cfg", "slow").unwrap().s == "0";
                let mut fast = l.ns(SN[1 - slow], "got");
                let mut got: Vec<i64> = l.ns(SN[slow], "got").into_iter().filter(|n| *n != 99).collect();
                if st.contains("Spawned") {
                    fast.sort();
                    got.sort();
                }
                if fast != vec![1, 2, 3] {
                    v.push(format!("{st}: the subscriber with room got {fast:?}"));
                }
                let timed = st.contains("10ms");
                let ok = if st == "Guaranteed" || st == "Spawned" {
                    got == vec![1, 2, 3]
                } else if st == "BestEffort" || timed && !early {
                    got == vec![3]
                } else {
                    // room appears while the timeouts may be running
                    got.last() == Some(&3) && got.windows(2).all(|w| w[0] < w[1])
                };
                if !ok {
                    v.push(format!("{st}: the subscriber whose mailbox was full got {got:?}"));
                }
                if l.count(SN[slow], "got", 99) != 1 {
                    v.push("the message queued before was lost".into());
                }
                // without waiting for the full one
                if st == "BestEffort" || st.contains("Spawned") {
                    let (r, p1, p2) = (l.first("release", "now"), l.pos(SN[1 - slow], "got", 1), l.pos(SN[1 - slow], "got", 2));
                    if p1 > r || p2 > r {
                        v.push(format!("{st}: delivery to another subscriber waited for the full one"));
                    }
                }
            },
        )
    })
}

/// Two publishers, a late subscriber and one that leaves, at the same time.
fn races(kind: Kind) -> Scn {
    let (prop, names) = prop_of(kind);
    scn(prop, names[3], 1, 2, "two publishers, a subscriber that joins and one that leaves at the same time: whoever is subscribed throughout gets everything once and in order, the others exactly a suffix or prefix", move || {
        prog(
            move || async move {
                let st = choose_strategy(kind);
                ev("cfg", "st", 0, format!("{st:?}"));
                let sys = Sys::new(kind, st, Mb::B(2));
                let subs: Vec<_> = (0..3).map(|i| spawn_s(SN[i], Mb::B(8))).collect();
                sys.sub(&subs[0], 0).await;
                sys.sub(&subs[2], 0).await;
                mcrt::settle();
                let (s, s1) = (sys.clone(), subs[1].clone());
                client("joiner", async move {
                    ev_hb("joiner", "b", 0, "");
                    s.sub(&s1, 0).await;
                    ev_hb("joiner", "e", 0, "");
                });
                if kind != Kind::PubSub {
                    let (s, id) = (sys.clone(), subs[2].id());
                    client("leaver", async move {
                        ev_hb("leaver", "b", 0, "");
                        s.unsub(id, Some(0)).await;
                        ev_hb("leaver", "e", 0, "");
                    });
                }
                for p in 0..2u32 {
                    let s = sys.clone();
                    client(["p0", "p1"][p as usize], async move {
                        for i in 1..=2 {
                            let id = 10 * p + i;
                            ev_hb("p", "b", id as i64, "");
                            if !s.publish(0, id).await {
                                fail("publishing failed");
                            }
                            ev_hb("p", "e", id as i64, "");
                        }
                    });
                }
                mcrt::settle();
                drop(subs);
            },
            move |f, l, v| {
                all_done(f, v);
                let spawned = l.get("cfg", "st").is_some_and(|e| e.s.contains("Spawned"));
                let all = [1i64, 2, 11, 12];
                for (i, name) in SN.iter().enumerate() {
                    let got = l.ns(name, "got");
                    for id in all {
                        let n = got.iter().filter(|x| **x == id).count();
                        let (pb, pe) = (l.pos("p", "b", id), l.pos("p", "e", id));
                        let (must, may) = match i {
                            0 => (true, true),
                            1 => (l.first("joiner", "e") < pb, l.first("joiner", "b") < pe),
                            _ if kind == Kind::PubSub => (true, true),
                            _ => (pe < l.first("leaver", "b"), pb < l.first("leaver", "e")),
                        };
                        if n > 1 || must && n == 0 || !may && n > 0 {
                            v.push(format!("{name} got message {id} {n} times (must {must}, may {may})"));
                        }
                    }
                    if !spawned {
                        for (a, b) in [(1, 2), (11, 12)] {
                            if let (Some(x), Some(y)) = (l.pos(name, "got", a), l.pos(name, "got", b)) {
                                if y < x {
                                    v.push(format!("{name} got {b} before {a}"));
                                }
                            }
                        }
                    }
                }
                // all subscribers see the messages in the same order, the one of publishing
                if !spawned {
                    let full = l.ns("s0", "got");
                    for name in &SN[1..] {
                        let got = l.ns(name, "got");
                        let mut it = full.iter();
                        if !got.iter().all(|g| it.any(|x| x == g)) {
                            v.push(format!("{name} saw {got:?} where s0 saw {full:?}"));
                        }
                    }
                }
            },
        )
    })
}

/// Subscribers use what they are subscribed to from within their handlers.
fn reentrant(kind: Kind) -> Scn {
    let (prop, _) = prop_of(kind);
    let name = match kind {
        Kind::Broker => "broker-from-handlers",
        Kind::Bus => "bus-from-handlers",
        Kind::PubSub => "pubsub-from-handlers",
    };
    scn(prop, name, 1, 2, "a subscriber publishes, subscribes itself or another again, unsubscribes itself or another, or ends one, from within its handler of a published message, under every delivery strategy", move || {
        prog(
            move || async move {
                let st = choose_strategy(kind);
                let sys = Sys::new(kind, st, Mb::U);
                let subs = [spawn_s("s0", Mb::B(4)), spawn_s("s1", Mb::U), spawn_s("s2", Mb::U)];
                let mut model = Model::default();
                for s in 0..2 {
                    sys.sub(&subs[s], 0).await;
                    model.sub(kind, s, 0);
                }
                let op = choose(if kind == Kind::PubSub { 4 } else { 6 });
                let early = choose(2) == 1;
                ev("cfg", "case", op as i64, format!("{st:?} {early}"));
                let (y, x) = (sys.clone(), subs.clone());
                let f: React = Arc::new(move || {
                    let (y, x) = (y.clone(), x.clone());
                    Box::pin(async move {
                        match op {
                            0 => {}
                            1 => y.sub(&x[2], 0).await,
                            2 => y.sub(&x[0], 1).await,
                            3 => {
                                x[1].kill();
                                x[1].wait_for_shutdown().await;
                            }
                            4 => y.unsub(x[0].id(), Some(0)).await,
                            _ => y.unsub(x[1].id(), Some(0)).await,
                        }
                        y.publish(0, 4).await;
                    })
                });
                *REACT.lock().unwrap() = Some(("s0", 2, f));
                let mut want: [Vec<i64>; 3] = Default::default();
                let mut send = |model: &Model, id: u32| {
                    for s in 0..3 {
                        for _ in 0..model.hits(kind, s, 0, id) {
                            want[s].push(id as i64);
                        }
                    }
                };
                send(&model, 2);
                match op {
                    1 => model.sub(kind, 2, 0),
                    2 => model.sub(kind, 0, 1),
                    3 => model.unsub(1, Some(0)),
                    4 => model.unsub(0, Some(0)),
                    5 => model.unsub(1, Some(0)),
                    _ => {}
                }
                send(&model, 4);
                send(&model, 6);
                if early {
                    sys.publish_tell(0, 2).await;
                } else {
                    sys.publish(0, 2).await;
                }
                mcrt::settle();
                *REACT.lock().unwrap() = None;
                sys.publish(0, 6).await;
                mcrt::settle();
                if !sys.alive() {
                    fail("the hub has stopped");
                }
                let spawned = matches!(st, DeliveryStrategy::Spawned | DeliveryStrategy::SpawnedWithTimeout(_));
                for s in 0..3 {
                    let mut got = log().ns(SN[s], "got");
                    if spawned {
                        got.sort();
                    }
                    // killed with what it had not handled yet
                    let ok = if op == 3 && s == 1 { want[s].starts_with(&got) } else { got == want[s] };
                    if !ok {
                        fail(format!("{} got {got:?} instead of {:?}", SN[s], want[s]));
                    }
                }
                if log().countk("s0", "reacted") != 1 {
                    fail("the handler did not come to its end once");
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

/// A topic matcher written from the documentation of glob patterns with `/` as literal separator.
fn matches(p: &str, t: &str) -> bool {
    fn seg(p: &[char], t: &[char]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some('*') => (0..=t.len()).any(|i| seg(&p[1..], &t[i..])),
            Some('?') => !t.is_empty() && seg(&p[1..], &t[1..]),
            Some('[') => {
                let e = p.iter().position(|c| *c == ']').unwrap();
                let (neg, set) = if p[1] == '!' { (true, &p[2..e]) } else { (false, &p[1..e]) };
                !t.is_empty() && (set.contains(&t[0]) != neg) && seg(&p[e + 1..], &t[1..])
            }
            Some(c) => t.first() == Some(c) && seg(&p[1..], &t[1..]),
        }
    }
    fn parts(p: &[&str], t: &[&str]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some(&"**") => {
                if p.len() == 1 {
                    !t.is_empty()
                } else {
                    (0..=t.len()).any(|i| parts(&p[1..], &t[i..]))
                }
            }
            Some(s) => {
                let (a, b): (Vec<char>, Vec<char>) = (s.chars().collect(), t.first().map(|x| x.chars().collect()).unwrap_or_default());
                !t.is_empty() && seg(&a, &b) && parts(&p[1..], &t[1..])
            }
        }
    }
    parts(&p.split('/').collect::<Vec<_>>(), &t.split('/').collect::<Vec<_>>())
}

fn patterns() -> Scn {
    scn("P33", "broker-patterns", 0, 0, "one subscription and one topic for every pair of 16 patterns and 14 topics, against a matcher written from the documentation", || {
        prog(
            || async {
                const P: [&str; 16] = ["a", "a/b", "*", "?", "a/*", "*/b", "a*", "*b", "a/*/c", "**", "a/**", "**/c", "[ab]", "[!a]/b", "a/?b", "A"];
                const T: [&str; 14] = ["a", "b", "c", "A", "ab", "a/b", "b/b", "a/c", "a/.b", ".a", "a/b/c", "a/b/b/c", "a/bb", "b/a/c"];
                let (p, t) = (P[choose(16)], T[choose(14)]);
                ev("cfg", "pair", 0, format!("{p} {t}"));
                let b = spawn_with_mailbox(Broker::<N1>::new(DeliveryStrategy::Guaranteed), mailbox::unbounded());
                let s = spawn_s("s0", Mb::U);
                b.ask(broker::Subscribe { topic: glob::Pattern::new(p).unwrap(), recipient: s.clone().recipient() }).await.unwrap();
                b.ask(broker::Publish { topic: t.into(), message: N1(1) }).await.unwrap();
                mcrt::settle();
                let n = log().countk("s0", "got");
                if n != matches(p, t) as usize {
                    fail(format!("the subscription to {p} got {n} messages for one published to {t}"));
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

/// All strings of up to `n` of these characters whose levels are not empty.
fn words(alphabet: &[char], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| alphabet.iter().map(move |c| format!("{w}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all.retain(|w| w.split('/').all(|l| !l.is_empty()));
    all
}

/// Every pattern of a size with every topic of a size.
fn patterns_all(n: usize) -> Scn {
    let (name, quick) = if n == 4 { ("broker-patterns-all", 0) } else { ("broker-patterns-all-deep", SKIP) };
    scn("P33", name, quick, 0, "every pattern of up to four (deep: five) of the characters a, b, ., *, ? and / with every topic of up to four (deep: five) of a, b, . and /, against a matcher written from the documentation", move || {
        let patterns: Vec<(String, glob::Pattern)> = words(&['a', 'b', '.', '*', '?', '/'], n).into_iter().filter_map(|p| glob::Pattern::new(&p).ok().map(|g| (p, g))).collect();
        let topics = words(&['a', 'b', '.', '/'], n);
        prog(
            move || async move {
                mcrt::policy(0);
                mcrt::calm(true);
                const C: usize = 200;
                let hi = choose(patterns.len().div_ceil(C));
                let part = &patterns[hi * C..patterns.len().min((hi + 1) * C)];
                let (p, g) = &part[choose(part.len())];
                let b = spawn_with_mailbox(Broker::<N1>::new(DeliveryStrategy::Guaranteed), mailbox::unbounded());
                let s = spawn_s("s0", Mb::U);
                b.ask(broker::Subscribe { topic: g.clone(), recipient: s.clone().recipient() }).await.unwrap();
                let want: Vec<i64> = topics.iter().enumerate().filter(|(_, t)| matches(p, t)).map(|(i, _)| i as i64).collect();
                for (i, t) in topics.iter().enumerate() {
                    b.tell(broker::Publish { topic: t.clone(), message: N1(i as u32) }).await.unwrap();
                }
                mcrt::settle();
                let got = log().ns("s0", "got");
                if got != want {
                    let bad = got.iter().chain(&want).find(|i| got.contains(i) != want.contains(i));
                    fail(format!("of the topics, the subscription to {p} got {} instead of {}; differing in {:?}", got.len(), want.len(), bad.map(|i| &topics[*i as usize])));
                }
                ev("cfg", "got", got.len() as i64, p.clone());
            },
            |f, _l, v| all_done(f, v),
        )
    })
    .steps(400_000)
}

/// The pubsub used as a plain object.
fn standalone() -> Scn {
    scn("P32", "pubsub-standalone", 0, 0, "a pubsub that is not spawned: subscriptions with and without filters (closures with state), deaths and publications in every order of three", || {
        prog(
            || async {
                let mut p: PubSub<N1> = if choose(2) == 0 { PubSub::new() } else { PubSub::default() };
                let subs = [spawn_s("s0", Mb::U), spawn_s("s1", Mb::U)];
                // per subscriber: 0 none, 1 all, 2 every second message shown to the filter
                let mut model = [0u8; 2];
                let mut shown = [0u32; 2];
                let mut want: [Vec<i64>; 2] = Default::default();
                let mut dead = [false; 2];
                let mut id = 0;
                for step in 0..6 {
                    let c = if step < 3 { choose(7) } else { 6 };
                    let s = c % 2;
                    match c {
                        0 | 1 => {
                            p.subscribe(subs[s].clone());
                            model[s] = 1;
                        }
                        2 | 3 => {
                            let mut n = 0;
                            p.subscribe_filter(subs[s].clone(), move |_| {
                                n += 1;
                                n % 2 == 1
                            });
                            model[s] = 2;
                            shown[s] = 0;
                        }
                        4 | 5 => {
                            subs[s].kill();
                            subs[s].wait_for_shutdown().await;
                            dead[s] = true;
                        }
                        _ => {
                            id += 1;
                            for s in 0..2 {
                                shown[s] += 1;
                                if !dead[s] && (model[s] == 1 || model[s] == 2 && shown[s] % 2 == 1) {
                                    want[s].push(id as i64);
                                }
                            }
                            p.publish(N1(id)).await;
                            mcrt::quiesce();
                        }
                    }
                }
                mcrt::settle();
                for s in 0..2 {
                    let got = log().ns(SN[s], "got");
                    if got != want[s] {
                        fail(format!("{} got {got:?} instead of {:?}", SN[s], want[s]));
                    }
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

pub fn scenarios() -> Vec<Scn> {
    let mut v = vec![];
    for k in [Kind::PubSub, Kind::Broker, Kind::Bus] {
        v.push(sequences(k, 3));
        v.push(sequences(k, 4));
        v.push(deaths(k));
        v.push(full(k));
        v.push(races(k));
        v.push(reentrant(k));
    }
    v.push(patterns());
    v.push(patterns_all(4));
    v.push(patterns_all(5));
    v.push(standalone());
    v
}
