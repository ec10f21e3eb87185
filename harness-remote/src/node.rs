//! Remote actors and messages of the scenarios.
use crate::kit::*;
use crate::net::*;
use kameo::remote::*;
use kameo::{remote_message, RemoteActor};
use serde::{de::Error as _, ser::Error as _, Deserialize, Deserializer, Serialize, Serializer};

/// Fails to be encoded (1) or decoded (2).
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Fussy(pub u8);
impl Serialize for Fussy {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == 1 {
            return Err(S::Error::custom("will not be written"));
        }
        s.serialize_u8(self.0)
    }
}
impl<'de> Deserialize<'de> for Fussy {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = u8::deserialize(d)?;
        if n == 2 {
            return Err(D::Error::custom("will not be read"));
        }
        Ok(Fussy(n))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum K {
    Ok,
    Err,
    Panic,
    /// waits for the gate
    Wait,
    Yield(u8),
    /// takes this long (ms)
    Sleep(u64),
}

/// The usual message.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Q {
    pub id: u32,
    pub k: K,
    pub me: Fussy,
    /// how the reply is encoded (as `Fussy`)
    pub reply: u8,
    pub data: Data,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Data {
    // left out when it is none, so that it matters that fields have their names
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub a: Option<i64>,
    pub b: Vec<String>,
    pub c: (u8, bool),
    pub d: std::collections::BTreeMap<String, Vec<u8>>,
    pub e: Option<Box<Data>>,
}
pub fn q(id: u32, k: K) -> Q {
    Q { id, k, me: Fussy(0), reply: 0, data: Data::default() }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rep {
    pub v: u32,
    pub f: Fussy,
    pub data: Data,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RErr {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub opt: Option<String>,
    pub v: u32,
    pub f: Fussy,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Unit;

static GATE: std::sync::LazyLock<tokio::sync::Semaphore> = std::sync::LazyLock::new(|| tokio::sync::Semaphore::new(0));
pub fn open_gate(n: usize) {
    GATE.add_permits(n)
}
pub async fn gate() {
    GATE.acquire().await.unwrap().forget()
}

#[derive(Clone, Copy, Default)]
pub struct NC {
    /// `LINK_HOOK` is run
    pub hook: bool,
    pub on_link: LinkPolicy,
    pub stop_gate: bool,
    pub start_gate: bool,
}

type LinkHook = Box<dyn Fn(&'static str) -> futures::future::BoxFuture<'static, ()> + Send + Sync>;
pub static LINK_HOOK: Mutex<Option<LinkHook>> = Mutex::new(None);

macro_rules! actor {
    ($t:ident, $id:tt) => {
        #[derive(RemoteActor)]
        #[remote_actor(id = $id)]
        pub struct $t {
            pub name: &'static str,
            pub c: NC,
        }
        impl Drop for $t {
            fn drop(&mut self) {
                ev(self.name, "dropped", 0, "");
            }
        }
        impl Actor for $t {
            type Error = TErr;
            async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), TErr> {
                if self.c.start_gate {
                    gate().await;
                }
                ev(self.name, "started", 0, "");
                Ok(())
            }
            async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, TErr> {
                ev(self.name, "link_died", 0, format!("{} {}", full_name(id), rtext(&reason)));
                if self.c.hook {
                    let f = LINK_HOOK.lock().unwrap().as_ref().map(|h| h(self.name));
                    if let Some(f) = f {
                        f.await
                    }
                }
                match self.c.on_link {
                    LinkPolicy::Continue => Ok(ControlFlow::Continue(())),
                    _ => match &reason {
                        ActorStopReason::Normal => Ok(ControlFlow::Continue(())),
                        _ => Ok(ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(reason) })),
                    },
                }
            }
            async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), TErr> {
                ev(self.name, "stop", 0, rtext(&reason));
                if self.c.stop_gate {
                    gate().await;
                }
                Ok(())
            }
        }
    };
}
actor!(N, "na");
actor!(O, "nb");

async fn work(name: &str, m: Q) -> Result<Rep, RErr> {
    ev(name, "begin", m.id as i64, "");
    match m.k {
        K::Panic => panic!("handler {} panics", m.id),
        K::Wait => gate().await,
        K::Yield(n) => {
            for _ in 0..n {
                yield_now().await
            }
        }
        K::Sleep(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
        _ => {}
    }
    ev(name, "end", m.id as i64, "");
    match m.k {
        K::Err => Err(RErr { opt: None, v: m.id, f: Fussy(m.reply) }),
        _ => Ok(Rep { v: m.id + 1000, f: Fussy(m.reply), data: m.data }),
    }
}
#[remote_message("q")]
impl Message<Q> for N {
    type Reply = Result<Rep, RErr>;
    async fn handle(&mut self, m: Q, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        work(self.name, m).await
    }
}
#[remote_message("q")]
impl Message<Q> for O {
    type Reply = Result<Rep, RErr>;
    async fn handle(&mut self, m: Q, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let mut r = work(self.name, m).await;
        if let Ok(r) = &mut r {
            r.v += 100_000;
        }
        r
    }
}

/// Handled by `N` as a plain value, and with a name that says nothing about it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plain(pub u32);
#[remote_message("p")]
impl Message<Plain> for N {
    type Reply = u64;
    async fn handle(&mut self, m: Plain, _: &mut Context<Self, u64>) -> u64 {
        ev(self.name, "plain", m.0 as i64, "");
        m.0 as u64 * 3
    }
}
/// A delegated reply.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Later {
    pub id: u32,
    pub ok: bool,
    pub drop: bool,
}
#[remote_message("later")]
impl Message<Later> for N {
    type Reply = kameo::reply::DelegatedReply<Result<Rep, RErr>>;
    async fn handle(&mut self, m: Later, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        ev(self.name, "begin", m.id as i64, "");
        let (d, s) = ctx.reply_sender();
        if let Some(s) = s {
            if !m.drop {
                mcrt::set_next_name("replier");
                tokio::spawn(async move {
                    yield_now().await;
                    s.send(if m.ok { Ok(Rep { v: m.id + 1000, f: Fussy(0), data: Data::default() }) } else { Err(RErr { opt: None, v: m.id, f: Fussy(0) }) });
                });
            }
        }
        d
    }
}
/// Handled by the actor, but not known to the registry of remote messages.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Secret;
impl Message<Secret> for N {
    type Reply = u32;
    async fn handle(&mut self, _: Secret, _: &mut Context<Self, u32>) -> u32 {
        ev(self.name, "secret", 0, "");
        5
    }
}
impl RemoteMessage<Secret> for N {
    const REMOTE_ID: &'static str = "secret";
}
/// Stops or kills the actor from inside.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StopIt(pub bool);
#[remote_message("stop")]
impl Message<StopIt> for N {
    type Reply = ();
    async fn handle(&mut self, m: StopIt, ctx: &mut Context<Self, ()>) {
        ev(self.name, "stop-it", m.0 as i64, "");
        if m.0 {
            ctx.actor_ref().kill()
        } else {
            let _ = ctx.actor_ref().stop_gracefully().await;
        }
    }
}

/// As `reason_text`, with remote reasons and the peers of ids.
pub fn rtext(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "Normal".into(),
        ActorStopReason::Killed => "Killed".into(),
        ActorStopReason::Panicked(e) => format!("Panicked:{e}"),
        ActorStopReason::LinkDied { id, reason } => format!("LinkDied:{}:{}", full_name(*id), rtext(reason)),
        ActorStopReason::PeerDisconnected => "PeerDisconnected".into(),
    }
}
static SEQ: Mutex<Vec<(u64, &'static str)>> = Mutex::new(Vec::new());
/// name@peer
pub fn full_name(id: ActorID) -> String {
    let n = SEQ.lock().unwrap().iter().find(|(i, _)| *i == id.sequence_id()).map(|(_, n)| n.to_string()).unwrap_or_else(|| "?".into());
    format!("{n}@{}", id.peer_id().map(pname).unwrap_or("-"))
}

pub fn spawn_a<A: Actor>(a: A, name: &'static str, mb: Mb) -> ActorRef<A> {
    let p = PreparedActor::new(mb.make());
    let r = p.actor_ref().clone();
    SEQ.lock().unwrap().push((r.id().sequence_id(), name));
    mcrt::set_next_name(name);
    p.spawn(a);
    r
}
pub fn n(name: &'static str, c: NC, mb: Mb) -> ActorRef<N> {
    spawn_a(N { name, c }, name, mb)
}
pub fn o(name: &'static str, c: NC, mb: Mb) -> ActorRef<O> {
    spawn_a(O { name, c }, name, mb)
}

/// Runs the preparations of a scenario: one order of events, all of it done.
pub async fn prepare<F: std::future::Future>(f: F) -> F::Output {
    mcrt::calm(true);
    let r = f.await;
    mcrt::quiesce();
    mcrt::calm(false);
    r
}

/// Registers a local actor and finds it as the peer's.
pub async fn far<A: Actor + RemoteActor>(node: &NodeRef, a: &ActorRef<A>) -> RemoteActorRef<A> {
    a.register("near").await.unwrap();
    let b = node.dht.lock().unwrap().get(&b"near"[..]).cloned();
    let b = match b {
        Some(b) => b,
        None => node.on_node(|_, s| s.behaviour_mut().stored(&kad_key("near"))).await.unwrap(),
    };
    node.publish("far", mirrored(b.value));
    RemoteActorRef::<A>::lookup("far").await.unwrap().unwrap()
}
/// Registers a local actor and finds it as it is.
pub async fn near<A: Actor + RemoteActor>(a: &ActorRef<A>) -> RemoteActorRef<A> {
    a.register("near").await.unwrap();
    RemoteActorRef::<A>::lookup("near").await.unwrap().unwrap()
}
pub fn kad_key(s: &str) -> libp2p::kad::RecordKey {
    libp2p::kad::RecordKey::new(&s.as_bytes())
}
pub fn mirrored(mut b: Vec<u8>) -> Vec<u8> {
    mirror(&mut b, r());
    b
}

pub fn rerr_text<E: std::fmt::Debug>(e: &RemoteSendError<E>) -> String {
    use RemoteSendError::*;
    match e {
        ActorNotRunning => "NotRunning".into(),
        ActorStopped => "Stopped".into(),
        UnknownActor { actor_remote_id } => format!("UnknownActor {actor_remote_id}"),
        UnknownMessage { actor_remote_id, message_remote_id } => format!("UnknownMessage {actor_remote_id} {message_remote_id}"),
        BadActorType => "BadActorType".into(),
        MailboxFull => "Full".into(),
        ReplyTimeout => "Timeout".into(),
        HandlerError(e) => format!("handler {e:?}"),
        SerializeMessage(_) => "SerializeMessage".into(),
        DeserializeMessage(_) => "DeserializeMessage".into(),
        SerializeReply(_) => "SerializeReply".into(),
        SerializeHandlerError(_) => "SerializeHandlerError".into(),
        DeserializeHandlerError(_) => "DeserializeHandlerError".into(),
        SwarmNotBootstrapped => "SwarmNotBootstrapped".into(),
        DialFailure => "DialFailure".into(),
        NetworkTimeout => "NetworkTimeout".into(),
        ConnectionClosed => "ConnectionClosed".into(),
        UnsupportedProtocols => "UnsupportedProtocols".into(),
        Io(e) => format!("Io {}", e.is_some()),
    }
}
pub fn rres<T: std::fmt::Debug, E: std::fmt::Debug>(r: &Result<T, RemoteSendError<E>>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => rerr_text(e),
    }
}

/// Finds a local actor as if it were an actor of peer `p`.
pub async fn far_at<A: Actor + RemoteActor>(node: &NodeRef, a: &ActorRef<A>, name: &str, p: libp2p::PeerId) -> RemoteActorRef<A> {
    a.register(name).await.unwrap();
    let mut v = match node.dht.lock().unwrap().get(name.as_bytes()).cloned() {
        Some(b) => b.value,
        None => vec![],
    };
    if v.is_empty() {
        v = node.on_node({ let k = kad_key(name); move |_, s| s.behaviour_mut().stored(&k) }).await.unwrap().value;
    }
    let there = format!("{name} far");
    mirror(&mut v, p);
    node.publish(&there, v);
    RemoteActorRef::<A>::lookup(&there).await.unwrap().unwrap()
}
