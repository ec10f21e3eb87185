//! One node of the remote actor system under the controlled scheduler. The library's real
//! `ActorSwarmHandler` and real `ActorSwarmBehaviour` (its request-response and kademlia parts) run on a
//! real libp2p `Swarm` with a stub transport. The network is a mirror: what node L sends to peer R comes
//! back to L as if R had sent it, with the two peer ids swapped, so that L plays both sides of every
//! exchange. Messages cross the real CBOR codec. Each message in flight is a task: it can be delayed,
//! reordered, lost, or turned into any outbound failure.
use crate::kit::*;
use futures::{AsyncRead, AsyncWrite, FutureExt as _, StreamExt as _};
use kameo::remote::*;
use libp2p::core::muxing::{StreamMuxer, StreamMuxerBox, StreamMuxerEvent};
use libp2p::core::transport::{DialOpts as TDialOpts, ListenerId, PortUse, TransportError, TransportEvent};
use libp2p::core::upgrade::DeniedUpgrade;
use libp2p::core::{Endpoint, Transport};
use libp2p::kad;
use libp2p::request_response::{self as rr, OutboundFailure, OutboundRequestId, ProtocolSupport, ResponseChannel};
use libp2p::swarm::dial_opts::{DialOpts, PeerCondition};
use libp2p::swarm::handler::ConnectionEvent;
use libp2p::swarm::{
    ConnectionDenied, ConnectionHandler, ConnectionHandlerEvent, ConnectionId, FromSwarm, NetworkBehaviour, SubstreamProtocol, SwarmEvent, THandler,
    THandlerInEvent, THandlerOutEvent, ToSwarm,
};
use libp2p::{Multiaddr, PeerId, StreamProtocol, Swarm};
use smallvec::SmallVec;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::convert::Infallible as Never;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context as Cx, Poll, Wake, Waker};

pub fn peer(tag: u8) -> PeerId {
    let mut b = vec![0, 36, 8, 1, 18, 32];
    b.extend([tag; 32]);
    PeerId::from_bytes(&b).unwrap()
}
/// This node.
pub fn l() -> PeerId {
    peer(0xa1)
}
/// The peer (played by the mirror).
pub fn r() -> PeerId {
    peer(0xb2)
}
/// A peer nobody is connected to.
pub fn nobody() -> PeerId {
    peer(0xc3)
}
pub fn addr(p: PeerId) -> Multiaddr {
    format!("/memory/{}", p.to_bytes()[10] as u64 + 1).parse().unwrap()
}

// ------------------------------------------------------------------ stub transport

struct Mux;
#[derive(Debug)]
struct Sub;
impl AsyncRead for Sub {
    fn poll_read(self: Pin<&mut Self>, _: &mut Cx<'_>, _: &mut [u8]) -> Poll<std::io::Result<usize>> {
        Poll::Pending
    }
}
impl AsyncWrite for Sub {
    fn poll_write(self: Pin<&mut Self>, _: &mut Cx<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl StreamMuxer for Mux {
    type Substream = Sub;
    type Error = std::io::Error;
    fn poll_inbound(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Result<Sub, Self::Error>> {
        Poll::Pending
    }
    fn poll_outbound(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Result<Sub, Self::Error>> {
        Poll::Pending
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
    fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Result<StreamMuxerEvent, Self::Error>> {
        Poll::Pending
    }
}

struct Stub;
type Conn = (PeerId, StreamMuxerBox);
impl Transport for Stub {
    type Output = Conn;
    type Error = std::io::Error;
    type ListenerUpgrade = futures::future::Pending<Result<Conn, std::io::Error>>;
    type Dial = futures::future::Ready<Result<Conn, std::io::Error>>;
    fn listen_on(&mut self, _: ListenerId, a: Multiaddr) -> Result<(), TransportError<Self::Error>> {
        if a.to_string().starts_with("/memory/") {
            Ok(())
        } else {
            Err(TransportError::MultiaddrNotSupported(a))
        }
    }
    fn remove_listener(&mut self, _: ListenerId) -> bool {
        true
    }
    fn dial(&mut self, a: Multiaddr, _: TDialOpts) -> Result<Self::Dial, TransportError<Self::Error>> {
        for p in [r(), peer(0xd4)] {
            if a.to_string().starts_with(&addr(p).to_string()) {
                return Ok(futures::future::ready(Ok((p, StreamMuxerBox::new(Mux)))));
            }
        }
        Ok(futures::future::ready(Err(std::io::Error::other("unreachable"))))
    }
    fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<TransportEvent<Self::ListenerUpgrade, Self::Error>> {
        Poll::Pending
    }
}

// ------------------------------------------------------------------ the behaviour

/// Keeps connections open, speaks no protocol: requests are taken from the behaviour directly.
pub struct Keep;
impl ConnectionHandler for Keep {
    type FromBehaviour = Never;
    type ToBehaviour = Never;
    type InboundProtocol = DeniedUpgrade;
    type OutboundProtocol = DeniedUpgrade;
    type InboundOpenInfo = ();
    type OutboundOpenInfo = ();
    fn listen_protocol(&self) -> SubstreamProtocol<DeniedUpgrade> {
        SubstreamProtocol::new(DeniedUpgrade, ())
    }
    fn connection_keep_alive(&self) -> bool {
        true
    }
    fn on_behaviour_event(&mut self, e: Never) {
        match e {}
    }
    fn poll(&mut self, _: &mut Cx<'_>) -> Poll<ConnectionHandlerEvent<DeniedUpgrade, (), Never>> {
        Poll::Pending
    }
    fn on_connection_event(&mut self, _: ConnectionEvent<DeniedUpgrade, DeniedUpgrade>) {}
}

/// Same layout as request-response's message to its connection handler.
struct OutMsg {
    request_id: OutboundRequestId,
    request: SwarmRequest,
    #[allow(dead_code)]
    protocols: SmallVec<[StreamProtocol; 2]>,
}

#[derive(Debug)]
pub enum Out {
    Req { peer: PeerId, id: OutboundRequestId, req: SwarmRequest },
    Put { id: kad::QueryId, record: kad::Record },
    Get { id: kad::QueryId, key: kad::RecordKey },
    Mode(Option<kad::Mode>),
    Addr(PeerId, Multiaddr),
}

/// The library's behaviour with its outputs diverted. The mdns part is never initialised and never touched.
pub struct B {
    inner: Box<MaybeUninit<ActorSwarmBehaviour>>,
    pub out: VecDeque<Out>,
    pub waiting: Vec<(OutboundRequestId, PeerId, futures::channel::oneshot::Receiver<SwarmResponse>)>,
    pub refused: usize,
}
impl B {
    pub fn new(id: PeerId, max_records: usize) -> B {
        let mut inner = Box::new(MaybeUninit::<ActorSwarmBehaviour>::uninit());
        let mut c = kad::Config::new(StreamProtocol::new("/mc/kad"));
        c.set_replication_interval(None).set_publication_interval(None).set_provider_publication_interval(None).set_record_ttl(None).set_periodic_bootstrap_interval(None);
        let store = kad::store::MemoryStore::with_config(id, kad::store::MemoryStoreConfig { max_records, max_value_bytes: 200, ..Default::default() });
        let p = inner.as_mut_ptr();
        unsafe {
            std::ptr::addr_of_mut!((*p).kademlia).write(kad::Behaviour::with_config(id, store, c));
            std::ptr::addr_of_mut!((*p).request_response)
                .write(rr::cbor::Behaviour::new([(StreamProtocol::new("/kameo/1"), ProtocolSupport::Full)], rr::Config::default()));
        }
        B { inner, out: VecDeque::new(), waiting: vec![], refused: 0 }
    }
    fn i(&mut self) -> &mut ActorSwarmBehaviour {
        unsafe { &mut *self.inner.as_mut_ptr() }
    }
    pub fn stored(&mut self, key: &kad::RecordKey) -> Option<kad::Record> {
        self.i().kademlia_get_record_local(key).map(|r| r.into_owned())
    }
    fn rr(&mut self) -> &mut rr::cbor::Behaviour<SwarmRequest, SwarmResponse> {
        unsafe { &mut *std::ptr::addr_of_mut!((*self.inner.as_mut_ptr()).request_response) }
    }
}

impl NetworkBehaviour for B {
    type ConnectionHandler = Keep;
    type ToSwarm = ActorSwarmBehaviourEvent;
    fn handle_established_inbound_connection(&mut self, _: ConnectionId, _: PeerId, _: &Multiaddr, _: &Multiaddr) -> Result<THandler<Self>, ConnectionDenied> {
        Ok(Keep)
    }
    fn handle_established_outbound_connection(&mut self, c: ConnectionId, p: PeerId, a: &Multiaddr, e: Endpoint, u: PortUse) -> Result<THandler<Self>, ConnectionDenied> {
        // The real handler would carry requests made before the connection was up: dials here are done
        // before any request, so it carries none.
        self.rr().handle_established_outbound_connection(c, p, a, e, u).map(|_| Keep)
    }
    fn on_swarm_event(&mut self, e: FromSwarm) {
        self.rr().on_swarm_event(e)
    }
    fn on_connection_handler_event(&mut self, _: PeerId, _: ConnectionId, e: THandlerOutEvent<Self>) {
        match e {}
    }
    fn poll(&mut self, cx: &mut Cx<'_>) -> Poll<ToSwarm<Self::ToSwarm, THandlerInEvent<Self>>> {
        loop {
            match self.rr().poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(ToSwarm::GenerateEvent(e)) => return Poll::Ready(ToSwarm::GenerateEvent(ActorSwarmBehaviourEvent::RequestResponse(e))),
                Poll::Ready(ToSwarm::Dial { opts }) => return Poll::Ready(ToSwarm::Dial { opts }),
                Poll::Ready(ToSwarm::NotifyHandler { peer_id, event, .. }) => {
                    assert_eq!(std::mem::size_of_val(&event), std::mem::size_of::<OutMsg>());
                    let m: OutMsg = unsafe { std::ptr::read(&event as *const _ as *const OutMsg) };
                    std::mem::forget(event);
                    self.out.push_back(Out::Req { peer: peer_id, id: m.request_id, req: m.request });
                }
                Poll::Ready(_) => {}
            }
        }
    }
}

impl SwarmBehaviour for B {
    fn ask(&mut self, peer: &PeerId, a: ActorID, ar: Cow<'static, str>, mr: Cow<'static, str>, p: Vec<u8>, mt: Option<Duration>, rt: Option<Duration>, im: bool) -> OutboundRequestId {
        self.i().ask(peer, a, ar, mr, p, mt, rt, im)
    }
    fn tell(&mut self, peer: &PeerId, a: ActorID, ar: Cow<'static, str>, mr: Cow<'static, str>, p: Vec<u8>, mt: Option<Duration>, im: bool) -> OutboundRequestId {
        self.i().tell(peer, a, ar, mr, p, mt, im)
    }
    fn link(&mut self, a: ActorID, ar: Cow<'static, str>, s: ActorID, sr: Cow<'static, str>) -> OutboundRequestId {
        self.i().link(a, ar, s, sr)
    }
    fn unlink(&mut self, a: ActorID, ar: Cow<'static, str>, s: ActorID) -> OutboundRequestId {
        self.i().unlink(a, ar, s)
    }
    fn signal_link_died(&mut self, d: ActorID, n: ActorID, nr: Cow<'static, str>, why: ActorStopReason) -> OutboundRequestId {
        self.i().signal_link_died(d, n, nr, why)
    }
    fn send_ask_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<Vec<u8>, RemoteSendError<Vec<u8>>>) -> Result<(), SwarmResponse> {
        self.i().send_ask_response(c, r)
    }
    fn send_tell_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError>) -> Result<(), SwarmResponse> {
        self.i().send_tell_response(c, r)
    }
    fn send_link_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> {
        self.i().send_link_response(c, r)
    }
    fn send_unlink_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> {
        self.i().send_unlink_response(c, r)
    }
    fn send_signal_link_died_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> {
        self.i().send_signal_link_died_response(c, r)
    }
    fn kademlia_add_address(&mut self, p: &PeerId, a: Multiaddr) -> kad::RoutingUpdate {
        self.out.push_back(Out::Addr(*p, a.clone()));
        self.i().kademlia_add_address(p, a)
    }
    fn kademlia_set_mode(&mut self, m: Option<kad::Mode>) {
        self.out.push_back(Out::Mode(m));
        self.i().kademlia_set_mode(m)
    }
    fn kademlia_get_record(&mut self, key: kad::RecordKey) -> kad::QueryId {
        let id = self.i().kademlia_get_record(key.clone());
        self.out.push_back(Out::Get { id, key });
        id
    }
    fn kademlia_get_record_local(&mut self, key: &kad::RecordKey) -> Option<Cow<'_, kad::Record>> {
        self.i().kademlia_get_record_local(key)
    }
    fn kademlia_put_record(&mut self, record: kad::Record, q: kad::Quorum) -> Result<kad::QueryId, kad::store::Error> {
        let r = self.i().kademlia_put_record(record.clone(), q);
        match &r {
            Ok(id) => self.out.push_back(Out::Put { id: *id, record }),
            Err(_) => self.refused += 1,
        }
        r
    }
    fn kademlia_put_record_local(&mut self, record: kad::Record) -> Result<(), kad::store::Error> {
        let r = self.i().kademlia_put_record_local(record);
        self.refused += r.is_err() as usize;
        r
    }
    fn kademlia_remove_record(&mut self, key: &kad::RecordKey) {
        self.i().kademlia_remove_record(key)
    }
    fn kademlia_remove_record_local(&mut self, key: &kad::RecordKey) {
        self.i().kademlia_remove_record_local(key)
    }
}

// ------------------------------------------------------------------ the wire

pub type C = <rr::cbor::Behaviour<SwarmRequest, SwarmResponse> as CodecOf>::C;
pub trait CodecOf {
    type C;
}
impl<C: rr::Codec + Clone + Send + 'static> CodecOf for rr::Behaviour<C> {
    type C = C;
}
const PROTO: StreamProtocol = StreamProtocol::new("/kameo/1");

pub fn encode_request(q: SwarmRequest) -> Result<Vec<u8>, std::io::Error> {
    use rr::Codec;
    let mut b = futures::io::Cursor::new(vec![]);
    C::default().write_request(&PROTO, &mut b, q).now_or_never().expect("ready")?;
    Ok(b.into_inner())
}
pub fn decode_request(b: &[u8]) -> Result<SwarmRequest, std::io::Error> {
    use rr::Codec;
    C::default().read_request(&PROTO, &mut futures::io::Cursor::new(b)).now_or_never().expect("ready")
}
pub fn encode_response(q: SwarmResponse) -> Result<Vec<u8>, std::io::Error> {
    use rr::Codec;
    let mut b = futures::io::Cursor::new(vec![]);
    C::default().write_response(&PROTO, &mut b, q).now_or_never().expect("ready")?;
    Ok(b.into_inner())
}
pub fn decode_response(b: &[u8]) -> Result<SwarmResponse, std::io::Error> {
    use rr::Codec;
    C::default().read_response(&PROTO, &mut futures::io::Cursor::new(b)).now_or_never().expect("ready")
}
/// Exchanges the two peers in an encoded message.
pub fn mirror(b: &mut [u8], p: PeerId) {
    let (x, y) = (l().to_bytes(), p.to_bytes());
    let mut i = 0;
    while i + x.len() <= b.len() {
        if b[i..i + x.len()] == x[..] {
            b[i..i + x.len()].copy_from_slice(&y);
            i += x.len();
        } else if b[i..i + x.len()] == y[..] {
            b[i..i + x.len()].copy_from_slice(&x);
            i += x.len();
        } else {
            i += 1;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Deliver,
    /// the request never arrives; the outbound request fails in one of the ways of libp2p
    Lose(u8),
    /// the request arrives, its answer is lost
    LoseAnswer(u8),
    /// delivered when the scenario says so, with `release`
    Hold,
    /// nothing at all comes back
    Silent,
}
pub const FAILURES: u8 = 5;
pub fn failure(k: u8) -> OutboundFailure {
    match k {
        0 => OutboundFailure::DialFailure,
        1 => OutboundFailure::Timeout,
        2 => OutboundFailure::ConnectionClosed,
        3 => OutboundFailure::UnsupportedProtocols,
        _ => OutboundFailure::Io(std::io::Error::other("broken pipe")),
    }
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    /// peers with a connection at the start (one entry per connection)
    pub peers: Vec<PeerId>,
    pub max_records: usize,
    /// what happens to the n-th request of a kind
    pub fate: fn(kind: &str, n: usize) -> Fate,
    /// result of the n-th network put / get
    pub put: fn(n: usize) -> PutFate,
    pub get: fn(n: usize) -> GetFate,
    /// log requests and responses on the wire
    pub trace: bool,
    /// messages take a task each (arbitrary delays); otherwise they arrive at once, in order
    pub delays: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PutFate {
    Ok,
    Quorum,
    Timeout,
    /// no result for now
    Never,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GetFate {
    Real,
    Quorum,
    Timeout,
    Never,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg { peers: vec![r()], max_records: 16, fate: |_, _| Fate::Deliver, put: |_| PutFate::Ok, get: |_| GetFate::Real, trace: false, delays: true }
    }
}
pub fn alone() -> NetCfg {
    NetCfg { peers: vec![], ..Default::default() }
}
pub fn still() -> NetCfg {
    NetCfg { delays: false, ..Default::default() }
}

pub enum Net {
    Request { from: PeerId, id: OutboundRequestId, bytes: Vec<u8> },
    Response { from: PeerId, id: OutboundRequestId, bytes: Vec<u8> },
    Fail { peer: PeerId, id: OutboundRequestId, error: OutboundFailure },
    Kad(kad::Event),
    Event(ActorSwarmEvent),
    /// run something on the node
    Do(Box<dyn FnOnce(&mut ActorSwarmHandler, &mut Swarm<B>) + Send>),
    /// close all connections with the peer
    Close(PeerId),
    /// bytes from the peer, as a request
    Raw { bytes: Vec<u8>, tx: tokio::sync::oneshot::Sender<SwarmResponse> },
}

/// An operation the network has not answered (nor will it, unless the scenario does).
pub enum Pend {
    Put { id: kad::QueryId, key: kad::RecordKey },
    Get { id: kad::QueryId, key: kad::RecordKey },
    Req { id: OutboundRequestId, peer: PeerId, kind: &'static str },
}

#[derive(Clone)]
pub struct NodeRef {
    /// open connections
    pub conns: Arc<Mutex<Vec<(PeerId, ConnectionId)>>>,
    pub pending: Arc<Mutex<Vec<Pend>>>,
    pub tx: tokio::sync::mpsc::UnboundedSender<Net>,
    pub held: Arc<Mutex<Vec<Net>>>,
    pub dht: Arc<Mutex<BTreeMap<Vec<u8>, kad::Record>>>,
    pub forged: Arc<Mutex<Vec<SwarmResponse>>>,
}
impl NodeRef {
    /// The next request is not carried out; it is answered with this.
    pub fn answer_with(&self, q: SwarmResponse) {
        self.forged.lock().unwrap().push(q);
    }
    pub fn send(&self, n: Net) {
        let _ = self.tx.send(n);
    }
    pub async fn on_node<R: Send + 'static>(&self, f: impl FnOnce(&mut ActorSwarmHandler, &mut Swarm<B>) -> R + Send + 'static) -> R {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.send(Net::Do(Box::new(move |h, s| {
            let _ = tx.send(f(h, s));
        })));
        rx.await.unwrap()
    }
    /// Delivers what is held, in order.
    pub fn release(&self) {
        for n in std::mem::take(&mut *self.held.lock().unwrap()) {
            self.send(n);
        }
    }
    pub fn release_reversed(&self) {
        let mut v = std::mem::take(&mut *self.held.lock().unwrap());
        v.reverse();
        for n in v {
            self.send(n);
        }
    }
    /// A record in the network's table.
    pub fn publish(&self, name: &str, value: Vec<u8>) {
        // (a record which came over the network tells who published it)
        let mut rec = kad::Record::new(name.as_bytes().to_vec(), value);
        rec.publisher = Some(r());
        self.dht.lock().unwrap().insert(name.as_bytes().to_vec(), rec);
    }
}

struct Woken(std::sync::atomic::AtomicBool);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst)
    }
}

/// Polls the swarm until it is idle and hands its events on, as the library's own loop does.
fn pump_swarm(handler: &mut ActorSwarmHandler, swarm: &mut Swarm<B>, answered: &BTreeSet<OutboundRequestId>, conns: &Mutex<Vec<(PeerId, ConnectionId)>>) {
    let w = Arc::new(Woken(true.into()));
    let waker = Waker::from(w.clone());
    let mut cx = Cx::from_waker(&waker);
    while w.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
        while let Poll::Ready(Some(e)) = swarm.poll_next_unpin(&mut cx) {
            match e {
                SwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause } => {
                    conns.lock().unwrap().retain(|c| c.1 != connection_id);
                    handler.handle_event(swarm, ActorSwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause })
                }
                SwarmEvent::Behaviour(e) => {
                    // the answers are delivered past libp2p, which so does not know of them
                    if let ActorSwarmBehaviourEvent::RequestResponse(rr::Event::OutboundFailure { request_id, .. }) = &e {
                        if answered.contains(request_id) {
                            continue;
                        }
                    }
                    handler.handle_event(swarm, ActorSwarmEvent::Behaviour(e))
                }
                SwarmEvent::ConnectionEstablished { peer_id, connection_id, .. } => conns.lock().unwrap().push((peer_id, connection_id)),
                _ => {}
            }
        }
    }
}

fn kind(q: &SwarmRequest) -> &'static str {
    match q {
        SwarmRequest::Ask { .. } => "ask",
        SwarmRequest::Tell { .. } => "tell",
        SwarmRequest::Link { .. } => "link",
        SwarmRequest::Unlink { .. } => "unlink",
        SwarmRequest::SignalLinkDied { .. } => "died",
    }
}

pub fn progressed(id: kad::QueryId, result: kad::QueryResult) -> kad::Event {
    let one = std::num::NonZeroUsize::new(1).unwrap();
    kad::Event::OutboundQueryProgressed { id, result, stats: kad::QueryStats::empty(), step: kad::ProgressStep { count: one, last: true } }
}

/// Starts the node. The library allows one per process.
pub fn node(cfg: NetCfg) -> NodeRef {
    let (actor_swarm, mut handler) = ActorSwarm::bootstrap_manual(l()).expect("one node per process");
    assert_eq!(actor_swarm.local_peer_id(), &l());
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Net>();
    let node = NodeRef { conns: Default::default(), tx, pending: Default::default(), held: Default::default(), dht: Default::default(), forged: Default::default() };
    let mut swarm = Swarm::new(Stub.boxed(), B::new(l(), cfg.max_records), l(), libp2p::swarm::Config::without_executor());
    for p in &cfg.peers {
        swarm.dial(DialOpts::peer_id(*p).addresses(vec![addr(*p)]).condition(PeerCondition::Always).build()).expect("dial");
    }
    let mut answered = BTreeSet::new();
    pump_swarm(&mut handler, &mut swarm, &answered, &node.conns);
    let mut ps = cfg.peers.clone();
    ps.sort();
    ps.dedup();
    assert_eq!(swarm.network_info().num_peers(), ps.len(), "stub transport");
    let me = node.clone();
    mcrt::set_next_name("node");
    tokio::spawn(async move {
        let mut counts: BTreeMap<&'static str, usize> = BTreeMap::new();
        let (mut puts, mut gets) = (0, 0);
        let mut raws: Vec<(tokio::sync::oneshot::Sender<SwarmResponse>, futures::channel::oneshot::Receiver<SwarmResponse>)> = vec![];
        let mut lose_answer: BTreeMap<OutboundRequestId, u8> = BTreeMap::new();
        loop {
            tokio::select! {
                biased;
                cmd = handler.next_command() => handler.handle_command(&mut swarm, cmd.expect("the sender is global")),
                ev = rx.recv() => match ev.expect("kept by the node") {
                    Net::Request { from, id, bytes } => {
                        let request = match decode_request(&bytes) {
                            Ok(q) => q,
                            Err(e) => {
                                ev_wire(&cfg, format!("request lost: {e}"));
                                me.send(Net::Fail { peer: from, id, error: OutboundFailure::ConnectionClosed });
                                continue;
                            }
                        };
                        let (tx, rx) = futures::channel::oneshot::channel();
                        assert_eq!(std::mem::size_of_val(&tx), std::mem::size_of::<ResponseChannel<SwarmResponse>>());
                        let channel: ResponseChannel<SwarmResponse> = unsafe { std::mem::transmute(tx) };
                        swarm.behaviour_mut().waiting.push((id, from, rx));
                        let request_id: rr::InboundRequestId = unsafe { std::mem::transmute(7u64) };
                        let message = rr::Message::Request { request_id, request, channel };
                        handler.handle_event(&mut swarm, ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::RequestResponse(rr::Event::Message { peer: from, connection_id: ConnectionId::new_unchecked(1), message })));
                    }
                    Net::Response { from, id, bytes } => match decode_response(&bytes) {
                        Ok(response) => {
                            answered.insert(id);
                            let message = rr::Message::Response { request_id: id, response };
                            handler.handle_event(&mut swarm, ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::RequestResponse(rr::Event::Message { peer: from, connection_id: ConnectionId::new_unchecked(1), message })));
                        }
                        Err(e) => {
                            answered.insert(id);
                            handler.handle_event(&mut swarm, failed(from, id, OutboundFailure::Io(e)));
                        }
                    },
                    Net::Fail { peer, id, error } => {
                        answered.insert(id);
                        handler.handle_event(&mut swarm, failed(peer, id, error));
                    }
                    Net::Kad(e) => handler.handle_event(&mut swarm, ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::Kademlia(e))),
                    Net::Event(e) => handler.handle_event(&mut swarm, e),
                    Net::Do(f) => f(&mut handler, &mut swarm),
                    Net::Raw { bytes, tx } => {
                        if let Ok(request) = decode_request(&bytes) {
                            let (tx2, rx) = futures::channel::oneshot::channel();
                            let channel: ResponseChannel<SwarmResponse> = unsafe { std::mem::transmute(tx2) };
                            if tx.is_closed() {
                                // the peer is gone: its answer goes nowhere
                                drop(rx);
                            } else {
                                raws.push((tx, rx));
                            }
                            let request_id: rr::InboundRequestId = unsafe { std::mem::transmute(8u64) };
                            let message = rr::Message::Request { request_id, request, channel };
                            handler.handle_event(&mut swarm, ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::RequestResponse(rr::Event::Message { peer: r(), connection_id: ConnectionId::new_unchecked(1), message })));
                        }
                    }
                    Net::Close(p) => {
                        let _ = swarm.disconnect_peer_id(p);
                    }
                },
            }
            pump_swarm(&mut handler, &mut swarm, &answered, &me.conns);
            // what the behaviour wants sent
            while let Some(o) = swarm.behaviour_mut().out.pop_front() {
                match o {
                    Out::Req { peer, id, req } => {
                        let k = kind(&req);
                        let n = counts.entry(k).or_insert(0);
                        let fate = (cfg.fate)(k, *n);
                        *n += 1;
                        ev_wire(&cfg, format!("{k} to {} {fate:?}", pname(&peer)));
                        if let Some(q) = me.forged.lock().unwrap().pop() {
                            me.send(Net::Response { from: peer, id, bytes: encode_response(q).unwrap() });
                            continue;
                        }
                        let mut bytes = match encode_request(req) {
                            Ok(b) => b,
                            Err(e) => {
                                me.send(Net::Fail { peer, id, error: OutboundFailure::Io(e) });
                                continue;
                            }
                        };
                        mirror(&mut bytes, peer);
                        let arrives = Net::Request { from: peer, id, bytes };
                        match fate {
                            Fate::Deliver => wire(&me, cfg.delays, arrives),
                            Fate::Lose(f) => wire(&me, cfg.delays, Net::Fail { peer, id, error: failure(f) }),
                            Fate::LoseAnswer(f) => {
                                lose_answer.insert(id, f);
                                wire(&me, cfg.delays, arrives)
                            }
                            Fate::Hold => me.held.lock().unwrap().push(arrives),
                            Fate::Silent => me.pending.lock().unwrap().push(Pend::Req { id, peer, kind: k }),
                        }
                    }
                    Out::Put { id, record } => {
                        let fate = (cfg.put)(puts);
                        puts += 1;
                        let one = std::num::NonZeroUsize::new(1).unwrap();
                        let key = record.key.clone();
                        let r = match fate {
                            PutFate::Never => {
                                me.pending.lock().unwrap().push(Pend::Put { id, key });
                                continue;
                            }
                            PutFate::Ok => {
                                let mut record = record;
                                record.publisher = Some(*swarm.local_peer_id());
                                me.dht.lock().unwrap().insert(key.to_vec(), record);
                                Ok(kad::PutRecordOk { key })
                            }
                            PutFate::Quorum => Err(kad::PutRecordError::QuorumFailed { key, success: vec![], quorum: one }),
                            PutFate::Timeout => Err(kad::PutRecordError::Timeout { key, success: vec![], quorum: one }),
                        };
                        wire(&me, cfg.delays, Net::Kad(progressed(id, kad::QueryResult::PutRecord(r))));
                    }
                    Out::Get { id, key } => {
                        let fate = (cfg.get)(gets);
                        gets += 1;
                        let one = std::num::NonZeroUsize::new(1).unwrap();
                        let r = match fate {
                            GetFate::Never => {
                                me.pending.lock().unwrap().push(Pend::Get { id, key });
                                continue;
                            }
                            GetFate::Real => {
                                let stored = swarm.behaviour_mut().stored(&key);
                                let there = me.dht.lock().unwrap().get(&key.to_vec()).cloned();
                                match stored.map(|r| (None, r)).or(there.map(|r| (Some(crate::net::r()), r))) {
                                    Some((peer, record)) => Ok(kad::GetRecordOk::FoundRecord(kad::PeerRecord { peer, record })),
                                    None => Err(kad::GetRecordError::NotFound { key, closest_peers: vec![] }),
                                }
                            }
                            GetFate::Quorum => Err(kad::GetRecordError::QuorumFailed { key, records: vec![], quorum: one }),
                            GetFate::Timeout => Err(kad::GetRecordError::Timeout { key }),
                        };
                        wire(&me, cfg.delays, Net::Kad(progressed(id, kad::QueryResult::GetRecord(r))));
                    }
                    Out::Mode(_) | Out::Addr(..) => {}
                }
            }
            let mut keep = vec![];
            for (tx, mut rx) in raws.drain(..) {
                match rx.try_recv() {
                    Ok(None) => keep.push((tx, rx)),
                    Ok(Some(q)) => {
                        let _ = tx.send(q);
                    }
                    Err(_) => {}
                }
            }
            raws = keep;
            // answers given
            let mut waiting = std::mem::take(&mut swarm.behaviour_mut().waiting);
            let mut keep = vec![];
            for (id, from, mut rx) in waiting.drain(..) {
                match rx.try_recv() {
                    Ok(None) => keep.push((id, from, rx)),
                    Ok(Some(resp)) => {
                        ev_wire(&cfg, format!("answer {}", short_response(&resp)));
                        if let Some(f) = lose_answer.remove(&id) {
                            wire(&me, cfg.delays, Net::Fail { peer: from, id, error: failure(f) });
                            continue;
                        }
                        match encode_response(resp) {
                            Ok(mut bytes) => {
                                mirror(&mut bytes, from);
                                wire(&me, cfg.delays, Net::Response { from, id, bytes });
                            }
                            Err(_) => wire(&me, cfg.delays, Net::Fail { peer: from, id, error: OutboundFailure::ConnectionClosed }),
                        }
                    }
                    // the other side dropped the channel: the stream is closed without an answer
                    Err(_) => wire(&me, cfg.delays, Net::Fail { peer: from, id, error: OutboundFailure::ConnectionClosed }),
                }
            }
            swarm.behaviour_mut().waiting = keep;
        }
    });
    node
}

fn wire(n: &NodeRef, delays: bool, m: Net) {
    if !delays {
        n.send(m);
        return;
    }
    let n = n.clone();
    mcrt::set_next_name("wire");
    tokio::spawn(async move { n.send(m) });
}

fn failed(peer: PeerId, id: OutboundRequestId, error: OutboundFailure) -> ActorSwarmEvent {
    ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::RequestResponse(rr::Event::OutboundFailure { peer, connection_id: ConnectionId::new_unchecked(1), request_id: id, error }))
}

fn ev_wire(c: &NetCfg, s: String) {
    if c.trace {
        ev("wire", "", 0, s)
    }
}
pub fn pname(p: &PeerId) -> &'static str {
    if *p == l() {
        "L"
    } else if *p == r() {
        "R"
    } else if *p == peer(0xd4) {
        "D"
    } else {
        "?"
    }
}
fn short_response(q: &SwarmResponse) -> String {
    match q {
        SwarmResponse::Ask(r) => format!("ask {}", r.is_ok()),
        SwarmResponse::Tell(r) => format!("tell {r:?}"),
        SwarmResponse::Link(r) => format!("link {r:?}"),
        SwarmResponse::Unlink(r) => format!("unlink {r:?}"),
        SwarmResponse::SignalLinkDied(r) => format!("died {r:?}"),
        SwarmResponse::OutboundFailure(e) => format!("failure {e:?}"),
    }
}

/// The id of a local actor as the mirror's peer has it: (seq, R).
pub fn across(id: ActorID) -> ActorID {
    ActorID::new_with_peer_id(id.sequence_id(), r())
}
