//! P52: every swarm command is answered exactly once, whatever the network does.
use crate::kit::*;
use crate::net::*;
use crate::node::*;
use crate::p50::{raw, raw_gone, send_any, send_q, to_payload, Op};
use crate::p51::rerr;
use kameo::error::RegistryError;
use kameo::remote::*;
use libp2p::kad;
use libp2p::request_response as rr;
use libp2p::swarm::dial_opts::{DialOpts, PeerCondition};
use libp2p::PeerId;
use std::collections::BTreeMap;

pub fn all() -> Vec<Scn> {
    vec![
        scn("P52", "swarm-pairs", 0, 0, "any two commands in flight; the network completes them in either order with any outcome, with and without events that belong to nothing", || flight(&ALL, 2, true)),
        scn("P52", "swarm-triples", 0, 0, "three commands in flight, completed in any order, well or badly", || flight(&[K7::Reg, K7::Look, K7::Ask, K7::Link], 3, false)),
        scn("P52", "swarm-drops", 0, 0, "a caller gives up before its command completes; the other command in flight is answered", drops),
        scn("P52", "swarm-closing", 0, 1, "connections are closed with requests in flight to two peers; late answers come; the peer is gone", closing),
        scn("P52", "swarm-store", 0, 0, "registration, replacement, unregistration, death and lookup in any order over a small store, against a reference map, alone and with a peer", store),
        scn("P52", "swarm-misc", 0, 0, "listening, dialling, addresses and disconnecting, each well and badly; every call before the node is up", misc),
        scn("P52", "swarm-peer-requests", 0, 0, "every kind of request a peer can make, for every kind of actor, type and message; the node answers each once and goes on", peer_requests),
        scn("P52", "swarm-peer-gone", 0, 1, "every kind of request a peer can make, for every kind of actor; the peer is gone before the answer", peer_gone),
        scn("P52", "swarm-interleaved", 1, 3, "two clients register, look up and unregister the same name with arbitrary network delays", interleaved),
    ]
}

const D: u8 = 0xd4;
fn d4() -> PeerId {
    peer(D)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K7 {
    Reg,
    Unreg,
    Look,
    Ask,
    Tell,
    Link,
    Unlink,
}
use K7::*;
pub type Pick = K7;
/// The kinds in turn.
pub fn nth(i: usize) -> K7 {
    ALL[i % 7]
}
const ALL: [K7; 7] = [Reg, Unreg, Look, Ask, Tell, Link, Unlink];

fn unit<E: std::fmt::Debug>(r: Result<(), E>, t: impl Fn(&E) -> String) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => t(&e),
    }
}
fn reg_text(r: Result<(), RegistryError>) -> String {
    unit(r, |e| rerr(e).to_string())
}

pub struct World {
    pub node: NodeRef,
    pub f: RemoteActorRef<N>,
    pub b: ActorRef<O>,
}
/// One actor, known as the peer's; one of another type. From now on the network answers nothing by itself.
pub async fn world(peers: Vec<PeerId>) -> World {
    let node = node(NetCfg {
        peers,
        max_records: 4000,
        put: |n| if n == 0 { PutFate::Ok } else { PutFate::Never },
        get: |n| if n == 0 { GetFate::Real } else { GetFate::Never },
        fate: |_, _| Fate::Silent,
        ..still()
    });
    let a = n("a", NC::default(), Mb::U);
    let f = far(&node, &a).await;
    let b = o("b", NC::default(), Mb::U);
    World { node, f, b }
}
pub fn cname(i: usize) -> &'static str {
    match i {
        0 => "c0",
        1 => "c1",
        2 => "c2",
        _ => Box::leak(format!("c{i}").into_boxed_str()),
    }
}
pub fn issue(w: &World, i: usize, k: K7) -> tokio::task::JoinHandle<()> {
    let (f, b) = (w.f.clone(), w.b.clone());
    mcrt::set_next_name(cname(i));
    tokio::spawn(async move {
        let name = format!("name{i}");
        let s = match k {
            Reg => reg_text(b.register(&name).await),
            Unreg => reg_text(ActorSwarm::get().unwrap().unregister(name).await),
            Look => match RemoteActorRef::<N>::lookup(&name).await {
                Ok(Some(r)) => format!("found {}", r.id().sequence_id()),
                Ok(None) => "none".into(),
                Err(e) => rerr(&e).to_string(),
            },
            Ask => send_q(&f, Op::Ask, q(i as u32, crate::node::K::Ok), None, None).await,
            Tell => send_q(&f, Op::Tell, q(i as u32, crate::node::K::Ok), None, None).await,
            Link => unit(b.link_remote(&f).await, rerr_text),
            Unlink => unit(b.unlink_remote(&f).await, rerr_text),
        };
        ev(cname(i), "got", 0, s);
    })
}
fn variants(k: K7, all: bool) -> usize {
    match (k, all) {
        (_, false) => 2,
        (Reg | Unreg, _) => 3,
        (Look, _) => 4,
        _ => 2 + FAILURES as usize,
    }
}
fn one() -> std::num::NonZeroUsize {
    std::num::NonZeroUsize::new(1).unwrap()
}
fn found_bytes(i: usize) -> Vec<u8> {
    // as an entry is written: length of the peer, number, peer, type
    let mut b = vec![r().to_bytes().len() as u8];
    b.extend((5000 + i as u64).to_le_bytes());
    b.extend(r().to_bytes());
    b.extend(b"na");
    b
}
/// The network's completion of a pending command with variant `v` (and content `i`), and what its caller gets.
pub fn complete(node: &NodeRef, p: &Pend, k: K7, i: usize, v: usize) -> String {
    match p {
        Pend::Put { id, key } => {
            let key = key.clone();
            let (r, s) = match v {
                0 => (Ok(kad::PutRecordOk { key }), "ok"),
                1 => (Err(kad::PutRecordError::QuorumFailed { key, success: vec![], quorum: one() }), "quorum"),
                _ => (Err(kad::PutRecordError::Timeout { key, success: vec![], quorum: one() }), "timeout"),
            };
            node.send(Net::Kad(progressed(*id, kad::QueryResult::PutRecord(r))));
            s.into()
        }
        Pend::Get { id, key } => {
            let key = key.clone();
            let (r, s) = match v {
                0 => (Ok(kad::GetRecordOk::FoundRecord(kad::PeerRecord { peer: Some(r()), record: kad::Record { publisher: (i % 2 == 0).then(r), ..kad::Record::new(key, found_bytes(i)) } })), format!("found {}", 5000 + i)),
                1 => (Err(kad::GetRecordError::NotFound { key, closest_peers: vec![] }), "none".into()),
                2 => (Err(kad::GetRecordError::QuorumFailed { key, records: vec![], quorum: one() }), "quorum".into()),
                _ => (Err(kad::GetRecordError::Timeout { key }), "timeout".into()),
            };
            node.send(Net::Kad(progressed(*id, kad::QueryResult::GetRecord(r))));
            s
        }
        Pend::Req { id, peer, .. } => {
            if v >= 2 {
                node.send(Net::Fail { peer: *peer, id: *id, error: failure(v as u8 - 2) });
                return ["DialFailure", "NetworkTimeout", "ConnectionClosed", "UnsupportedProtocols", "Io true"][v - 2].into();
            }
            fn e<X>(i: usize) -> RemoteSendError<X> {
                RemoteSendError::UnknownActor { actor_remote_id: format!("e{i}").into() }
            }
            let rep = Rep { v: 7000 + i as u32, f: Fussy(0), data: Data::default() };
            let (q, s) = match (k, v) {
                (Ask, 0) => (SwarmResponse::Ask(Ok(to_payload(&rep))), format!("ok {rep:?}")),
                (Ask, _) => (SwarmResponse::Ask(Err(e(i))), format!("UnknownActor e{i}")),
                (Tell, 0) => (SwarmResponse::Tell(Ok(())), "ok ()".into()),
                (Tell, _) => (SwarmResponse::Tell(Err(e(i))), format!("UnknownActor e{i}")),
                (Link, 0) => (SwarmResponse::Link(Ok(())), "ok".into()),
                (Link, _) => (SwarmResponse::Link(Err(e(i))), format!("UnknownActor e{i}")),
                (_, 0) => (SwarmResponse::Unlink(Ok(())), "ok".into()),
                (_, _) => (SwarmResponse::Unlink(Err(e(i))), format!("UnknownActor e{i}")),
            };
            node.send(Net::Response { from: *peer, id: *id, bytes: encode_response(q).unwrap() });
            s
        }
    }
}
/// Events that belong to no command: unknown queries and requests, results of another kind than was asked for.
async fn foreign(node: &NodeRef, p: &Pend) {
    let (g, key) = node
        .on_node(|_, s| {
            let key = kad_key("foreign");
            (s.behaviour_mut().kademlia_get_record(key.clone()), key)
        })
        .await;
    mcrt::quiesce();
    node.pending.lock().unwrap().retain(|p| !matches!(p, Pend::Get { id, .. } if *id == g));
    for v in 0..4 {
        complete(node, &Pend::Get { id: g, key: key.clone() }, Look, 9, v);
        complete(node, &Pend::Put { id: g, key: key.clone() }, Reg, 9, v);
    }
    let id: rr::OutboundRequestId = unsafe { std::mem::transmute(9999u64) };
    for k in [Ask, Tell, Link, Unlink] {
        for v in 0..7 {
            complete(node, &Pend::Req { id, peer: r(), kind: "" }, k, 9, v);
        }
    }
    match p {
        Pend::Put { id, key } => {
            complete(node, &Pend::Get { id: *id, key: key.clone() }, Look, 9, 0);
            complete(node, &Pend::Get { id: *id, key: key.clone() }, Look, 9, 3);
        }
        Pend::Get { id, key } => {
            complete(node, &Pend::Put { id: *id, key: key.clone() }, Reg, 9, 0);
            complete(node, &Pend::Put { id: *id, key: key.clone() }, Reg, 9, 2);
            // progress that is no answer
            let r = kad::GetRecordOk::FinishedWithNoAdditionalRecord { cache_candidates: BTreeMap::new() };
            node.send(Net::Kad(progressed(*id, kad::QueryResult::GetRecord(Ok(r)))));
        }
        Pend::Req { .. } => {}
    }
    let mode = kad::Event::ModeChanged { new_mode: kad::Mode::Server };
    node.send(Net::Kad(mode));
    mcrt::quiesce();
}

pub fn got(i: usize) -> Vec<String> {
    log().ss(cname(i), "got")
}
/// Afterwards the node answers commands of every kind.
async fn serves(node: &NodeRef) {
    let z = n("z", NC::default(), Mb::U);
    let bytes = encode_request(SwarmRequest::Ask {
        actor_id: z.id(),
        actor_remote_id: "na".into(),
        message_remote_id: "p".into(),
        payload: to_payload(&Plain(5)),
        mailbox_timeout: None,
        reply_timeout: None,
        immediate: false,
    })
    .unwrap();
    // not registered, so not known to peers
    match raw(node, bytes).await {
        Some(SwarmResponse::Ask(Err(RemoteSendError::ActorNotRunning))) => {}
        x => fail(format!("a peer asks for an actor not registered and gets {x:?}")),
    }
    match ActorRef::<N>::lookup("never registered").await {
        Ok(None) => {}
        x => fail(format!("local lookup of nothing: {x:?}")),
    }
}

fn flight(kinds: &'static [K7], count: usize, all: bool) -> Program {
    prog(
        move || async move {
            let ks: Vec<K7> = (0..count).map(|_| kinds[choose(kinds.len())]).collect();
            // order of completion
            let mut left: Vec<usize> = (0..count).collect();
            let mut order = vec![];
            while !left.is_empty() {
                let i = if left.len() > 1 { choose(left.len()) } else { 0 };
                order.push(left.remove(i));
            }
            let vs: Vec<usize> = ks.iter().map(|k| choose(variants(*k, all))).collect();
            let noise = if all { choose(3) } else { 0 };
            mcrt::calm(true);
            let w = world(vec![r()]).await;
            let what = format!("{ks:?} order {order:?} outcomes {vs:?} noise {noise}");
            for (i, k) in ks.iter().enumerate() {
                issue(&w, i, *k);
                mcrt::quiesce();
                if w.node.pending.lock().unwrap().len() != i + 1 {
                    fail(format!("{what}: command {i} reaches the network {} times", w.node.pending.lock().unwrap().len() as i64 - i as i64));
                    return;
                }
            }
            let ps = std::mem::take(&mut *w.node.pending.lock().unwrap());
            let mut want: Vec<Vec<String>> = vec![vec![]; count];
            let check = |want: &Vec<Vec<String>>, at: &str| {
                for i in 0..count {
                    if got(i) != want[i] {
                        fail(format!("{what}: {at}: caller {i} has got {:?}, its outcome is {:?}", got(i), want[i]));
                        return false;
                    }
                }
                true
            };
            for (j, i) in order.iter().copied().enumerate() {
                if noise == 2 {
                    foreign(&w.node, &ps[i]).await;
                    if !check(&want, "events of no command") {
                        return;
                    }
                }
                want[i].push(complete(&w.node, &ps[i], ks[i], i, vs[i]));
                mcrt::quiesce();
                if !check(&want, "completed") {
                    return;
                }
                if noise == 1 {
                    // the same again, with every other outcome
                    for v in 0..variants(ks[i], true) {
                        complete(&w.node, &ps[i], ks[i], 30 + j, v);
                    }
                    mcrt::quiesce();
                    if !check(&want, "completed again") {
                        return;
                    }
                }
            }
            serves(&w.node).await;
            ev("h", "served", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "served") != 1 {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}

fn drops() -> Program {
    prog(
        move || async move {
            let ks = [ALL[choose(7)], ALL[choose(7)]];
            let (dropped, first) = (choose(2), choose(2));
            let vs: Vec<usize> = ks.iter().map(|k| choose(variants(*k, true))).collect();
            mcrt::calm(true);
            let w = world(vec![r()]).await;
            let mut hs = vec![];
            for (i, k) in ks.iter().enumerate() {
                hs.push(issue(&w, i, *k));
                mcrt::quiesce();
            }
            hs[dropped].abort();
            mcrt::quiesce();
            let ps = std::mem::take(&mut *w.node.pending.lock().unwrap());
            if ps.len() != 2 {
                return fail(format!("{ks:?}: {} commands reach the network", ps.len()));
            }
            let mut want = vec![vec![], vec![]];
            for i in [first, 1 - first] {
                let s = complete(&w.node, &ps[i], ks[i], i, vs[i]);
                mcrt::quiesce();
                if i != dropped {
                    want[i].push(s);
                }
                for i in 0..2 {
                    if got(i) != want[i] {
                        fail(format!("{ks:?} {vs:?}, {dropped} dropped: caller {i} has got {:?}, its outcome is {:?}", got(i), want[i]));
                    }
                }
            }
            serves(&w.node).await;
            ev("h", "served", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "served") != 1 {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}

fn closing() -> Program {
    prog(
        move || async move {
            // two requests to R, one to another peer, one query
            let reqs = [Ask, Tell, Link, Unlink];
            let k0 = reqs[choose(4)];
            let late = choose(3);
            let how = choose(3);
            let extra = choose(2) == 1;
            mcrt::calm(true);
            let w = world(if extra { vec![r(), r(), d4()] } else { vec![r(), d4()] }).await;
            let other = {
                let mut v = entry_of(&w).await;
                crate::p50::mirror_to(&mut v, r(), d4());
                w.node.publish("other", v);
                // lookups are not answered by now: do it by hand
                let h = tokio::spawn(async { RemoteActorRef::<N>::lookup("other").await.unwrap().unwrap() });
                mcrt::quiesce();
                let p = w.node.pending.lock().unwrap().pop();
                let rec = w.node.dht.lock().unwrap().get(&b"other"[..]).cloned().unwrap();
                if let Some(Pend::Get { id, .. }) = p {
                    w.node.send(Net::Kad(progressed(id, kad::QueryResult::GetRecord(Ok(kad::GetRecordOk::FoundRecord(kad::PeerRecord { peer: Some(r()), record: rec }))))));
                }
                h.await.unwrap()
            };
            issue(&w, 0, k0);
            mcrt::quiesce();
            issue(&w, 1, Look);
            mcrt::quiesce();
            mcrt::set_next_name("c2");
            tokio::spawn(async move {
                ev("c2", "got", 0, send_any(&other, Op::Ask, Plain(5)).await);
            });
            mcrt::quiesce();
            let ps = std::mem::take(&mut *w.node.pending.lock().unwrap());
            if ps.len() != 3 || !matches!(ps[2], Pend::Req { peer, .. } if peer == d4()) {
                return fail(format!("{k0:?}: {} commands reach the network", ps.len()));
            }
            if late == 1 {
                // the answer is already there
                complete(&w.node, &ps[0], k0, 0, 0);
            }
            mcrt::calm(false);
            match how {
                0 => w.node.send(Net::Close(r())),
                1 => ActorSwarm::get().unwrap().disconnect_peer_id(r()),
                // the last connections break on their own
                _ => w.node.on_node(|_, s| s.disconnect_peer_id(r()).unwrap()).await,
            }
            mcrt::settle();
            mcrt::calm(true);
            if late == 2 {
                complete(&w.node, &ps[0], k0, 0, 0);
            }
            mcrt::quiesce();
            let ok = match k0 {
                Ask => format!("ok {:?}", Rep { v: 7000, f: Fussy(0), data: Data::default() }),
                Tell => "ok ()".into(),
                _ => "ok".into(),
            };
            // libp2p reports requests of a closed connection as lost (to whichever connection they went)
            let fits = match (late, how) {
                (1, 0) => got(0) == [ok.clone()],
                (1, _) => got(0) == [ok.clone()] || got(0) == ["ConnectionClosed"],
                _ => got(0) == ["ConnectionClosed"],
            };
            if !fits {
                fail(format!("{k0:?} late {late} how {how}: caller has got {:?}", got(0)));
            }
            if !got(1).is_empty() || !got(2).is_empty() {
                fail(format!("{k0:?}: closing the connection completes other commands: {:?} {:?}", got(1), got(2)));
            }
            complete(&w.node, &ps[1], Look, 1, 0);
            w.node.send(Net::Response { from: d4(), id: match ps[2] { Pend::Req { id, .. } => id, _ => unreachable!() }, bytes: encode_response(SwarmResponse::Ask(Ok(to_payload(&77u64)))).unwrap() });
            mcrt::quiesce();
            if got(1) != ["found 5001"] || got(2) != ["ok 77"] {
                fail(format!("{k0:?}: after the disconnection the others get {:?} {:?}", got(1), got(2)));
            }
            // nobody knows where R is now
            let s = send_any(&w.f, Op::Ask, Plain(1)).await;
            if s != "DialFailure" {
                fail(format!("a request to a peer that is gone: {s}"));
            }
            serves(&w.node).await;
            ev("h", "served", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "served") != 1 {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}
async fn entry_of(w: &World) -> Vec<u8> {
    w.node.dht.lock().unwrap().get(&b"far"[..]).cloned().unwrap().value
}

const NAMES: [&str; 2] = ["x", "y"];
fn store() -> Program {
    prog(
        move || async move {
            let with_peer = choose(2) == 1;
            let room = 1 + choose(2);
            let ops: Vec<usize> = (0..4).map(|_| choose(7)).collect();
            mcrt::calm(true);
            let node = node(NetCfg { peers: if with_peer { vec![r()] } else { vec![] }, max_records: room, ..still() });
            let a = n("a", NC::default(), Mb::U);
            let b = n("b", NC::default(), Mb::U);
            let c = o("c", NC::default(), Mb::U);
            let what = format!("peer {with_peer} room {room} ops {ops:?}");
            // name -> (type, number); what is stored here, what the network has
            let mut here: BTreeMap<&str, (u8, u64)> = BTreeMap::new();
            let mut there: BTreeMap<&str, Option<(u8, u64)>> = BTreeMap::new();
            let mut alive = true;
            let mut known: Vec<u64> = vec![];
            for (i, op) in ops.iter().enumerate() {
                let (name, who): (&str, Option<(u8, u64)>) = match op {
                    0 => ("x", Some((0, a.id().sequence_id()))),
                    1 => ("x", Some((0, b.id().sequence_id()))),
                    2 => ("y", Some((0, a.id().sequence_id()))),
                    3 => ("y", Some((1, c.id().sequence_id()))),
                    4 => ("x", None),
                    5 => ("y", None),
                    _ => ("", None),
                };
                let got = match op {
                    0 => reg_text(a.register("x").await),
                    1 => reg_text(b.register("x").await),
                    2 => reg_text(a.register("y").await),
                    3 => reg_text(c.register("y").await),
                    4 | 5 => reg_text(ActorSwarm::get().unwrap().unregister(name.into()).await),
                    _ => {
                        kill(&a);
                        a.wait_for_stop().await;
                        mcrt::quiesce();
                        // (one that is registered when it is dead already stays so)
                        if alive {
                            known.retain(|x| *x != a.id().sequence_id());
                        }
                        alive = false;
                        "ok".into()
                    }
                };
                let fits = here.contains_key(name) || here.len() < room;
                let want = match op {
                    0..=3 if fits => {
                        here.insert(name, who.unwrap());
                        if with_peer {
                            there.insert(name, who);
                        }
                        known.push(who.unwrap().1);
                        "ok"
                    }
                    0..=3 => "quorum",
                    4 | 5 if with_peer => {
                        here.remove(name);
                        if fits {
                            there.insert(name, None);
                        }
                        if fits {
                            "ok"
                        } else {
                            "quorum"
                        }
                    }
                    4 | 5 => {
                        here.remove(name);
                        "ok"
                    }
                    _ => "ok",
                };
                if got != want {
                    return fail(format!("{what}: operation {i} gets {got}, expected {want}"));
                }
                for name in NAMES {
                    let e = here.get(name).copied().or(there.get(name).copied().flatten());
                    for ty in 0..2u8 {
                        let look = if ty == 0 { look::<N>(name).await } else { look::<O>(name).await };
                        let want = match e {
                            None => "none".to_string(),
                            Some((t, _)) if t != ty => "bad type".into(),
                            Some((_, id)) => format!("{id}"),
                        };
                        if look != want {
                            return fail(format!("{what}: after {i}, looking up {name} as {ty} gives {look}, expected {want}"));
                        }
                        let local = if ty == 0 { local::<N>(name).await } else { local::<O>(name).await };
                        let a_id = a.id().sequence_id();
                        let want = match here.get(name) {
                            None => "none".to_string(),
                            Some((t, _)) if *t != ty => "bad type".into(),
                            Some((_, id)) if *id == a_id && !alive && !known.contains(id) => "none".into(),
                            Some((_, id)) => format!("{id}"),
                        };
                        if local != want {
                            return fail(format!("{what}: after {i}, looking up {name} here as {ty} gives {local}, expected {want}"));
                        }
                    }
                }
            }
            serves(&node).await;
            ev("h", "served", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "served") != 1 {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}
async fn look<A: Actor + RemoteActor>(name: &str) -> String {
    match RemoteActorRef::<A>::lookup(name).await {
        Ok(Some(r)) => format!("{}", r.id().sequence_id()),
        Ok(None) => "none".into(),
        Err(e) => rerr(&e).to_string(),
    }
}
async fn local<A: Actor + RemoteActor>(name: &str) -> String {
    match ActorRef::<A>::lookup(name).await {
        Ok(Some(r)) => format!("{}", r.id().sequence_id()),
        Ok(None) => "none".into(),
        Err(e) => rerr(&e).to_string(),
    }
}

fn misc() -> Program {
    prog(
        move || async move {
            mcrt::calm(true);
            let a = n("a", NC::default(), Mb::U);
            // before there is a node
            let mut early = vec![reg_text(a.register("x").await), local::<N>("x").await, look::<N>("x").await];
            early.dedup();
            if early != ["not bootstrapped"] || ActorSwarm::get().is_some() {
                fail(format!("before the node is up: {early:?}"));
            }
            let nd = node(still());
            let s = ActorSwarm::get().unwrap();
            if ActorSwarm::bootstrap_manual(r()).is_some() || s.local_peer_id() != &l() {
                fail("a second node in the process");
            }
            let steps = [choose(7), choose(7), choose(7)];
            for (i, st) in steps.iter().enumerate() {
                let ma = |p: PeerId| addr(p);
                let got = match st {
                    0 => format!("{}", s.listen_on("/memory/77".parse().unwrap()).await.is_ok()),
                    1 => format!("{}", s.listen_on("/ip4/127.0.0.1/tcp/1".parse().unwrap()).await.is_err()),
                    2 => format!("{}", s.dial(DialOpts::peer_id(d4()).addresses(vec![ma(d4())]).condition(PeerCondition::Always).build()).await.is_ok()),
                    // nothing to dial
                    3 => format!("{}", s.dial(DialOpts::peer_id(nobody()).build()).await.is_err()),
                    4 => {
                        s.add_peer_address(nobody(), ma(d4()));
                        "true".into()
                    }
                    5 => {
                        s.disconnect_peer_id(d4());
                        "true".into()
                    }
                    _ => {
                        s.disconnect_peer_id(nobody());
                        "true".into()
                    }
                };
                // an address added for the peer that is nobody lets it be dialled
                let added = *st == 3 && steps[..i].contains(&4);
                if got != "true" && !added {
                    fail(format!("{steps:?}: step {i} gives {got}"));
                }
                mcrt::quiesce();
            }
            // a future that is not awaited is as good
            drop(s.listen_on("/memory/78".parse().unwrap()));
            drop(s.dial(d4()));
            drop(s.unregister("x".into()));
            mcrt::quiesce();
            serves(&nd).await;
            ev("h", "served", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "served") != 1 {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}

fn peer_requests() -> Program {
    prog(
        move || async move {
            mcrt::calm(true);
            let peers = choose(2) == 1;
            let node = node(NetCfg { peers: if peers { vec![r()] } else { vec![] }, ..still() });
            let a = n("a", NC::default(), Mb::U);
            let b = o("b", NC::default(), Mb::U);
            let dead = n("dead", NC::default(), Mb::U);
            let hidden = n("hidden", NC::default(), Mb::U);
            a.register("a").await.unwrap();
            b.register("b").await.unwrap();
            dead.register("d").await.unwrap();
            kill(&dead);
            dead.wait_for_stop().await;
            mcrt::quiesce();
            let ids: Vec<(&str, ActorID)> = vec![
                ("a", a.id()),
                ("b", b.id()),
                ("dead", dead.id()),
                ("hidden", hidden.id()),
                ("unknown", ActorID::new_with_peer_id(777_777, l())),
                ("another node's", ActorID::new_with_peer_id(a.id().sequence_id(), r())),
            ];
            let first = choose(ids.len());
            let tys = ["na", "nb", "zz", "", "n", "naa"];
            let mut n = 0;
            for (who, id) in [ids[first]] {
                for ty in tys {
                    for msg in ["q", "p", "secret", ""] {
                        for imm in [false, true] {
                            for tell in [false, true] {
                                let known = matches!((ty, msg), ("na", "q" | "p") | ("nb", "q"));
                                let payload = if msg == "p" { to_payload(&Plain(14)) } else { to_payload(&q(3, crate::node::K::Ok)) };
                                let req = if tell {
                                    SwarmRequest::Tell { actor_id: id, actor_remote_id: ty.into(), message_remote_id: msg.into(), payload, mailbox_timeout: None, immediate: imm }
                                } else {
                                    SwarmRequest::Ask { actor_id: id, actor_remote_id: ty.into(), message_remote_id: msg.into(), payload, mailbox_timeout: None, reply_timeout: None, immediate: imm }
                                };
                                let handled = |l: &Log| ["begin", "plain"].iter().map(|w| l.countk("a", w) + l.countk("b", w)).sum::<usize>();
                                let before = handled(&log());
                                let got = match raw(&node, encode_request(req).unwrap()).await {
                                    None => "no answer".to_string(),
                                    Some(SwarmResponse::Ask(r)) if !tell => match r {
                                        Ok(b) if msg == "p" => format!("ok {:?}", rmp_serde::from_slice::<u64>(&b)),
                                        Ok(b) => format!("ok {:?}", rmp_serde::from_slice::<Rep>(&b).map(|r| r.v)),
                                        Err(e) => rerr_text(&e),
                                    },
                                    Some(SwarmResponse::Tell(r)) if tell => match r {
                                        Ok(()) => "told".into(),
                                        Err(e) => rerr_text(&e),
                                    },
                                    Some(x) => format!("{x:?}"),
                                };
                                mcrt::quiesce();
                                let done = handled(&log()) - before;
                                let want = match who {
                                    _ if !known => format!("UnknownMessage {ty} {msg}"),
                                    "a" | "b" if (who == "a") != (ty == "na") => "BadActorType".into(),
                                    "a" | "b" if tell => "told".into(),
                                    "a" if msg == "p" => "ok Ok(42)".into(),
                                    "a" => "ok Ok(1003)".into(),
                                    "b" => "ok Ok(101003)".into(),
                                    _ => "NotRunning".into(),
                                };
                                let should = (want.starts_with("ok") || want == "told") as usize;
                                if got != want || done != should {
                                    fail(format!("{} of {who} as {ty}, message {msg:?}, immediate {imm}: answered {got}, expected {want}; handled {done} times", if tell { "tell" } else { "ask" }));
                                }
                                n += 1;
                            }
                        }
                    }
                    for kind in 0..3 {
                        let sib = ActorID::new_with_peer_id(42, r());
                        let req = match kind {
                            0 => SwarmRequest::Link { actor_id: id, actor_remote_id: ty.into(), sibbling_id: sib, sibbling_remote_id: "x".into() },
                            1 => SwarmRequest::Unlink { actor_id: id, actor_remote_id: ty.into(), sibbling_id: sib },
                            _ => SwarmRequest::SignalLinkDied { dead_actor_id: sib, notified_actor_id: id, notified_actor_remote_id: ty.into(), stop_reason: ActorStopReason::Normal },
                        };
                        let got = match (kind, raw(&node, encode_request(req).unwrap()).await) {
                            (0, Some(SwarmResponse::Link(r))) | (1, Some(SwarmResponse::Unlink(r))) | (2, Some(SwarmResponse::SignalLinkDied(r))) => unit(r, rerr_text),
                            (_, x) => format!("{x:?}"),
                        };
                        let want = match who {
                            _ if !["na", "nb"].contains(&ty) => format!("UnknownActor {ty}"),
                            "a" | "b" if (who == "a") != (ty == "na") => "BadActorType".into(),
                            "a" | "b" => "ok".into(),
                            _ => "NotRunning".into(),
                        };
                        if got != want {
                            fail(format!("{} of {who} as {ty}: answered {got}, expected {want}", ["link", "unlink", "death"][kind]));
                        }
                        n += 1;
                    }
                }
            }
            mcrt::quiesce();
            ev("h", "requests", n, "");
            for (x, alive) in [("a", a.is_alive()), ("b", b.is_alive()), ("hidden", hidden.is_alive())] {
                if !alive {
                    fail(format!("{x} does not live through this"));
                }
            }
            serves(&node).await;
            ev("h", "served", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "served") != 1 {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}

fn peer_gone() -> Program {
    prog(
        move || async move {
            let peers = choose(2) == 1;
            let kinds = [choose(7), choose(7)];
            let whos = [choose(4), choose(4)];
            mcrt::calm(true);
            let node = node(NetCfg { peers: if peers { vec![r()] } else { vec![] }, ..still() });
            let a = n("a", NC::default(), Mb::U);
            let b = o("b", NC::default(), Mb::U);
            let dead = n("dead", NC::default(), Mb::U);
            a.register("a").await.unwrap();
            b.register("b").await.unwrap();
            dead.register("d").await.unwrap();
            kill(&dead);
            dead.wait_for_stop().await;
            mcrt::quiesce();
            mcrt::calm(false);
            for i in 0..2 {
                let id = [a.id(), b.id(), dead.id(), ActorID::new_with_peer_id(777_777, l())][whos[i]];
                let ty: std::borrow::Cow<'static, str> = "na".into();
                let message_remote_id: std::borrow::Cow<'static, str> = "q".into();
                let payload = to_payload(&q(3 + i as u32, if i == 0 { crate::node::K::Ok } else { crate::node::K::Err }));
                let sib = ActorID::new_with_peer_id(42, r());
                let ask = |immediate, payload| SwarmRequest::Ask { actor_id: id, actor_remote_id: ty.clone(), message_remote_id: message_remote_id.clone(), payload, mailbox_timeout: None, reply_timeout: None, immediate };
                let tell = |immediate, payload| SwarmRequest::Tell { actor_id: id, actor_remote_id: ty.clone(), message_remote_id: message_remote_id.clone(), payload, mailbox_timeout: None, immediate };
                let req = match kinds[i] {
                    0 => ask(false, payload),
                    1 => ask(true, payload),
                    2 => tell(false, to_payload(&q(3, crate::node::K::Ok))),
                    3 => tell(true, to_payload(&q(3, crate::node::K::Ok))),
                    4 => SwarmRequest::Link { actor_id: id, actor_remote_id: ty, sibbling_id: sib, sibbling_remote_id: "x".into() },
                    5 => SwarmRequest::Unlink { actor_id: id, actor_remote_id: ty, sibbling_id: sib },
                    _ => SwarmRequest::SignalLinkDied { dead_actor_id: sib, notified_actor_id: id, notified_actor_remote_id: ty, stop_reason: ActorStopReason::Normal },
                };
                raw_gone(&node, encode_request(req).unwrap());
            }
            mcrt::settle();
            mcrt::calm(true);
            for (x, alive) in [("a", a.is_alive()), ("b", b.is_alive())] {
                if !alive {
                    fail(format!("{x} does not live through this"));
                }
            }
            serves(&node).await;
            // a type is another one also when its name merely begins like it
            for ty in ["n", "naa", "Na", "na ", ""] {
                let mut v = vec![l().to_bytes().len() as u8];
                v.extend(a.id().to_bytes());
                v.extend(ty.as_bytes());
                node.publish("other", v.clone());
                let far = RemoteActorRef::<N>::lookup("other").await;
                let rec = kad::Record::new(b"here".to_vec(), v);
                node.on_node(move |_, s| s.behaviour_mut().kademlia_put_record_local(rec)).await.unwrap();
                let near = ActorRef::<N>::lookup("here").await;
                if !matches!(far, Err(RegistryError::BadActorType)) || !matches!(near, Err(RegistryError::BadActorType)) {
                    fail(format!("an actor of type {ty:?} is looked up as one of another type: {:?}, locally {:?}", far.map(|x| x.map(|x| x.id())), near.map(|x| x.map(|x| x.id()))));
                }
            }
            ev("h", "served", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "served") != 1 {
                v.push("afterwards the node does not answer".into());
            }
        },
    )
}

fn interleaved() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let with_peer = choose(2) == 1;
            let second = choose(3);
            mcrt::calm(true);
            let _node = node(NetCfg { peers: if with_peer { vec![r()] } else { vec![] }, delays: true, ..Default::default() });
            let a = n("a", NC::default(), Mb::U);
            let b = n("b", NC::default(), Mb::U);
            *res2.lock().unwrap() = Some((second, a.id().sequence_id(), b.id().sequence_id()));
            mcrt::quiesce();
            mcrt::calm(false);
            let h0 = client("c0", async move {
                ev("c0", "reg", 0, reg_text(a.register("x").await));
                ev("c0", "look", 0, look::<N>("x").await);
                a
            });
            let h1 = client("c1", async move {
                match second {
                    0 => {
                        ev("c1", "reg", 0, reg_text(b.register("x").await));
                        ev("c1", "look", 0, look::<N>("x").await);
                    }
                    1 => {
                        ev("c1", "unreg", 0, reg_text(ActorSwarm::get().unwrap().unregister("x".into()).await));
                        ev("c1", "look", 0, look::<N>("x").await);
                    }
                    _ => {
                        ev("c1", "look", 0, look::<N>("x").await);
                        ev("c1", "local", 0, local::<N>("x").await);
                    }
                }
                b
            });
            let keep = (h0.await, h1.await);
            mcrt::settle();
            ev("h", "look", 0, look::<N>("x").await);
            ev("h", "local", 0, local::<N>("x").await);
            drop(keep);
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((second, a, b)) = *res.lock().unwrap() else { return };
            let (a, b) = (a.to_string(), b.to_string());
            let g = |w: &str, k: &str| l.ss(w, k).join("|");
            let mut bad = |s: String| v.push(s);
            if g("c0", "reg") != "ok" {
                bad(format!("a's registration: {}", g("c0", "reg")));
            }
            let names: Vec<&str> = match second {
                0 => vec![&a, &b],
                1 => vec![&a, "none"],
                _ => vec![&a],
            };
            if !names.contains(&g("c0", "look").as_str()) {
                bad(format!("a's registration is done, a lookup gives {}", g("c0", "look")));
            }
            match second {
                0 => {
                    if g("c1", "reg") != "ok" {
                        bad(format!("b's registration: {}", g("c1", "reg")));
                    }
                    if !names.contains(&g("c1", "look").as_str()) {
                        bad(format!("b's registration is done, a lookup gives {}", g("c1", "look")));
                    }
                }
                1 => {
                    if g("c1", "unreg") != "ok" {
                        bad(format!("unregistration: {}", g("c1", "unreg")));
                    }
                    if !names.contains(&g("c1", "look").as_str()) {
                        bad(format!("after unregistration a lookup gives {}", g("c1", "look")));
                    }
                }
                _ => {
                    if ![a.as_str(), "none"].contains(&g("c1", "look").as_str()) || ![a.as_str(), "none"].contains(&g("c1", "local").as_str()) {
                        bad(format!("lookups during registration: {} {}", g("c1", "look"), g("c1", "local")));
                    }
                    // what was found is not lost again
                }
            }
            let end: Vec<&str> = names.clone();
            if !end.contains(&g("h", "look").as_str()) || !end.contains(&g("h", "local").as_str()) {
                bad(format!("in the end lookups give {} {}", g("h", "look"), g("h", "local")));
            }
        },
    )
}
