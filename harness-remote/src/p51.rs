//! P51: identities and registrations survive serialization and reject malformed input.
use crate::kit::*;
use crate::net::*;
use crate::node::*;
use kameo::error::RegistryError;
use kameo::remote::*;
use libp2p::PeerId;
use serde::de::value as dv;
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher};

pub fn all() -> Vec<Scn> {
    vec![
        scn("P51", "ids-values", 0, 0, "all identities over boundary numbers and kinds of peer, every pair of them, in every encoding, before and after the node is up", values),
        scn("P51", "ids-malformed", 0, 0, "all byte strings of up to 2 bytes, all truncations, extensions and single-byte changes of encoded identities, in every encoding", malformed),
        scn("P51", "ids-before-after", 1, 3, "identities used as keys, and links made, before the node is up; used, removed and notified after", before_after),
        scn("P51", "entries-values", 0, 0, "registered actors of every name of type and actor, looked up locally and by peers; entries of different actors differ", entries),
        scn("P51", "entries-malformed", 0, 0, "all short entries, all truncations, extensions and single-byte changes of an entry, looked up locally and in the network; the node goes on", bad_entries),
    ]
}

/// Peers of every kind an id can have: ed25519 (36 bytes), hashed keys (34), other lengths of identity.
fn peers() -> Vec<PeerId> {
    let mut v = vec![l(), r(), nobody()];
    for tag in [0u8, 7, 0xff] {
        let mut b = vec![0x12, 0x20];
        b.extend([tag; 32]);
        v.push(PeerId::from_bytes(&b).unwrap());
    }
    for n in [0usize, 1, 8, 34, 41, 42] {
        let mut b = vec![0, n as u8];
        b.extend((0..n).map(|i| i as u8 ^ 0x80));
        v.push(PeerId::from_bytes(&b).unwrap());
    }
    v
}
const SEQS: [u64; 12] = [0, 1, 23, 24, 255, 256, 65_535, 65_536, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX];
fn ids() -> Vec<(u64, Option<PeerId>, ActorID)> {
    let mut v = vec![];
    for s in SEQS {
        v.push((s, None, ActorID::new(s)));
        for p in peers() {
            v.push((s, Some(p), ActorID::new_with_peer_id(s, p)));
        }
    }
    v
}
fn h(i: &ActorID) -> u64 {
    BuildHasherDefault::<DefaultHasher>::default().hash_one(i)
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Deep {
    a: Vec<ActorID>,
    b: Option<ActorID>,
    c: (ActorID, u8),
    d: Box<Shape>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum Shape {
    One(ActorID),
    Two { x: ActorID },
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(untagged)]
enum Untagged {
    A(ActorID, u8),
    B(ActorID),
}

/// Everything `T` decodes to, from what it encodes to, in every format.
fn formats<T: Serialize + for<'a> Deserialize<'a>>(t: &T) -> Vec<(&'static str, Result<T, String>)> {
    let s = |e: &dyn std::fmt::Display| e.to_string();
    let mut v: Vec<(&'static str, Result<T, String>)> = vec![];
    let b = rmp_serde::to_vec(t).unwrap();
    v.push(("messagepack", rmp_serde::from_slice(&b).map_err(|e| s(&e))));
    v.push(("messagepack reader", rmp_serde::from_read(&b[..]).map_err(|e| s(&e))));
    let b = rmp_serde::to_vec_named(t).unwrap();
    v.push(("messagepack with names", rmp_serde::from_slice(&b).map_err(|e| s(&e))));
    let b = cbor4ii::serde::to_vec(vec![], t).unwrap();
    v.push(("cbor", cbor4ii::serde::from_slice(&b).map_err(|e| s(&e))));
    v.push(("cbor reader", cbor4ii::serde::from_reader(std::io::BufReader::new(&b[..])).map_err(|e| s(&e))));
    let b = serde_json::to_string(t).unwrap();
    v.push(("json", serde_json::from_str(&b).map_err(|e| s(&e))));
    v.push(("json reader", serde_json::from_reader(b.as_bytes()).map_err(|e| s(&e))));
    v.push(("json value", serde_json::to_value(t).and_then(serde_json::from_value).map_err(|e| s(&e))));
    v
}
/// From bytes handed over in each of the ways a format can.
fn from_serde(b: &[u8]) -> Vec<(&'static str, Result<ActorID, String>)> {
    type E = dv::Error;
    let s = |r: Result<ActorID, E>| r.map_err(|e| e.to_string());
    vec![
        ("borrowed bytes", s(ActorID::deserialize(dv::BorrowedBytesDeserializer::new(b)))),
        ("bytes", s(ActorID::deserialize(dv::BytesDeserializer::new(b)))),
        ("sequence", s(ActorID::deserialize(dv::SeqDeserializer::new(b.iter().copied())))),
        ("vector", s(ActorID::deserialize(b.to_vec().into_deserializer()))),
    ]
}

fn values() -> Program {
    prog(
        move || async move {
            let late = choose(2) == 1;
            let ids1 = ids();
            let hashes: Vec<u64> = ids1.iter().map(|(_, _, i)| h(i)).collect();
            if late {
                let _ = node(alone());
            }
            let me = if late { Some(l()) } else { None };
            let mut n = 0;
            let mut enc: std::collections::BTreeMap<Vec<u8>, ActorID> = Default::default();
            for (k, (s, p, id)) in ids1.iter().enumerate() {
                let what = format!("({s}, {p:?}), node up: {late}");
                let eff = p.or(me);
                if id.sequence_id() != *s || id.peer_id() != eff.as_ref() {
                    fail(format!("{what}: is ({}, {:?})", id.sequence_id(), id.peer_id()));
                }
                // (a node cannot be known by its peer id before it is up)
                if *p != Some(l()) && h(id) != hashes[k] {
                    fail(format!("{what}: its hash changed"));
                }
                let b = id.to_bytes();
                match ActorID::from_bytes(&b) {
                    Ok(x) if x == *id && x.sequence_id() == *s && x.peer_id() == eff.as_ref() && h(&x) == h(id) => {}
                    x => fail(format!("{what}: from its bytes {x:?}")),
                }
                if let Some(other) = enc.insert(b, *id) {
                    if other != *id {
                        fail(format!("{what}: encodes as {other:?} does"));
                    }
                }
                for (f, x) in formats(id) {
                    n += 1;
                    if !matches!(&x, Ok(x) if x == id && x.sequence_id() == *s && x.peer_id() == eff.as_ref()) {
                        fail(format!("{what}: {f}: {x:?}"));
                    }
                }
                for (s2, p2, id2) in &ids1 {
                    let same = s == s2 && eff == p2.or(me);
                    if (id == id2) != same || (same && h(id) != h(id2)) {
                        fail(format!("{what} and ({s2}, {p2:?}): equal {}, hashes {}", id == id2, h(id) == h(id2)));
                    }
                    if !same && s == s2 && format!("{id}") == format!("{id2}") {
                        fail(format!("{what} and ({s2}, {p2:?}): both print {id}"));
                    }
                    if !same && id.to_bytes() == id2.to_bytes() {
                        fail(format!("{what} and ({s2}, {p2:?}): same encoding"));
                    }
                }
                let o = ids1[(k * 7 + 3) % ids1.len()].2;
                let d = Deep { a: vec![*id, o, *id], b: Some(o), c: (*id, 3), d: Box::new(if k % 2 == 0 { Shape::One(o) } else { Shape::Two { x: *id } }) };
                for (f, x) in formats(&d) {
                    n += 1;
                    if !matches!(&x, Ok(x) if *x == d) {
                        fail(format!("{what}: within a value, {f}: {x:?}"));
                    }
                }
                let d = if k % 2 == 0 { Untagged::A(*id, 9) } else { Untagged::B(*id) };
                for (f, x) in formats(&d) {
                    n += 1;
                    if !matches!(&x, Ok(x) if *x == d) {
                        fail(format!("{what}: in an untagged value, {f}: {x:?}"));
                    }
                }
            }
            // new ones never repeat
            let g: Vec<ActorID> = (0..100).map(|_| ActorID::generate()).collect();
            let set: std::collections::HashSet<ActorID> = g.iter().copied().collect();
            if set.len() != 100 {
                fail("generated ids repeat".to_string());
            }
            ev("h", "values", n, "");
        },
        |f, _, v| {
            sane(f, v);
            no_panics(f, v);
        },
    )
}

/// What these bytes mean, said again.
fn meaning(b: &[u8]) -> Option<(u64, Option<PeerId>)> {
    let s = u64::from_le_bytes(b.get(..8)?.try_into().unwrap());
    if b.len() == 8 {
        return Some((s, None));
    }
    Some((s, Some(PeerId::from_bytes(&b[8..]).ok()?)))
}

fn malformed() -> Program {
    prog(
        move || async move {
            let late = choose(2) == 1;
            let part = choose(8);
            if late {
                let _ = node(alone());
            }
            let mut cases: Vec<Vec<u8>> = vec![vec![]];
            for i in 0..=255u8 {
                cases.push(vec![i]);
                for j in 0..=255u8 {
                    cases.push(vec![i, j]);
                }
            }
            for n in 3..100 {
                for x in [0u8, 1, 0x24, 0x7f, 0x80, 0xff] {
                    cases.push(vec![x; n]);
                }
            }
            let mut whole = vec![ActorID::new(3).to_bytes()];
            for p in peers() {
                whole.push(ActorID::new_with_peer_id(0x0102_0304_0506_0708, p).to_bytes());
            }
            for w in whole {
                for i in 0..=w.len() {
                    cases.push(w[..i].to_vec());
                    for x in [0u8, 1, 0x80, 0xff] {
                        let mut b = w.clone();
                        b.insert(i, x);
                        cases.push(b);
                    }
                    if i < w.len() {
                        for x in 0..=255u8 {
                            let mut b = w.clone();
                            b[i] = x;
                            cases.push(b);
                        }
                        let mut b = w.clone();
                        b.remove(i);
                        cases.push(b);
                    }
                }
            }
            let mut n = 0;
            for c in cases.iter().skip(part).step_by(8) {
                n += 1;
                let want = meaning(c).map(|(s, p)| (s, p.or(if late { Some(l()) } else { None })));
                let got = match std::panic::catch_unwind(|| ActorID::from_bytes(c)) {
                    Ok(x) => x.ok(),
                    Err(_) => {
                        fail(format!("from_bytes panics for {c:02x?}"));
                        continue;
                    }
                };
                if got.map(|i| (i.sequence_id(), i.peer_id().copied())) != want {
                    fail(format!("{c:02x?} is {got:?}, expected {want:?}"));
                }
                let r = std::panic::catch_unwind(|| {
                    let mut v = from_serde(c);
                    v.push(("json", serde_json::from_str(&serde_json::to_string(c).unwrap()).map_err(|e| e.to_string())));
                    let b = rmp_serde::to_vec(&Bytes(c)).unwrap();
                    v.push(("messagepack", rmp_serde::from_slice(&b).map_err(|e| e.to_string())));
                    let b = cbor4ii::serde::to_vec(vec![], &Bytes(c)).unwrap();
                    v.push(("cbor", cbor4ii::serde::from_slice(&b).map_err(|e| e.to_string())));
                    v
                });
                match r {
                    Err(_) => fail(format!("decoding panics for {c:02x?}")),
                    Ok(v) => {
                        for (f, x) in v {
                            if x.clone().ok().map(|i| (i.sequence_id(), i.peer_id().copied())) != want {
                                fail(format!("{c:02x?} by {f} is {x:?}, expected {want:?}"));
                            }
                        }
                    }
                }
            }
            // other kinds of value
            for t in ["null", "true", "7", "-1", "{}", "{\"sequence_id\":1}", "[]", "[1,2]", "[256,0,0,0,0,0,0,0]", "[-1,0,0,0,0,0,0,0]", "[null]", "[[1]]"] {
                match std::panic::catch_unwind(|| serde_json::from_str::<ActorID>(t)) {
                    Ok(Err(_)) => {}
                    x => fail(format!("json {t} is {x:?}")),
                }
            }
            for b in [&[0xc0u8][..], &[0xc3], &[7], &[0x80], &[0x90], &[0xc4], &[0xc4, 9, 0], &[0xc6, 0xff, 0xff, 0xff, 0xff, 0], &[0xdd, 0xff, 0xff, 0xff, 0xff, 1]] {
                match std::panic::catch_unwind(|| rmp_serde::from_slice::<ActorID>(b)) {
                    Ok(Err(_)) => {}
                    x => fail(format!("messagepack {b:02x?} is {x:?}")),
                }
            }
            ev("h", "cases", n, "");
        },
        |f, _, v| sane(f, v),
    )
}
struct Bytes<'a>(&'a [u8]);
impl Serialize for Bytes<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

/// Identities are known, and links exist, from before the node was up.
fn before_after() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let what = choose(4);
            let early = choose(2) == 0;
            *res2.lock().unwrap() = Some(what);
            let c = NC { on_link: LinkPolicy::Continue, ..NC::default() };
            let a = n("a", c, Mb::U);
            let b = n("b", c, Mb::U);
            mcrt::settle();
            let mut map: std::collections::HashMap<ActorID, i64> = Default::default();
            for i in 0..32 {
                map.insert(ActorID::new(1000 + i), i as i64);
            }
            map.insert(a.id(), -1);
            let up = || {
                if what == 3 {
                    // from another thread of control, at any moment
                    client("boot", async move {
                        let _ = node(alone());
                    });
                } else {
                    let _ = node(alone());
                }
            };
            if !early {
                up();
            }
            a.link(&b).await;
            if early {
                up();
            }
            if map.get(&a.id()) != Some(&-1) || (0..32u64).any(|i| map.get(&ActorID::new(1000 + i)) != Some(&(i as i64))) {
                fail("a key made before the node was up is not found".to_string());
            }
            if ActorSwarm::get().is_some() && (0..32u64).any(|i| map.get(&ActorID::new_with_peer_id(1000 + i, l())) != Some(&(i as i64))) {
                fail("a key is not found under the node's name".to_string());
            }
            match what {
                0 => a.unlink(&b).await,
                1 => b.unlink(&a).await,
                2 => {
                    a.link(&b).await;
                }
                _ => {}
            }
            kill(&b);
            b.wait_for_stop().await;
            mcrt::settle();
            // what is gone is not told of again
            kill(&a);
            a.wait_for_stop().await;
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some(what) = *res.lock().unwrap() else { return };
            let told = l.countk("a", "link_died");
            let want = !matches!(what, 0 | 1) as usize;
            if told != want {
                v.push(format!("case {what}: told of the other's death {told} times, expected {want}"));
            }
        },
    )
}

struct Big<const W: usize>;
impl<const W: usize> Actor for Big<W> {
    type Error = TErr;
}
macro_rules! big {
    ($($k:literal $id:expr),*) => {$(
        impl RemoteActor for Big<$k> {
            const REMOTE_ID: &'static str = $id;
        }
    )*};
}
const LONG: &str = "mod::path::of::a::very::long::name::of::an::actor::with::parameters::<A, B, C, D>::and::more";
big!(0 "", 1 "n", 2 "na\0", 3 "\u{1F980}\u{e9}", 4 LONG, 5 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", 6 "\x08\x01\x12\x20");

pub async fn entry(node: &NodeRef, name: &str) -> Vec<u8> {
    if let Some(r) = node.dht.lock().unwrap().get(name.as_bytes()) {
        return r.value.clone();
    }
    let k = kad_key(name);
    node.on_node(move |_, s| s.behaviour_mut().stored(&k)).await.map(|r| r.value).unwrap_or_default()
}
pub fn rerr(e: &RegistryError) -> &'static str {
    match e {
        RegistryError::SwarmNotBootstrapped => "not bootstrapped",
        RegistryError::BadActorType => "bad type",
        RegistryError::QuorumFailed { .. } => "quorum",
        RegistryError::Timeout => "timeout",
    }
}

async fn round<const W: usize>(node: &NodeRef, name: &str, seen: &mut Vec<(Vec<u8>, ActorID, String)>)
where
    Big<W>: RemoteActor,
{
    for _ in 0..2 {
        let a = spawn_a(Big::<W>, "big", Mb::U);
        a.register(name).await.unwrap();
        let what = format!("type {:?} as {name:?}", <Big<W> as RemoteActor>::REMOTE_ID);
        let e = entry(node, name).await;
        for (b, id, t) in seen.iter() {
            if *b == e && (*id != a.id() || t != <Big<W> as RemoteActor>::REMOTE_ID) {
                fail(format!("{what}: entry equals that of {id:?} {t:?}"));
            }
        }
        seen.push((e.clone(), a.id(), <Big<W> as RemoteActor>::REMOTE_ID.into()));
        match RemoteActorRef::<Big<W>>::lookup(name).await {
            Ok(Some(r)) if r.id() == a.id() => {}
            x => fail(format!("{what}: found {:?}", x.map(|x| x.map(|x| x.id())))),
        }
        match ActorRef::<Big<W>>::lookup(name).await {
            Ok(Some(r)) if r.id() == a.id() => {}
            x => fail(format!("{what}: found locally {:?}", x.map(|x| x.map(|x| x.id())))),
        }
        // the peer reads the same entry
        node.publish("theirs", mirrored(e.clone()));
        match RemoteActorRef::<Big<W>>::lookup("theirs").await {
            Ok(Some(x)) if x.id() == ActorID::new_with_peer_id(a.id().sequence_id(), r()) => {}
            x => fail(format!("{what}: the peer's is {:?}", x.map(|x| x.map(|x| x.id())))),
        }
        match RemoteActorRef::<N>::lookup("theirs").await {
            Err(RegistryError::BadActorType) => {}
            x => fail(format!("{what}: as another type {:?}", x.map(|x| x.map(|x| x.id())))),
        }
        match ActorRef::<N>::lookup(name).await {
            Err(RegistryError::BadActorType) => {}
            x => fail(format!("{what}: as another type, locally, {:?}", x.map(|x| x.map(|x| x.id())))),
        }
        // other peers' ids
        for p in peers() {
            let mut b = vec![p.to_bytes().len() as u8];
            b.extend(ActorID::new_with_peer_id(5, p).to_bytes());
            b.extend(<Big<W> as RemoteActor>::REMOTE_ID.as_bytes());
            node.publish("other", b);
            match RemoteActorRef::<Big<W>>::lookup("other").await {
                Ok(Some(x)) if x.id() == ActorID::new_with_peer_id(5, p) => {}
                x => fail(format!("{what}: the entry of {p} is {:?}", x.map(|x| x.map(|x| x.id())))),
            }
        }
    }
}
fn entries() -> Program {
    prog(
        move || async move {
            let cfg = [alone(), still()][choose(2)].clone();
            let node = node(NetCfg { max_records: 1000, delays: false, ..cfg });
            mcrt::calm(true);
            let mut seen = vec![];
            for name in ["", "x", "\u{e9}\0 /", LONG] {
                round::<0>(&node, name, &mut seen).await;
                round::<1>(&node, name, &mut seen).await;
                round::<2>(&node, name, &mut seen).await;
                round::<3>(&node, name, &mut seen).await;
                round::<4>(&node, name, &mut seen).await;
                round::<5>(&node, name, &mut seen).await;
                round::<6>(&node, name, &mut seen).await;
            }
            ev("h", "done", seen.len() as i64, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "done") != 1 {
                v.push("the node does not answer".into());
            }
        },
    )
}

fn bad_entries() -> Program {
    prog(
        move || async move {
            let up = choose(2) == 1;
            let part = choose(64);
            let node = node(NetCfg { max_records: 1000, delays: false, ..if up { still() } else { alone() } });
            let a = n("a", NC::default(), Mb::U);
            mcrt::calm(true);
            a.register("x").await.unwrap();
            let good = entry(&node, "x").await;
            let mut cases: Vec<Vec<u8>> = vec![vec![], good.clone()];
            for i in 0..=255u8 {
                cases.push(vec![i]);
                for j in [0u8, 1, 8, 36, 0x80, 0xff] {
                    cases.push(vec![i, j]);
                    cases.push([vec![i], vec![j; 30]].concat());
                }
            }
            for i in 0..good.len() {
                cases.push(good[..i].to_vec());
                cases.push([&good[..i], &[0x80], &good[i..]].concat());
                cases.push([&good[..i], &good[i + 1..]].concat());
                for x in 0..=255u8 {
                    let mut b = good.clone();
                    b[i] = x;
                    cases.push(b);
                }
            }
            cases.push([&good[..], &[0xff]].concat());
            cases.push([&good[..], "\u{e9}".as_bytes()].concat());
            let mut n_done = 0;
            for c in cases.iter().skip(part).step_by(64) {
                n_done += 1;
                // [bytes of the peer][number][peer][type]
                let parsed = (|| {
                    let k = *c.first()? as usize;
                    let (s, p) = meaning(c.get(1..9 + k)?)?;
                    let t = std::str::from_utf8(&c[9 + k..]).ok()?;
                    Some((ActorID::new_with_peer_id(s, p.unwrap_or(l())), t.to_string()))
                })();
                // in the network
                node.publish("y", c.clone());
                let got = RemoteActorRef::<N>::lookup("y").await;
                let fits = match (&parsed, &got) {
                    _ if c.is_empty() => matches!(got, Ok(None)),
                    (Some((id, t)), Ok(Some(r))) => t == "na" && r.id() == *id,
                    (Some((_, t)), Err(RegistryError::BadActorType)) => t != "na",
                    (None, Err(e)) => !matches!(e, RegistryError::SwarmNotBootstrapped),
                    _ => false,
                };
                if !fits {
                    fail(format!("entry {c:02x?} found as {:?}, which says {parsed:?}", got.as_ref().map(|x| x.as_ref().map(|x| x.id())).map_err(rerr)));
                }
                // stored here by a peer
                let rec = libp2p::kad::Record::new(b"z".to_vec(), c.clone());
                node.on_node(move |_, s| s.behaviour_mut().kademlia_put_record_local(rec)).await.unwrap();
                let got = ActorRef::<N>::lookup("z").await;
                let fits = match (&parsed, &got) {
                    _ if c.is_empty() => matches!(got, Ok(None)),
                    (Some((id, t)), Ok(Some(r))) => t == "na" && r.id() == *id && *id == a.id(),
                    (Some((_, t)), Err(RegistryError::BadActorType)) => t != "na",
                    (Some((id, t)), Ok(None)) => t == "na" && *id != a.id(),
                    (None, Err(_) | Ok(None)) => true,
                    _ => false,
                };
                if !fits {
                    fail(format!("entry {c:02x?} found locally as {:?}, which says {parsed:?}", got.as_ref().map(|x| x.as_ref().map(|x| x.id())).map_err(rerr)));
                }
            }
            // the node goes on
            let b = n("b", NC::default(), Mb::U);
            b.register("b").await.unwrap();
            if ActorRef::<N>::lookup("b").await.ok().flatten().map(|x| x.id()) != Some(b.id()) {
                fail("afterwards the node does not serve".to_string());
            }
            ev("h", "done", n_done, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "done") != 1 {
                v.push("the node does not answer".into());
            }
        },
    )
}
