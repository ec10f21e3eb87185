//! P21: the local actor registry against a map.
use crate::kit::*;
use kameo::error::RegistryError;
use kameo::registry::{ActorRegistry, ACTOR_REGISTRY};
use std::borrow::Cow;
use std::collections::BTreeMap;

/// The actor types of P21.
struct X;
struct Y;
impl Actor for X {
    type Error = TErr;
}
impl Actor for Y {
    type Error = TErr;
}

#[derive(Clone)]
enum AnyRef {
    X(ActorRef<X>),
    Y(ActorRef<Y>),
}
impl AnyRef {
    fn id(&self) -> ActorID {
        match self {
            AnyRef::X(r) => r.id(),
            AnyRef::Y(r) => r.id(),
        }
    }
    fn is_x(&self) -> bool {
        matches!(self, AnyRef::X(_))
    }
}
type Model = BTreeMap<String, (bool, ActorID)>;

fn look<A: Actor>(r: Result<Option<ActorRef<A>>, RegistryError>) -> String {
    match r {
        Ok(Some(a)) => format!("{}", a.id().sequence_id()),
        Ok(None) => "none".into(),
        Err(RegistryError::BadActorType) => "bad-type".into(),
        #[allow(unreachable_patterns)]
        Err(e) => format!("{e:?}"),
    }
}
fn want(m: &Model, name: &str, x: bool) -> String {
    match m.get(name) {
        None => "none".into(),
        Some((t, id)) if *t == x => format!("{}", id.sequence_id()),
        Some(_) => "bad-type".into(),
    }
}

fn sequential(depth: usize) -> Scn {
    let (name, quick) = if depth == 4 { ("registry-map", 0) } else { ("registry-map-deep", SKIP) };
    scn("P21", name, quick, 0, "every sequence of four (deep: five) registrations, removals, lookups and clears over two names and two actor types, against a map; owned and borrowed names, global and separate registries", move || {
        prog(
            move || async move {
                let kind = choose(3);
                let global = kind == 2;
                let mut own = if kind == 0 { ActorRegistry::new() } else { ActorRegistry::with_capacity(4) };
                let mut g;
                let reg: &mut ActorRegistry = if global {
                    g = ACTOR_REGISTRY.lock().unwrap();
                    &mut g
                } else {
                    &mut own
                };
                let names = ["one", "two"];
                let actors = [
                    AnyRef::X(PreparedActor::<X>::new(mailbox::unbounded()).actor_ref().clone()),
                    AnyRef::Y(PreparedActor::<Y>::new(mailbox::unbounded()).actor_ref().clone()),
                    AnyRef::X(PreparedActor::<X>::new(mailbox::bounded(1)).actor_ref().clone()),
                ];
                let mut model = Model::new();
                for step in 0..depth {
                    // insert one of three actors under one of two names, remove one of two names, clear
                    let k = choose(9);
                    match k {
                        0..=5 => {
                            let (n, a) = (names[k % 2], actors[k / 2].clone());
                            let had = model.insert(n.to_string(), (a.is_x(), a.id())).is_some();
                            let name: Cow<'static, str> = if step % 2 == 0 { Cow::Borrowed(n) } else { Cow::Owned(n.to_string()) };
                            let r = match a {
                                AnyRef::X(a) => reg.insert(name, a),
                                AnyRef::Y(a) => reg.insert(name, a),
                            };
                            if r != had {
                                fail(format!("insert returned {r} for a name that was {}", if had { "taken" } else { "free" }));
                            }
                        }
                        6 | 7 => {
                            let n = names[k - 6];
                            let had = model.remove(n).is_some();
                            let r = if step % 2 == 0 { reg.remove(n) } else { reg.remove(&Cow::<'static, str>::Owned(n.to_string())) };
                            if r != had {
                                fail(format!("remove returned {r} for a name that was {}", if had { "taken" } else { "free" }));
                            }
                        }
                        _ => {
                            reg.clear();
                            model.clear();
                        }
                    }
                    for n in ["one", "two", "three"] {
                        let (x, y) = (look(reg.get::<X, _>(n)), look(reg.get::<Y, _>(n)));
                        if x != want(&model, n, true) || y != want(&model, n, false) {
                            fail(format!("lookup of {n} gave {x} and {y} instead of {} and {}", want(&model, n, true), want(&model, n, false)));
                        }
                        if reg.contains_name(n) != model.contains_key(n) {
                            fail(format!("contains_name({n}) is {}", reg.contains_name(n)));
                        }
                    }
                    let mut ns: Vec<String> = reg.names().map(|n| n.to_string()).collect();
                    ns.sort();
                    let wn: Vec<String> = model.keys().cloned().collect();
                    if ns != wn || reg.len() != model.len() || reg.is_empty() != model.is_empty() || reg.capacity() < reg.len() {
                        fail(format!("names {ns:?}, size {}, empty {} instead of {wn:?}", reg.len(), reg.is_empty()));
                    }
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    RegX(&'static str),
    RegY(&'static str),
    LookX(&'static str),
    LookY(&'static str),
    Remove(&'static str),
    Clear,
    Len,
}
use Op::*;

fn run_op(o: Op, refs: &(ActorRef<X>, ActorRef<Y>)) -> String {
    match o {
        RegX(n) => match refs.0.register(n) {
            Ok(()) => "ok".into(),
            Err(e) => format!("{e:?}"),
        },
        RegY(n) => match refs.1.register(n.to_string()) {
            Ok(()) => "ok".into(),
            Err(e) => format!("{e:?}"),
        },
        LookX(n) => look(ActorRef::<X>::lookup(n)),
        LookY(n) => look(ActorRef::<Y>::lookup(&n.to_string() as &str)),
        Remove(n) => format!("{}", ACTOR_REGISTRY.lock().unwrap().remove(n)),
        Clear => {
            ACTOR_REGISTRY.lock().unwrap().clear();
            "ok".into()
        }
        Len => format!("{}", ACTOR_REGISTRY.lock().unwrap().len()),
    }
}
/// The map model.
fn model_op(m: &mut Model, o: Op, ids: (ActorID, ActorID)) -> String {
    match o {
        RegX(n) => {
            m.insert(n.into(), (true, ids.0));
            "ok".into()
        }
        RegY(n) => {
            m.insert(n.into(), (false, ids.1));
            "ok".into()
        }
        LookX(n) => want(m, n, true),
        LookY(n) => want(m, n, false),
        Remove(n) => format!("{}", m.remove(n).is_some()),
        Clear => {
            m.clear();
            "ok".into()
        }
        Len => format!("{}", m.len()),
    }
}

const S0: &[&[Op]] = &[&[RegX("n"), LookX("n")], &[RegX("n"), Remove("n")], &[LookX("n"), LookX("n")], &[RegX("n"), RegX("p"), Len], &[Clear, LookX("n")], &[LookY("n"), LookX("n")]];
const S1: &[&[Op]] = &[&[RegY("n"), LookY("n")], &[Remove("n"), RegX("n")], &[RegX("n"), Clear, LookX("n")], &[RegX("n"), RegY("n")], &[RegX("p"), RegX("n"), Len], &[Remove("n"), Remove("n")]];

type Hist = Vec<(usize, usize, Op, String)>;
static HIST: Mutex<Vec<(usize, usize, Op, String)>> = Mutex::new(Vec::new());
static IDS: Mutex<Vec<((ActorID, ActorID), bool)>> = Mutex::new(Vec::new());

/// Is there a one-at-a-time order, consistent with the clients' own order, that explains the results?
fn explain(h: &Hist, at: [usize; 2], m: &Model, ids: &[(ActorID, ActorID); 2]) -> bool {
    let seqs: Vec<Vec<&(usize, usize, Op, String)>> = (0..2).map(|c| h.iter().filter(|x| x.0 == c).collect()).collect();
    if at[0] == seqs[0].len() && at[1] == seqs[1].len() {
        return true;
    }
    for c in 0..2 {
        if at[c] < seqs[c].len() {
            let x = seqs[c][at[c]];
            let mut m2 = m.clone();
            if model_op(&mut m2, x.2, ids[c]) == x.3 {
                let mut at2 = at;
                at2[c] += 1;
                if explain(h, at2, &m2, ids) {
                    return true;
                }
            }
        }
    }
    false
}

fn concurrent() -> Scn {
    scn("P21", "registry-concurrent", 1, 2, "two threads register, look up, remove and clear through the global registry, preempted before every atomic instruction; the results must be explained by some one-at-a-time order", || {
        prog(
            || async move {
                let scripts = [S0[choose(S0.len())], S1[choose(S1.len())]];
                let before = choose(2) == 1;
                let _ = ACTOR_REGISTRY.lock().unwrap().len();
                let mk = || (PreparedActor::<X>::new(mailbox::unbounded()).actor_ref().clone(), PreparedActor::<Y>::new(mailbox::unbounded()).actor_ref().clone());
                let r = [mk(), mk()];
                for x in &r {
                    IDS.lock().unwrap().push(((x.0.id(), x.1.id()), before));
                }
                if before {
                    r[0].0.register("n").unwrap();
                }
                for c in 0..2 {
                    let refs = r[c].clone();
                    let s = scripts[c];
                    client_blocking(["c0", "c1"][c], move || {
                        for (i, o) in s.iter().enumerate() {
                            mcrt::point(0x2e6, 18);
                            let res = mcrt::stepped(mcrt::Step::Locked, || run_op(*o, &refs));
                            HIST.lock().unwrap().push((c, i, *o, res.clone()));
                            ev(["c0", "c1"][c], "op", i as i64, format!("{o:?}={res}"));
                        }
                    });
                }
            },
            |f, _l, v| {
                all_done(f, v);
                if !v.is_empty() {
                    return;
                }
                let h = HIST.lock().unwrap().clone();
                let ids = IDS.lock().unwrap().clone();
                let mut m = Model::new();
                if ids[0].1 {
                    m.insert("n".into(), (true, ids[0].0 .0));
                }
                if !explain(&h, [0, 0], &m, &[ids[0].0, ids[1].0]) {
                    v.push(format!("no one-at-a-time order explains {:?}", h.iter().map(|x| format!("c{} {:?}={}", x.0, x.2, x.3)).collect::<Vec<_>>()));
                }
            },
        )
    })
}

pub fn scenarios() -> Vec<Scn> {
    vec![sequential(4), sequential(5), concurrent()]
}
