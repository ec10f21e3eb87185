//! P21: odd names.
use crate::kit::*;
use kameo::error::RegistryError;
use kameo::registry::{ActorRegistry, ACTOR_REGISTRY};
use std::borrow::Cow;
use crate::scn::large::*;
struct X;
struct Y;
impl Actor for X {
    type Error = TErr;
}
impl Actor for Y {
    type Error = TErr;
}
fn names() -> Scn {
    scn("P21", "registry-names", 0, 0, "every pair of unusual names (empty, blank, differing in case, in a space at an end, in how an accent is composed, in the last of 10,000 characters, patterns, with a NUL): two actors under them, looked up, replaced, removed and listed, against a map", || {
        prog(
            || async {
                let long: String = "x".repeat(9_999);
                let names: Vec<String> = vec![
                    "".into(), " ".into(), "a".into(), "A".into(), "a ".into(), " a".into(), "a\0".into(), "a\n".into(), "\u{e9}".into(), "e\u{301}".into(),
                    "a/b".into(), "a/*".into(), "*".into(), "aa".into(), format!("{long}y"), format!("{long}z"), "\u{1F980}".into(), "\u{FFFD}".into(),
                ];
                let (i, global) = (choose(names.len()), choose(2) == 1);
                let x = spawn_with_mailbox(X, Mb::U.make());
                let y = spawn_with_mailbox(Y, Mb::U.make());
                let x2 = spawn_with_mailbox(X, Mb::U.make());
                let mut own = ActorRegistry::new();
                let mut lock;
                let reg: &mut ActorRegistry = if global {
                    lock = ACTOR_REGISTRY.lock().unwrap();
                    &mut lock
                } else {
                    &mut own
                };
                for (j, b) in names.iter().enumerate() {
                    let a = &names[i];
                    reg.clear();
                    let owned: String = a.chars().collect();
                    let mut replaced = reg.insert(owned, x.clone());
                    if replaced || !reg.contains_name(a.as_str()) {
                        fail(format!("inserting {a:?} into an empty registry: {replaced}"));
                    }
                    let leaked: &'static str = Box::leak(b.clone().into_boxed_str());
                    replaced = reg.insert(Cow::Borrowed(leaked), y.clone());
                    if replaced != (i == j) {
                        fail(format!("inserting {b:?} after {a:?}: {replaced}"));
                    }
                    let n = if i == j { 1 } else { 2 };
                    let mut listed: Vec<String> = reg.names().map(|n| n.to_string()).collect();
                    listed.sort();
                    let mut want = vec![a.clone(), b.clone()];
                    want.sort();
                    want.dedup();
                    if reg.len() != n || reg.is_empty() || listed != want {
                        fail(format!("the registry lists {listed:?} instead of {want:?}"));
                    }
                    let gx = reg.get::<X, _>(a.as_str());
                    let gy = reg.get::<Y, _>(b.as_str());
                    let ok = if i == j { gx.is_err() } else { matches!(gx, Ok(Some(r)) if r.id() == x.id()) };
                    if !ok || !matches!(gy, Ok(Some(r)) if r.id() == y.id()) {
                        fail(format!("{a:?} and {b:?} are mixed up"));
                    }
                    if i != j && (!reg.insert(a.clone(), x2.clone()) || !matches!(reg.get::<X, _>(a.as_str()), Ok(Some(r)) if r.id() == x2.id()) || reg.len() != 2) {
                        fail(format!("registering {a:?} anew does not replace the entry"));
                    }
                    if !reg.remove(b.as_str()) || reg.remove(b.as_str()) || reg.contains_name(b.as_str()) || reg.contains_name(a.as_str()) != (i != j) || reg.len() != n - 1 {
                        fail(format!("removing {b:?} beside {a:?} went wrong"));
                    }
                }
                reg.clear();
            },
            |f, _l, v| sane(f, v),
        )
    })
}

/// Names.
fn large_names() -> Scn {
    scn("P21", "large-names", 0, 0, "up to 1,100 names registered, looked up under the right and a wrong type, half of them removed, registered again and asked for once their actors have ended, against a map", || {
        prog(
            || async {
                fixed_schedule();
                let n = size();
                let xs: Vec<ActorRef<T>> = (0..n).map(|i| spawn_t(t(name("A", i)), Mb::U)).collect();
                mcrt::settle();
                for (i, x) in xs.iter().enumerate() {
                    if let Err(e) = x.register(name("n", i)) {
                        fail(format!("registering name {i} of {n}: {e:?}"));
                    }
                    // a second registration under a name takes it over
                    if x.register(name("n", i / 2)).is_err() || xs[i / 2].register(name("n", i / 2)).is_err() {
                        fail(format!("registering name {} again", i / 2));
                    }
                }
                let at = |i: usize| ActorRef::<T>::lookup(name("n", i));
                for (i, x) in xs.iter().enumerate() {
                    if !at(i).is_ok_and(|r| r.is_some_and(|r| r.id() == x.id())) {
                        fail(format!("name {i} of {n} does not lead to its actor"));
                    }
                    if !matches!(ActorRef::<DefaultHooks>::lookup(name("n", i)), Err(RegistryError::BadActorType)) {
                        fail(format!("name {i} was found under another type"));
                    }
                }
                let reg = || kameo::registry::ACTOR_REGISTRY.lock().unwrap();
                for i in (0..n).filter(|i| i % 2 == 1) {
                    if !reg().remove(name("n", i)) || reg().remove(name("n", i)) {
                        fail(format!("removing name {i}"));
                    }
                }
                for (i, x) in xs.iter().enumerate() {
                    let want = (i % 2 == 0).then(|| x.id());
                    if at(i).ok().map(|r| r.map(|r| r.id())) != Some(want) {
                        fail(format!("name {i} of {n} after half were removed"));
                    }
                }
                for i in (0..n).filter(|i| i % 2 == 1) {
                    if let Err(e) = xs[n - 1 - i].register(name("n", i)) {
                        fail(format!("registering the removed name {i} again: {e:?}"));
                    }
                }
                for i in (0..n).filter(|i| i % 2 == 1) {
                    if !at(i).is_ok_and(|r| r.is_some_and(|r| r.id() == xs[n - 1 - i].id())) {
                        fail(format!("name {i} given to another actor leads elsewhere"));
                    }
                }
            },
            |f, _, v| all_done_or_registered(f, v),
        )
    })
    .steps(400_000)
}
/// The registry keeps its actors alive.
fn all_done_or_registered(f: &Final, v: &mut Vec<String>) {
    sane(f, v);
    no_panics(f, v);
}


pub fn scenarios() -> Vec<Scn> {
    vec![names(), large_names()]
}
