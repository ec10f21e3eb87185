//! P13, P14, P15: links between actors.
use crate::kit::*;

/// Ways for an actor to end.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Die {
    Stop,
    Kill,
    Panic,
    TellErr,
    DropRefs,
}
pub const DIES: [Die; 5] = [Die::Stop, Die::Kill, Die::Panic, Die::TellErr, Die::DropRefs];

pub async fn die(how: Die, a: ActorRef<T>) {
    match how {
        Die::Stop => {
            let _ = a.stop_gracefully().await;
        }
        Die::Kill => {
            // the reference is kept: dropping the last one is another way to end
            kill(&a);
            a.wait_for_shutdown().await;
        }
        Die::Panic => {
            let _ = a.tell(m_panic(90)).send().await;
        }
        Die::TellErr => {
            let _ = a.tell(m_err(91)).send().await;
        }
        Die::DropRefs => std::mem::drop(a),
    }
}
pub fn die_reason(how: Die) -> &'static str {
    match how {
        Die::Stop | Die::DropRefs => "Normal",
        Die::Kill => "Killed",
        Die::Panic => "Panicked:str:handler 90 panics",
        Die::TellErr => "Panicked:TErr91",
    }
}
fn cont(name: &'static str) -> T {
    tc(name, Cfg { on_link: LinkPolicy::Continue, ..Default::default() })
}
fn b1u() -> Mb {
    if choose(2) == 0 { Mb::B(1) } else { Mb::U }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum L {
    Link(usize, usize),
    Unlink(usize, usize),
    BLink(usize, usize),
    BUnlink(usize, usize),
}
async fn link_op(op: L, x: &[ActorRef<T>]) {
    match op {
        L::Link(i, j) => x[i].link(&x[j]).await,
        L::Unlink(i, j) => x[i].unlink(&x[j]).await,
        L::BLink(i, j) => {
            let (a, b) = (x[i].clone(), x[j].clone());
            client_blocking("blocker", move || a.blocking_link(&b)).await.unwrap()
        }
        L::BUnlink(i, j) => {
            let (a, b) = (x[i].clone(), x[j].clone());
            client_blocking("blocker", move || a.blocking_unlink(&b)).await.unwrap()
        }
    }
}

/// The same actors through references obtained in another way: as they are, upgraded from a weak one, or from
/// the copy of a weak one.
fn other_refs(form: usize, x: &[ActorRef<T>; 2]) -> [ActorRef<T>; 2] {
    let f = |a: &ActorRef<T>| match form {
        0 => a.clone(),
        1 => a.downgrade().upgrade().expect("alive"),
        _ => {
            #[allow(clippy::redundant_clone)]
            let w = a.downgrade().clone();
            w.upgrade().expect("alive")
        }
    };
    [f(&x[0]), f(&x[1])]
}

/// which of the actors does `a`'s debug output list as linked
fn lists(a: &ActorRef<T>, b: &ActorRef<T>) -> bool {
    let s = format!("{a:?}");
    s.split_once("links").is_some_and(|(_, l)| l.contains(&format!("{:?}", b.id())))
}

async fn still_serves(name: &'static str, a: &ActorRef<T>, id: u32) {
    let r = a.ask(m(id)).send().await;
    ev(name, "served", id as i64, res_text(&r));
}

pub fn scenarios() -> Vec<Scn> {
    let mut v = p13();
    v.extend(p14());
    v.extend(p15());
    v
}

fn p13() -> Vec<Scn> {
    vec![
        scn("P13", "link-notify", 1, 3, "two actors linked in every way (either side, twice, blocking, relinked after unlinking, before or after start-up); one ends in every way; the other is idle or has a full mailbox", || {
            prog(
                || async {
                    let mb = b1u();
                    let how = DIES[choose(5)];
                    let ops: &[L] = [
                        &[L::Link(0, 1)][..],
                        &[L::Link(1, 0)],
                        &[L::Link(0, 1), L::Link(0, 1)],
                        &[L::Link(0, 1), L::Link(1, 0)],
                        &[L::BLink(0, 1)],
                        &[L::BLink(1, 0)],
                        &[L::Link(0, 1), L::Unlink(1, 0), L::Link(0, 1)],
                        &[L::Link(0, 1), L::BUnlink(1, 0), L::Link(1, 0)],
                    ][choose(8)];
                    let early = choose(2) == 1;
                    ev("cfg", "how", 0, die_reason(how));
                    let (pa, pb) = (PreparedActor::new(mb.make()), PreparedActor::new(mb.make()));
                    let x = [pa.actor_ref().clone(), pb.actor_ref().clone()];
                    name_id(x[0].id(), "A");
                    name_id(x[1].id(), "B");
                    let y = other_refs(choose(3), &x);
                    if early {
                        for op in ops {
                            link_op(*op, &y).await;
                        }
                    }
                    mcrt::set_next_name("A");
                    pa.spawn(cont("A"));
                    mcrt::set_next_name("B");
                    pb.spawn(cont("B"));
                    if !early {
                        for op in ops {
                            link_op(*op, &y).await;
                        }
                    }
                    drop(y);
                    let [a, b] = x;
                    let b2 = b.clone();
                    client("k", async move { die(how, a).await });
                    client("c", async move {
                        let _ = b.tell(m_yield(1, 1)).send().await;
                        let _ = b.tell(m(2)).send().await;
                    });
                    mcrt::settle();
                    still_serves("B", &b2, 5).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    let reason = l.ss("cfg", "how").concat();
                    if l.ss("A", "stop") != vec![reason.clone()] {
                        v.push(format!("A stopped with {:?}, expected {reason}", l.ss("A", "stop")));
                    }
                    if l.ss("B", "link_died") != vec![format!("A {reason}")] {
                        v.push(format!("B was notified {:?}, expected once: A {reason}", l.ss("B", "link_died")));
                    }
                    if l.countk("A", "link_died") != 0 {
                        v.push("the dead actor was notified".into());
                    }
                    if l.ss("B", "served") != vec!["ok1005"] || l.count("B", "end", 1) != 1 || l.count("B", "end", 2) != 1 {
                        v.push(format!("B did not keep working: {:?}", l.ss("B", "served")));
                    }
                },
            )
        }),
        scn("P13", "unlink-silent", 1, 3, "linked, unlinked from either side (waiting or blocking), then one ends in every way: nobody is told; also when unlinked while the other is busy", || {
            prog(
                || async {
                    let mb = b1u();
                    let how = DIES[choose(5)];
                    let ops: &[L] = [
                        &[L::Link(0, 1), L::Unlink(0, 1)][..],
                        &[L::Link(0, 1), L::Unlink(1, 0)],
                        &[L::Link(1, 0), L::BUnlink(0, 1)],
                        &[L::Link(1, 0), L::BUnlink(1, 0)],
                        &[L::Link(0, 1), L::Link(1, 0), L::Unlink(0, 1)],
                        &[L::BLink(0, 1), L::Link(0, 1), L::Unlink(1, 0)],
                        &[L::Link(0, 0), L::Unlink(0, 1)],
                    ][choose(7)];
                    let victim = choose(2);
                    let x = [spawn_t(cont("A"), mb), spawn_t(cont("B"), mb)];
                    let form = choose(3);
                    for op in ops {
                        link_op(*op, &other_refs(form, &x)).await;
                    }
                    let [a, b] = x;
                    let (dying, other) = if victim == 0 { (a, b) } else { (b, a) };
                    client("k", async move { die(how, dying).await });
                    mcrt::settle();
                    still_serves("other", &other, 5).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    if l.countk("A", "link_died") + l.countk("B", "link_died") != 0 {
                        v.push("an actor that is no longer linked was notified".into());
                    }
                    if l.ss("other", "served") != vec!["ok1005"] {
                        v.push(format!("the other actor did not keep working: {:?}", l.ss("other", "served")));
                    }
                },
            )
        }),
        scn("P13", "spawn-link", 1, 3, "a child spawned linked (or linked before being spawned) that fails in its start-up hook, in its first message, is killed, stopped or dropped at once", || {
            prog(
                || async {
                    let mb = b1u();
                    let parent = spawn_t(cont("P"), mb);
                    let start = [Outcome::Ok, Outcome::Err(7), Outcome::Panic][choose(3)];
                    let how = if start == Outcome::Ok { DIES[choose(5)] } else { [Die::DropRefs, Die::Stop][choose(2)] };
                    let way = choose(2);
                    let policy = choose(2) == 1;
                    ev("cfg", "how", 0, match start {
                        Outcome::Ok => die_reason(how).to_string(),
                        Outcome::Err(_) => "Panicked:TErr7".into(),
                        _ => "Panicked:str:on_start panics".into(),
                    });
                    let child = tc("C", Cfg { start, start_yields: 1, on_panic: if policy && start != Outcome::Ok { PanicPolicy::Continue } else { PanicPolicy::Default }, ..Default::default() });
                    ev("cfg", "policy", (policy && start != Outcome::Ok) as i64, "");
                    if way == 0 {
                        mcrt::set_next_name("C");
                        let c = spawn_link_with_mailbox(&parent, child, mb.make()).await;
                        name_id(c.id(), "C");
                        die(how, c).await;
                    } else {
                        let p = PreparedActor::new(mb.make());
                        let c = p.actor_ref().clone();
                        name_id(c.id(), "C");
                        c.link(&parent).await;
                        mcrt::set_next_name("C");
                        p.spawn(child);
                        die(how, c).await;
                    }
                    mcrt::settle();
                    still_serves("P", &parent, 5).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    let reason = l.ss("cfg", "how").concat();
                    let stop = l.ss("C", "stop");
                    if stop.len() != 1 || (l.ns("cfg", "policy")[0] == 0 && stop[0] != reason) {
                        v.push(format!("the child stopped with {stop:?}, expected {reason}"));
                        return;
                    }
                    if l.ss("P", "link_died") != vec![format!("C {}", stop[0])] {
                        v.push(format!("the parent was notified {:?}, expected once: C {}", l.ss("P", "link_died"), stop[0]));
                    }
                    if l.ss("P", "served") != vec!["ok1005"] {
                        v.push(format!("the parent did not keep working: {:?}", l.ss("P", "served")));
                    }
                },
            )
        }),
        scn("P13", "link-vs-death", 2, 4, "linking or unlinking racing with the end of one side: at most one notification, exactly one if the link was made before the end was caused, none if it was removed before", || {
            prog(
                || async {
                    let mb = b1u();
                    let how = [Die::Kill, Die::Stop, Die::Panic][choose(3)];
                    let op = [L::Link(0, 1), L::Link(1, 0), L::Unlink(0, 1), L::Unlink(1, 0)][choose(4)];
                    let x = [spawn_t(cont("A"), mb), spawn_t(cont("B"), mb)];
                    let un = matches!(op, L::Unlink(..));
                    ev("cfg", "un", un as i64, "");
                    if un {
                        x[0].link(&x[1]).await;
                    }
                    let y = x.clone();
                    client("l", async move {
                        link_op(op, &y).await;
                        ev_hb("l", "done", 0, "");
                    });
                    let [a, b] = x;
                    client("k", async move {
                        ev_hb("k", "cause", 0, "");
                        die(how, a).await
                    });
                    mcrt::settle();
                    still_serves("B", &b, 5).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    let un = l.ns("cfg", "un")[0] == 1;
                    let n = l.countk("B", "link_died");
                    let before = l.first("l", "done") < l.first("k", "cause");
                    // the dead side hands out its notifications before its stop hook begins
                    let after = l.first("A", "stop") < l.first("l", "done");
                    let _ = after;
                    if n > 1 || (before && n != !un as usize) {
                        v.push(format!("B was notified {n} times (unlinking: {un}, finished before the end was caused: {before})"));
                    }
                    if l.countk("A", "link_died") != 0 || l.ss("B", "served") != vec!["ok1005"] {
                        v.push("B did not keep working".into());
                    }
                },
            )
        }),
        scn("P13", "fan", 1, 3, "a hub with three linked actors, one of which is dead already, ends in every way; the others (idle, busy or full) are told once each; a second hub dies at the same time", || {
            prog(
                || async {
                    let mb = b1u();
                    let how = DIES[choose(5)];
                    ev("cfg", "how", 0, die_reason(how));
                    let hub = spawn_t(cont("H"), Mb::U);
                    let hub2 = spawn_t(cont("I"), Mb::U);
                    let x = [spawn_t(cont("A"), mb), spawn_t(cont("B"), mb), spawn_t(cont("D"), mb)];
                    for y in &x {
                        hub.link(y).await;
                    }
                    hub2.link(&x[0]).await;
                    let [a, b, d] = x;
                    kill(&d);
                    d.wait_for_shutdown().await;
                    let (a2, b2) = (a.clone(), b.clone());
                    client("k", async move { die(how, hub).await });
                    client("k2", async move { die(Die::Kill, hub2).await });
                    mcrt::settle();
                    still_serves("A", &a2, 5).await;
                    still_serves("B", &b2, 6).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    let reason = l.ss("cfg", "how").concat();
                    let mut a = l.ss("A", "link_died");
                    a.sort();
                    let mut w = vec![format!("H {reason}"), "I Killed".to_string()];
                    w.sort();
                    if a != w {
                        v.push(format!("A was notified {a:?}, expected {w:?}"));
                    }
                    if l.ss("B", "link_died") != vec![format!("H {reason}")] {
                        v.push(format!("B was notified {:?}", l.ss("B", "link_died")));
                    }
                    if l.countk("D", "link_died") != 0 || l.countk("I", "link_died") != 0 {
                        v.push("an actor that is dead or not linked was notified".into());
                    }
                    let h = l.ss("H", "link_died");
                    if h.len() > 1 || h.iter().any(|x| x != "D Killed") {
                        v.push(format!("the hub was notified {h:?}"));
                    }
                    if l.ss("A", "served") != vec!["ok1005"] || l.ss("B", "served") != vec!["ok1006"] {
                        v.push("a linked actor did not keep working".into());
                    }
                },
            )
        }),
        scn("P13", "link-hook-decides", 1, 3, "the link-death hook continues, stops, fails or panics; the actor's own links then see the resulting reason", || {
            prog(
                || async {
                    let mb = b1u();
                    let how = DIES[choose(5)];
                    let pol = [LinkPolicy::Default, LinkPolicy::Continue, LinkPolicy::Break, LinkPolicy::Err, LinkPolicy::Panic][choose(5)];
                    let pp = [PanicPolicy::Default, PanicPolicy::Continue][choose(2)];
                    ev("cfg", "how", 0, die_reason(how));
                    ev("cfg", "pol", 0, format!("{pol:?}"));
                    ev("cfg", "pp", 0, format!("{pp:?}"));
                    let a = spawn_t(cont("A"), mb);
                    let b = spawn_t(tc("B", Cfg { on_link: pol, on_panic: pp, ..Default::default() }), mb);
                    let c = spawn_t(cont("C"), mb);
                    a.link(&b).await;
                    b.link(&c).await;
                    client("k", async move { die(how, a).await });
                    mcrt::settle();
                    still_serves("b", &b, 5).await;
                    still_serves("c", &c, 6).await;
                    kill(&b);
                    mcrt::settle();
                    still_serves("c", &c, 7).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    let reason = l.ss("cfg", "how").concat();
                    let pol = l.ss("cfg", "pol").concat();
                    let failed = match pol.as_str() {
                        "Err" => Some("TErr901"),
                        "Panic" => Some("str:on_link_died panics"),
                        _ => None,
                    };
                    let stop = match pol.as_str() {
                        "Default" if reason == "Normal" => None,
                        "Default" => Some(format!("LinkDied:A:{reason}")),
                        "Continue" => None,
                        "Break" => Some("Normal".into()),
                        _ if l.ss("cfg", "pp").concat() == "Continue" => None,
                        _ => Some(format!("Panicked:{}", failed.unwrap())),
                    };
                    let hooks = l.ss("B", "on_panic");
                    if hooks != failed.map(|x| x.to_string()).into_iter().collect::<Vec<_>>() {
                        v.push(format!("[{pol}] failure hook calls: {hooks:?}"));
                    }
                    let b_alive = l.ss("b", "served") == vec!["ok1005"];
                    if b_alive != stop.is_none() {
                        v.push(format!("[{pol}] after A's death B's ask gave {:?}", l.ss("b", "served")));
                    }
                    let want = stop.unwrap_or("Killed".into());
                    if l.ss("B", "stop") != vec![want.clone()] || l.ss("C", "link_died") != vec![format!("B {want}")] {
                        v.push(format!("[{pol}] B stopped with {:?}, C was told {:?}, expected {want}", l.ss("B", "stop"), l.ss("C", "link_died")));
                    }
                    if l.ss("B", "link_died") != vec![format!("A {reason}")] {
                        v.push(format!("B was notified {:?}", l.ss("B", "link_died")));
                    }
                    if l.ss("c", "served") != vec!["ok1006", "ok1007"] {
                        v.push("C did not keep working".into());
                    }
                },
            )
        }),
    ]
}

const NAMES4: [&str; 4] = ["A", "B", "C", "D"];
/// graphs over A.., with edges
const GRAPHS: [(usize, &[(usize, usize)]); 6] = [
    (2, &[(0, 1)]),
    (3, &[(0, 1), (1, 2)]),
    (3, &[(1, 0), (2, 1), (0, 2)]),
    (4, &[(0, 1), (0, 2), (0, 3)]),
    (4, &[(0, 1), (1, 2), (2, 3), (3, 0)]),
    (3, &[(0, 1)]),
];

fn p14() -> Vec<Scn> {
    vec![
        scn("P14", "propagation", 1, 2, "pairs, chains, cycles and stars of default actors; one ends in every way; one actor may override the hook and continue", || {
            prog(
                || async {
                    let g = choose(6);
                    let (n, edges) = GRAPHS[g];
                    let how = DIES[choose(5)];
                    let victim = choose(2);
                    let wall = choose(2); // 1: actor 1 keeps running (if it is not the victim)
                    let mb = b1u();
                    ev("cfg", "g", g as i64, die_reason(how));
                    ev("cfg", "victim", victim as i64, "");
                    ev("cfg", "wall", wall as i64, "");
                    let mut x = vec![];
                    for (i, name) in NAMES4.iter().enumerate().take(n) {
                        let on_link = if wall == 1 && i == 1 { LinkPolicy::Continue } else { LinkPolicy::Default };
                        x.push(spawn_t(tc(name, Cfg { on_link, ..Default::default() }), mb));
                    }
                    for (i, j) in edges {
                        x[*i].link(&x[*j]).await;
                    }
                    let d = x[victim].clone();
                    if how == Die::DropRefs {
                        let (p, q) = (x.remove(victim), d);
                        std::mem::drop(p);
                        client("k", async move { std::mem::drop(q) });
                        mcrt::settle();
                        for (i, a) in x.iter().enumerate() {
                            let i = if i >= victim { i + 1 } else { i };
                            still_serves("s", a, 50 + i as u32).await;
                        }
                    } else {
                        client("k", async move { die(how, d).await });
                        mcrt::settle();
                        for (i, a) in x.iter().enumerate() {
                            if i != victim {
                                still_serves("s", a, 50 + i as u32).await;
                            }
                        }
                    }
                    ev("cfg", "checked", 0, "");
                },
                |f, l, v| {
                    all_done(f, v);
                    let g = l.ns("cfg", "g")[0] as usize;
                    let reason = l.ss("cfg", "g").concat();
                    let victim = l.ns("cfg", "victim")[0] as usize;
                    let wall = l.ns("cfg", "wall")[0] == 1;
                    let (n, edges) = GRAPHS[g];
                    let adj = |i: usize| edges.iter().filter_map(move |(a, b)| if *a == i { Some(*b) } else if *b == i { Some(*a) } else { None });
                    // who goes down
                    let mut down = vec![false; n];
                    let mut todo = vec![victim];
                    down[victim] = true;
                    if reason != "Normal" {
                        while let Some(i) = todo.pop() {
                            for j in adj(i) {
                                if !down[j] && !(wall && j == 1) {
                                    down[j] = true;
                                    todo.push(j);
                                }
                            }
                        }
                    }
                    for i in 0..n {
                        let name = NAMES4[i];
                        if i == victim {
                            if l.ss(name, "stop") != vec![reason.clone()] {
                                v.push(format!("{name} stopped with {:?}, expected {reason}", l.ss(name, "stop")));
                            }
                            continue;
                        }
                        let served = l.0.iter().find(|e| e.who == "s" && e.n == 50 + i as i64).map(|e| e.s.clone()).unwrap_or_default();
                        let stop = l.ss(name, "stop");
                        if down[i] {
                            let ok = stop.len() == 1
                                && adj(i).any(|j| down[j] && l.ss(NAMES4[j], "stop").first().is_some_and(|r| stop[0] == format!("LinkDied:{}:{r}", NAMES4[j])));
                            if !ok || !served.starts_with("NotRunning") {
                                v.push(format!("{name} had to go down with a linked actor but stopped with {stop:?} (ask: {served})"));
                            }
                        } else if served != format!("ok{}", 1050 + i) || stop != vec!["Normal"] {
                            v.push(format!("{name} had to keep running but its ask gave {served} and it stopped with {stop:?}"));
                        }
                    }
                },
            )
        }),
        scn("P14", "two-deaths", 1, 3, "a default actor linked to two actors that end at the same time in every pair of ways", || {
            prog(
                || async {
                    let mb = b1u();
                    let (h1, h2) = (DIES[choose(4)], DIES[choose(4)]);
                    ev("cfg", "h1", 0, die_reason(h1));
                    ev("cfg", "h2", 0, die_reason(h2));
                    let (a, b, c) = (spawn_t(cont("A"), mb), spawn_t(t("B"), mb), spawn_t(cont("C"), mb));
                    a.link(&b).await;
                    c.link(&b).await;
                    client("k1", async move { die(h1, a).await });
                    client("k2", async move { die(h2, c).await });
                    mcrt::settle();
                    still_serves("s", &b, 5).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    let (r1, r2) = (l.ss("cfg", "h1").concat(), l.ss("cfg", "h2").concat());
                    let mut want = vec![];
                    if r1 != "Normal" {
                        want.push(format!("LinkDied:A:{r1}"));
                    }
                    if r2 != "Normal" {
                        want.push(format!("LinkDied:C:{r2}"));
                    }
                    let stop = l.ss("B", "stop");
                    let served = l.ss("s", "served").concat();
                    if want.is_empty() {
                        if served != "ok1005" || stop != vec!["Normal"] {
                            v.push(format!("B had to keep running: ask {served}, stopped with {stop:?}"));
                        }
                    } else if stop.len() != 1 || !want.contains(&stop[0]) || !served.starts_with("NotRunning") {
                        v.push(format!("B stopped with {stop:?}, expected one of {want:?} (ask: {served})"));
                    }
                },
            )
        }),
    ]
}

const LOPS: [L; 6] = [L::Link(0, 1), L::Link(1, 0), L::Unlink(0, 1), L::Unlink(1, 0), L::BLink(1, 0), L::BUnlink(1, 0)];

fn p15() -> Vec<Scn> {
    vec![
        scn("P15", "link-ops", 2, 4, "two clients linking and unlinking the same pair in both directions, waiting or blocking; afterwards both sides agree", || {
            prog(
                || async {
                    let x = [spawn_t(cont("A"), Mb::U), spawn_t(cont("B"), Mb::U)];
                    mcrt::settle();
                    let pre = choose(2);
                    if pre == 1 {
                        x[0].link(&x[1]).await;
                    }
                    let (o1, o2) = (LOPS[choose(6)], LOPS[choose(6)]);
                    let adds = |o: L| matches!(o, L::Link(..) | L::BLink(..));
                    ev("cfg", "adds", adds(o1) as i64 + adds(o2) as i64, format!("{o1:?} {o2:?}"));
                    for (name, o) in [("c1", o1), ("c2", o2)] {
                        let y = x.clone();
                        client(name, async move {
                            link_op(o, &y).await;
                            ev(name, "done", 0, "");
                        });
                    }
                    mcrt::settle();
                    let (p, q) = (lists(&x[0], &x[1]), lists(&x[1], &x[0]));
                    ev("cfg", "agree", (p == q) as i64, format!("{p} {q}"));
                    let [a, b] = x;
                    kill(&a);
                    mcrt::settle();
                    still_serves("B", &b, 5).await;
                    if lists(&b, &a) {
                        ev("cfg", "stale", 0, "");
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    if !f.must_stuck.is_empty() {
                        return;
                    }
                    if l.ns("cfg", "agree") != vec![1] {
                        v.push(format!("[{}] the two sides disagree: {:?}", l.ss("cfg", "adds").concat(), l.ss("cfg", "agree")));
                    }
                    let n = l.countk("B", "link_died");
                    let adds = l.ns("cfg", "adds")[0];
                    if n > 1 || (adds == 2 && n != 1) || (adds == 0 && n != 0) {
                        v.push(format!("[{}] B was notified {n} times", l.ss("cfg", "adds").concat()));
                    }
                    if l.countk("cfg", "stale") != 0 {
                        v.push("a dead actor is still linked".into());
                    }
                    if l.ss("B", "served") != vec!["ok1005"] {
                        v.push("B did not keep working".into());
                    }
                },
            )
        }),
        scn("P15", "three-way-ops", 1, 3, "three clients linking three actors in a cycle, some while unlinking, some blocking", || {
            prog(
                || async {
                    let x = [spawn_t(cont("A"), Mb::U), spawn_t(cont("B"), Mb::U), spawn_t(cont("C"), Mb::U)];
                    mcrt::settle();
                    let style = choose(3);
                    for (i, name) in ["c1", "c2", "c3"].into_iter().enumerate() {
                        let y = x.clone();
                        let (p, q) = (i, (i + 1) % 3);
                        client(name, async move {
                            match style {
                                0 => link_op(L::Link(p, q), &y).await,
                                1 => link_op(L::BLink(p, q), &y).await,
                                _ => {
                                    link_op(L::Link(p, q), &y).await;
                                    link_op(L::Unlink(q, p), &y).await;
                                }
                            }
                        });
                    }
                    mcrt::settle();
                    let mut n = 0;
                    for i in 0..3 {
                        for j in 0..3 {
                            if i != j {
                                if lists(&x[i], &x[j]) != lists(&x[j], &x[i]) {
                                    ev("cfg", "disagree", 0, format!("{i} {j}"));
                                }
                                n += lists(&x[i], &x[j]) as i64;
                            }
                        }
                    }
                    ev("cfg", "style", style as i64, "");
                    ev("cfg", "links", n, "");
                    for a in &x {
                        kill(a);
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    if !f.must_stuck.is_empty() {
                        return;
                    }
                    if l.countk("cfg", "disagree") != 0 {
                        v.push("the links disagree".into());
                    }
                    let want = if l.ns("cfg", "style")[0] == 2 { 0 } else { 6 };
                    if l.ns("cfg", "links") != vec![want] {
                        v.push(format!("{:?} directed links, expected {want}", l.ns("cfg", "links")));
                    }
                },
            )
        }),
        scn("P15", "ops-vs-death", 2, 4, "linking and unlinking (waiting or blocking) while either side is killed, stopped or both", || {
            prog(
                || async {
                    let mb = b1u();
                    let x = [spawn_t(t("A"), mb), spawn_t(t("B"), mb)];
                    let o = LOPS[choose(6)];
                    if choose(2) == 1 {
                        x[0].link(&x[1]).await;
                    }
                    let who = choose(3);
                    let y = x.clone();
                    client("c1", async move { link_op(o, &y).await });
                    let [a, b] = x;
                    if who != 1 {
                        client("k1", async move { die(Die::Kill, a).await });
                    }
                    if who != 0 {
                        client("k2", async move { die(Die::Stop, b).await });
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    for n in ["A", "B"] {
                        if l.countk(n, "stop") != 1 || l.countk(n, "stopped") != 1 {
                            v.push(format!("{n} did not stop exactly once"));
                        }
                    }
                },
            )
        }),
        scn("P15", "full-mailboxes-dying", 1, 3, "two or three linked actors with full bounded mailboxes die together", || {
            prog(
                || async {
                    let n = 2 + choose(2);
                    let how = [Die::Kill, Die::Panic][choose(2)];
                    let mut x = vec![];
                    for name in NAMES4.iter().take(n) {
                        x.push(spawn_t(t(name), Mb::B(1)));
                    }
                    mcrt::settle();
                    for i in 0..n {
                        x[i].link(&x[(i + 1) % n]).await;
                    }
                    for a in &x {
                        // the handler suspends until everybody waits, then fails or is killed; the mailbox is full meanwhile
                        a.tell(m_do(1, move |me| async move {
                            mcrt::settle();
                            if how == Die::Kill {
                                kill(&me);
                                yield_now().await;
                                Ok(1)
                            } else {
                                panic!("handler 90 panics")
                            }
                        })).send().await.unwrap();
                    }
                    let y = x.clone();
                    client("fill", async move {
                        for a in &y {
                            let _ = a.tell(m(2)).try_send();
                        }
                    });
                },
                |f, l, v| {
                    all_done(f, v);
                    for n in NAMES4 {
                        if l.countk(n, "start") == 1 && l.countk(n, "stop") != 1 {
                            v.push(format!("{n} did not stop exactly once"));
                        }
                    }
                },
            )
        }),
        scn("P15", "handler-waits-for-link", 1, 3, "an actor's handler waits for a linked actor to shut down while its own bounded mailbox is full", || {
            prog(
                || async {
                    let how = DIES[choose(4)];
                    let a = spawn_t(cont("A"), Mb::B(1));
                    let b = spawn_t(cont("B"), Mb::B(1));
                    mcrt::settle();
                    a.link(&b).await;
                    let a2 = a.clone();
                    b.tell(m_do(1, move |_| async move {
                        a2.wait_for_shutdown().await;
                        Ok(1)
                    })).send().await.unwrap();
                    let b2 = b.clone();
                    client("fill", async move {
                        let _ = b2.tell(m(2)).send().await;
                        let _ = b2.tell(m(3)).send().await;
                    });
                    mcrt::quiesce();
                    client("k", async move { die(how, a).await });
                    mcrt::settle();
                    still_serves("B", &b, 5).await;
                },
                |f, l, v| {
                    all_done(f, v);
                    if l.countk("B", "link_died") != 1 || l.ss("B", "served") != vec!["ok1005"] {
                        v.push(format!("B was told {} times, then served {:?}", l.countk("B", "link_died"), l.ss("B", "served")));
                    }
                },
            )
        }),
        scn("P15", "links-cancelled", 1, 2, "a task that links, unlinks or spawns linked is aborted at any point while another one does the like and a third actor of the links dies: nobody is blocked, and links made afterwards hold", || {
            prog(
                || async {
                    let ops = [choose(5), choose(4)];
                    let linked = choose(2) == 1;
                    let a = spawn_t(cont("A"), Mb::B(2));
                    let b = spawn_t(cont("B"), Mb::B(2));
                    let d = spawn_t(cont("D"), Mb::U);
                    name_id(a.id(), "A");
                    name_id(b.id(), "B");
                    name_id(d.id(), "D");
                    a.link(&d).await;
                    d.link(&b).await;
                    if linked {
                        a.link(&b).await;
                    }
                    mcrt::settle();
                    ev("cfg", "case", 0, format!("{ops:?} {linked}"));
                    let op = |k: usize| {
                        let (a, b) = (a.clone(), b.clone());
                        async move {
                            match k {
                                0 => a.link(&b).await,
                                1 => b.link(&a).await,
                                2 => a.unlink(&b).await,
                                3 => b.unlink(&a).await,
                                _ => {
                                    let c = kameo::actor::spawn_link_with_mailbox(&a, cont("C"), Mb::B(2).make()).await;
                                    kill(&c);
                                    c.wait_for_shutdown().await;
                                }
                            }
                        }
                    };
                    let h = tokio::spawn(op(ops[0]));
                    let c2 = client("o", op(ops[1]));
                    client("x", async move { h.abort() });
                    client("k", async move { kill(&d) });
                    let _ = c2.await;
                    mcrt::settle();
                    // an end agreed on by both
                    let keep = ops[1] < 2;
                    if keep {
                        a.link(&b).await;
                    } else {
                        b.unlink(&a).await;
                    }
                    ev("cfg", "keep", keep as i64, "");
                    let first = choose(2) == 0;
                    let (one, other) = if first { (a, b) } else { (b, a) };
                    kill(&one);
                    one.wait_for_shutdown().await;
                    mcrt::settle();
                    ev("cfg", "who", first as i64, "");
                    let r = other.ask(m(9)).send().await;
                    ev("root", "last", 0, res_text(&r));
                    kill(&other);
                },
                |f, l, v| {
                    all_done(f, v);
                    if l.ss("root", "last") != ["ok1009"] {
                        v.push(format!("the actor left is disturbed: {:?}", l.ss("root", "last")));
                        return;
                    }
                    let keep = l.ns("cfg", "keep")[0];
                    let (dead, left) = if l.ns("cfg", "who")[0] == 1 { ("A", "B") } else { ("B", "A") };
                    let told = l.ss(left, "link_died").iter().filter(|r| r.starts_with(dead)).count() as i64;
                    if told != keep {
                        v.push(format!("[{}] {left} was told {told} times of the death of {dead}, linked {keep}", l.ss("cfg", "case").concat()));
                    }
                    for w in ["A", "B"] {
                        let n = l.ss(w, "link_died").iter().filter(|r| r.starts_with('D')).count();
                        if n != 1 {
                            v.push(format!("{w} was told {n} times of the death of D"));
                        }
                    }
                },
            )
        }),
        scn("P15", "hooks-and-links", 1, 2, "an actor links, unlinks, replaces, ends or asks another one within each of its hooks and its handler, while that one is idle or dying", || {
            prog(
                || async {
                    let hook = choose(5);
                    let op = choose(9);
                    let linked = choose(2) == 1;
                    let dying = choose(2) == 1;
                    let mb = b1u();
                    let b = spawn_t(cont("B"), Mb::B(1));
                    name_id(b.id(), "B");
                    let d = spawn_t(cont("D"), Mb::B(1));
                    name_id(d.id(), "D");
                    ev("cfg", "case", 0, format!("{hook} {op} {linked} {dying}"));
                    mcrt::settle();
                    let b2 = b.clone();
                    let f: HookFn = Arc::new(move |s: ActorRef<T>| {
                        let b = b2.clone();
                        Box::pin(async move {
                            // a hook is used once, also where another end follows from what it does
                            static USED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
                            if USED.swap(true, std::sync::atomic::Ordering::SeqCst) {
                                return;
                            }
                            match op {
                                0 => s.link(&b).await,
                                1 => b.link(&s).await,
                                2 => s.unlink(&b).await,
                                3 => b.unlink(&s).await,
                                4 => tokio::task::block_in_place(|| s.blocking_link(&b)),
                                5 => tokio::task::block_in_place(|| s.blocking_unlink(&b)),
                                6 => {
                                    kill(&b);
                                    b.wait_for_shutdown().await;
                                }
                                7 => {
                                    let _ = b.stop_gracefully().await;
                                    b.wait_for_shutdown().await;
                                    // a replacement
                                    let c = kameo::actor::spawn_link_with_mailbox(&s, cont("C"), Mb::B(1).make()).await;
                                    ev("S", "replaced", 0, res_text(&c.ask(m(8)).send().await));
                                    s.unlink(&c).await;
                                }
                                _ => {
                                    let _ = b.ask(m(8)).send().await;
                                }
                            }
                            ev("S", "op-done", 0, "");
                        })
                    });
                    let mut c = Cfg { on_link: LinkPolicy::Continue, on_panic: PanicPolicy::Continue, ..Default::default() };
                    match hook {
                        0 => c.start_hook = Some(f.clone()),
                        2 => c.panic_hook = Some(f.clone()),
                        3 => c.link_hook = Some(f.clone()),
                        4 => c.stop_hook = Some(f.clone()),
                        _ => {}
                    }
                    let p = PreparedActor::new(mb.make());
                    let s = p.actor_ref().clone();
                    name_id(s.id(), "S");
                    s.link(&d).await;
                    if linked {
                        s.link(&b).await;
                    }
                    p.spawn(tc("S", c));
                    if hook != 0 {
                        mcrt::settle();
                    }
                    if dying {
                        let b3 = b.clone();
                        client("k", async move { kill(&b3) });
                    }
                    match hook {
                        1 => s.tell(m_do(1, move |s| async move { f(s).await; Ok(1) })).send().await.unwrap(),
                        2 => s.tell(m_panic(1)).send().await.unwrap(),
                        3 => kill(&d),
                        4 => s.stop_gracefully().await.unwrap(),
                        _ => {}
                    }
                    mcrt::settle();
                    if hook == 4 {
                        s.wait_for_shutdown().await;
                        if b.is_alive() {
                            still_serves("B", &b, 5).await;
                        }
                    } else {
                        still_serves("S", &s, 5).await;
                        kill(&b);
                        mcrt::settle();
                        still_serves("S", &s, 6).await;
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    let case = &l.ss("cfg", "case")[0];
                    let c: Vec<&str> = case.split(' ').collect();
                    let (hook, op, linked, dying): (usize, usize, bool, bool) = (c[0].parse().unwrap(), c[1].parse().unwrap(), c[2] == "true", c[3] == "true");
                    // with the mailbox's one room taken and the hook's actor dying, the hook may not have been reached
                    if l.countk("S", "op-done") != 1 {
                        v.push(format!("what the hook does was done {} times", l.countk("S", "op-done")));
                    }
                    let told = l.ss("S", "link_died").iter().filter(|x| x.starts_with("B ")).count();
                    if hook == 4 {
                        let told_b = l.countk("B", "link_died");
                        let (min, max) = (if linked && !dying && !matches!(op, 2 | 3 | 5 | 6 | 7) { 1 } else { 0 }, if linked || matches!(op, 0 | 1 | 4) { 1 } else { 0 });
                        if told_b < min || told_b > max {
                            v.push(format!("B was told {told_b} times of the end of S"));
                        }
                    } else {
                        if l.countk("S", "served") != 2 {
                            v.push(format!("S served {:?}", l.ss("S", "served")));
                        }
                        let end = match op {
                            0 | 1 | 4 => true,
                            2 | 3 | 5 => false,
                            _ => linked,
                        };
                        let (min, max) = if dying { (linked && end, linked || end) } else { (end, end) };
                        // a death in the middle: linking to a dead actor tells nothing
                        if told < min as usize || told > max as usize {
                            v.push(format!("S was told {told} times of the end of B"));
                        }
                    }
                },
            )
        }),
    ]
}
