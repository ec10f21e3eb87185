//! P53: remote links report a remote death or disconnection exactly once.
use crate::kit::*;
use crate::net::*;
use crate::node::*;
use crate::p50::{send_any, Op};
use kameo::remote::*;
use libp2p::swarm::dial_opts::{DialOpts, PeerCondition};
use libp2p::PeerId;

pub fn all() -> Vec<Scn> {
    vec![
        scn("P53", "rlinks-ops", 0, 0, "all sequences of 4 of: link, unlink, death, loss of one or all connections, reconnection, being busy; two peers, one with two connections; against a reference", || ops(4)),
        scn("P53", "rlinks-ops-deep", SKIP, 0, "all such sequences of 5", || ops(5)),
        scn("P53", "rlinks-reasons", 1, 3, "every way to end x every way to be linked x what the hook does; the identity and reason told, and who stops with it", reasons),
        scn("P53", "rlinks-races", 1, 3, "two of unlink, relink, deaths, loss of one or all connections at once, with arbitrary network delays; then the connection is lost", races),
        scn("P53", "rlinks-relink", 2, 4, "the hook called for a lost peer dials it again and links again; then the remote actor dies, the peer is lost again, or they are unlinked", relink),
        scn("P53", "rlinks-failed", 1, 3, "link or unlink requests that fail in the network in every way, or are refused; then death or disconnection", failed),
    ]
}

fn d() -> PeerId {
    peer(0xd4)
}
fn cont() -> NC {
    NC { on_link: LinkPolicy::Continue, ..NC::default() }
}
fn unit(r: Result<(), RemoteSendError<kameo::error::Infallible>>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => rerr_text(&e),
    }
}
async fn close_one(node: &NodeRef, p: PeerId) {
    let c = {
        let mut conns = node.conns.lock().unwrap();
        let i = conns.iter().position(|c| c.0 == p);
        i.map(|i| conns.remove(i).1)
    };
    if let Some(c) = c {
        node.on_node(move |_, s| s.close_connection(c)).await;
    }
}
async fn redial(p: PeerId) -> bool {
    ActorSwarm::get().unwrap().dial(DialOpts::peer_id(p).addresses(vec![addr(p)]).condition(PeerCondition::Always).build()).await.is_ok()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    LinkB,
    UnlinkB,
    LinkC,
    UnlinkC,
    KillB,
    KillC,
    CloseOneR,
    CloseR,
    CloseD,
    DialR,
    Busy,
    KillA,
}
use E::*;
const ES: [E; 12] = [LinkB, UnlinkB, LinkC, UnlinkC, KillB, KillC, CloseOneR, CloseR, CloseD, DialR, Busy, KillA];

/// The reference.
#[derive(Default)]
struct Model {
    lb: bool,
    lc: bool,
    r: usize,
    d: usize,
    a: bool,
    b: bool,
    c: bool,
    busy: bool,
    queued: Vec<String>,
    told_a: Vec<String>,
    told_b: Vec<String>,
    told_c: Vec<String>,
}
impl Model {
    fn tell_a(&mut self, s: String) {
        if !self.a {
        } else if self.busy {
            self.queued.push(s)
        } else {
            self.told_a.push(s)
        }
    }
    fn reach(&self, conns: usize, alive: bool) -> &'static str {
        match (conns > 0, alive) {
            (false, _) => "DialFailure",
            (_, false) => "NotRunning",
            _ => "ok",
        }
    }
    fn lost(&mut self, which: u8) {
        if which == 0 && self.lb {
            self.lb = false;
            self.tell_a("b@R PeerDisconnected".into());
            if self.b {
                self.told_b.push("a@R PeerDisconnected".into())
            }
        }
        if which == 1 && self.lc {
            self.lc = false;
            self.tell_a("c@D PeerDisconnected".into());
            if self.c {
                self.told_c.push("a@D PeerDisconnected".into())
            }
        }
    }
}

fn ops(depth: usize) -> Program {
    prog(
        move || async move {
            let seq: Vec<E> = (0..depth).map(|_| ES[choose(ES.len())]).collect();
            mcrt::calm(true);
            let node = node(NetCfg { peers: vec![r(), r(), d()], ..still() });
            let a = n("a", cont(), Mb::U);
            let b = n("b", cont(), Mb::U);
            let c = o("c", cont(), Mb::U);
            let fb = far_at(&node, &b, "b", r()).await;
            let fc = far_at(&node, &c, "c", d()).await;
            let mut m = Model { r: 2, d: 1, a: true, b: true, c: true, ..Model::default() };
            let s = format!("{} {}", unit(a.link_remote(&fb).await), unit(a.link_remote(&fc).await));
            if s != "ok ok" {
                return fail(format!("linking gives {s}"));
            }
            (m.lb, m.lc) = (true, true);
            for (i, e) in seq.iter().enumerate() {
                let mut got = "ok".to_string();
                let mut want = "ok";
                match e {
                    LinkB | LinkC | UnlinkB | UnlinkC if !m.a => {}
                    LinkB => {
                        want = m.reach(m.r, m.b);
                        m.lb |= want == "ok";
                        got = unit(a.link_remote(&fb).await);
                    }
                    LinkC => {
                        want = m.reach(m.d, m.c);
                        m.lc |= want == "ok";
                        got = unit(a.link_remote(&fc).await);
                    }
                    UnlinkB => {
                        want = m.reach(m.r, m.b);
                        m.lb = false;
                        got = unit(a.unlink_remote(&fb).await);
                    }
                    UnlinkC => {
                        want = m.reach(m.d, m.c);
                        m.lc = false;
                        got = unit(a.unlink_remote(&fc).await);
                    }
                    KillB => {
                        kill(&b);
                        b.wait_for_stop().await;
                        if m.lb {
                            m.tell_a("b@R Killed".into());
                        }
                        (m.b, m.lb) = (false, false);
                    }
                    KillC => {
                        kill(&c);
                        c.wait_for_stop().await;
                        if m.lc {
                            m.tell_a("c@D Killed".into());
                        }
                        (m.c, m.lc) = (false, false);
                    }
                    CloseOneR => {
                        close_one(&node, r()).await;
                        m.r = m.r.saturating_sub(1);
                        if m.r == 0 {
                            m.lost(0);
                        }
                    }
                    CloseR => {
                        node.send(Net::Close(r()));
                        m.r = 0;
                        m.lost(0);
                    }
                    CloseD => {
                        node.send(Net::Close(d()));
                        m.d = 0;
                        m.lost(1);
                    }
                    DialR => {
                        got = if redial(r()).await { "ok".into() } else { "cannot dial".into() };
                        m.r += 1;
                    }
                    Busy => {
                        if m.busy {
                            open_gate(1);
                            m.busy = false;
                            for s in std::mem::take(&mut m.queued) {
                                m.tell_a(s);
                            }
                        } else if m.a {
                            let _ = a.tell(q(1, crate::node::K::Wait)).await;
                            m.busy = true;
                        }
                    }
                    KillA => {
                        kill(&a);
                        a.wait_for_stop().await;
                        if m.lb {
                            m.told_b.push("a@R Killed".into());
                        }
                        if m.lc {
                            m.told_c.push("a@D Killed".into());
                        }
                        (m.a, m.lb, m.lc, m.busy) = (false, false, false, false);
                        m.queued.clear();
                    }
                }
                mcrt::quiesce();
                if got != want {
                    return fail(format!("{seq:?}: step {i} gives {got}, expected {want}"));
                }
                for (who, want) in [("a", &m.told_a), ("b", &m.told_b), ("c", &m.told_c)] {
                    let (mut got, mut want) = (log().ss(who, "link_died"), want.clone());
                    got.sort();
                    want.sort();
                    if got != want {
                        return fail(format!("{seq:?}: after step {i}, {who} has been told {got:?}, expected {want:?}"));
                    }
                }
                let s = send_any(&fb, Op::Ask, Plain(1)).await;
                let s = if s == "ok 3" { "ok" } else { &s };
                if s != m.reach(m.r, m.b) {
                    return fail(format!("{seq:?}: after step {i} an ask of b gives {s}, expected {}", m.reach(m.r, m.b)));
                }
            }
            ev("h", "done", 0, "");
        },
        |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            if l.countk("h", "done") != 1 {
                v.push("the sequence is not finished".into());
            }
        },
    )
}

fn reasons() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let end = choose(5);
            let way = choose(5);
            let policy = [LinkPolicy::Continue, LinkPolicy::Default][choose(2)];
            let from_b = choose(2) == 1;
            *res2.lock().unwrap() = Some((end, way, policy, from_b));
            mcrt::calm(true);
            let node = node(NetCfg { delays: true, ..Default::default() });
            let c = NC { on_link: policy, ..NC::default() };
            let a = n("a", c, Mb::U);
            let b = o("b", c, Mb::U);
            // linked to each, locally
            let a2 = n("a2", NC::default(), Mb::U);
            let b2 = n("b2", NC::default(), Mb::U);
            a.link(&a2).await;
            b.link(&b2).await;
            let (fa, fb) = (far_at(&node, &a, "a", r()).await, far_at(&node, &b, "b", r()).await);
            let (na, nb) = (RemoteActorRef::<N>::lookup("a").await.unwrap().unwrap(), RemoteActorRef::<O>::lookup("b").await.unwrap().unwrap());
            let s = match way {
                0 => unit(a.link_remote(&fb).await),
                1 => unit(b.link_remote(&fa).await),
                2 => unit(fa.link_remote(&fb).await),
                3 => unit(a.link_remote(&nb).await),
                _ => unit(na.link_remote(&nb).await),
            };
            if s != "ok" {
                return fail(format!("linking as {way} gives {s}"));
            }
            mcrt::quiesce();
            mcrt::calm(false);
            // one ends
            async fn finish<A: Actor + Message<Q>>(x: &ActorRef<A>, end: usize, third: &ActorRef<N>) {
                match end {
                    0 => kill(x),
                    1 => {
                        let _ = x.stop_gracefully().await;
                    }
                    2 => {
                        let _ = x.tell(q(1, crate::node::K::Panic)).await;
                    }
                    3 => {
                        let _ = x.tell(q(1, crate::node::K::Err)).await;
                    }
                    _ => kill(third),
                }
            }
            if from_b {
                finish(&b, end, &b2).await;
            } else {
                finish(&a, end, &a2).await;
            }
            mcrt::settle();
            mcrt::calm(true);
            if !from_b && !b.is_alive() || from_b && !a.is_alive() {
                ev("h", "both", 0, "");
            }
            // nothing is told again
            node.send(Net::Close(r()));
            mcrt::settle();
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((end, way, policy, from_b)) = *res.lock().unwrap() else { return };
            let what = format!("end {end} way {way} {policy:?} from b {from_b}");
            let (dead, other, third) = if from_b { ("b", "a", "b2") } else { ("a", "b", "a2") };
            // the peer the dead one is known at
            let at = if way < 3 {
                if way == 2 {
                    "L"
                } else {
                    "R"
                }
            } else {
                "L"
            };
            let ended = match end {
                0 => "Killed".to_string(),
                1 => "Normal".into(),
                // (to another node the error is sent as its text)
                3 if at == "R" => "Panicked:panicked: RErr { opt: None, v: 1, f: Fussy(0) }".to_string(),
                2 | 3 => l.ss(dead, "stop").join("|"),
                _ => format!("LinkDied:{third}@{at}:Killed"),
            };
            let cont = policy == LinkPolicy::Continue;
            // with the hook that goes on, the death of the third changes nothing
            let told: Vec<String> = if end == 4 && cont { vec![] } else { vec![format!("{dead}@{at} {ended}")] };
            // (when all is over, the one it is linked to locally ends too)
            let over = format!("{other}2@L Normal");
            let got: Vec<String> = l.ss(other, "link_died").into_iter().filter(|s| *s != over).collect();
            let mut want = told.clone();
            if end == 4 && cont && way < 3 && way != 2 {
                want = vec![format!("{dead}@R PeerDisconnected")];
            }
            if got != want {
                v.push(format!("{what}: {other} is told {got:?}, expected {want:?}"));
            }
            if matches!(end, 2 | 3) && !ended.starts_with("Panicked") {
                v.push(format!("{what}: {dead} ends with {ended}"));
            }
            let both = !told.is_empty() && !cont && ended != "Normal";
            if (l.countk("h", "both") == 1) != both {
                v.push(format!("{what}: the other stops too: {}, expected {both}", !both));
            }
            if both {
                let want = format!("LinkDied:{dead}@{at}:{ended}");
                let got = l.ss(other, "stop").join("|");
                if got != want {
                    v.push(format!("{what}: {other} stops with {got}, expected {want}"));
                }
            }
        },
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum R {
    Unlink,
    Relink,
    KillB,
    StopB,
    Lost,
    LostOne,
    KillA,
    /// the peer's actor unlinks
    FarUnlink,
}
const RS: [R; 8] = [R::Unlink, R::Relink, R::KillB, R::StopB, R::Lost, R::LostOne, R::KillA, R::FarUnlink];

async fn act(e: R, who: &'static str, w: Arc<(NodeRef, ActorRef<N>, ActorRef<O>, RemoteActorRef<N>, RemoteActorRef<O>)>) {
    let (node, a, b, fa, fb) = &*w;
    ev_hb(who, "starts", 0, "");
    let s = match e {
        R::Unlink => unit(a.unlink_remote(fb).await),
        R::FarUnlink => unit(b.unlink_remote(fa).await),
        R::Relink => unit(a.link_remote(fb).await),
        R::KillB => {
            kill(b);
            b.wait_for_stop().await;
            "ok".into()
        }
        R::StopB => {
            let _ = b.stop_gracefully().await;
            b.wait_for_stop().await;
            "ok".into()
        }
        R::KillA => {
            kill(a);
            a.wait_for_stop().await;
            "ok".into()
        }
        R::Lost => {
            node.send(Net::Close(r()));
            "ok".into()
        }
        R::LostOne => {
            close_one(node, r()).await;
            "ok".into()
        }
    };
    ev_hb(who, "done", 0, s);
}

fn races() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let x = choose(RS.len());
            let y = x + choose(RS.len() - x);
            let (x, y) = (RS[x], RS[y]);
            *res2.lock().unwrap() = Some((x, y));
            mcrt::calm(true);
            let node = node(NetCfg { peers: vec![r(), r()], delays: true, ..Default::default() });
            let a = n("a", cont(), Mb::U);
            let b = o("b", cont(), Mb::U);
            let (fa, fb) = (far_at(&node, &a, "a", r()).await, far_at(&node, &b, "b", r()).await);
            a.link_remote(&fb).await.unwrap();
            mcrt::quiesce();
            mcrt::calm(false);
            let w = Arc::new((node, a, b, fa, fb));
            let (h1, h2) = (client("c0", act(x, "c0", w.clone())), client("c1", act(y, "c1", w.clone())));
            mcrt::settle();
            mcrt::calm(true);
            let _ = (h1.await, h2.await);
            ev("h", "settled", 0, "");
            w.0.send(Net::Close(r()));
            mcrt::settle();
            ev("h", "done", 0, "");
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((x, y)) = *res.lock().unwrap() else { return };
            let Some(mid) = l.first("h", "settled") else {
                v.push(format!("{x:?} {y:?}: not finished"));
                return;
            };
            let told = |who: &str, late: bool| -> Vec<String> { l.0.iter().enumerate().filter(|(i, e)| e.who == who && e.what == "link_died" && (*i > mid) == late).map(|(_, e)| e.s.clone()).collect() };
            let (ta, tb) = (told("a", false), told("b", false));
            let (la, lb) = (told("a", true), told("b", true));
            let what = format!("{x:?} {y:?}");
            let has = |e: R| x == e || y == e;
            let twice = x == y;
            let unlinks = has(R::Unlink) || has(R::FarUnlink);
            let b_dies = has(R::KillB) || has(R::StopB);
            let lost = has(R::Lost) || x == R::LostOne && twice;
            let a_dies = has(R::KillA);
            let all = ta.len() + la.len();
            // a relink may come after a loss, and b may be dying when it comes: both are links of their own
            let links = 1 + has(R::Relink) as usize;
            if all > links || tb.len() + lb.len() > links {
                v.push(format!("{what}: told {ta:?} then {la:?}; b {tb:?} then {lb:?}"));
            }
            if !unlinks && !a_dies {
                if (b_dies || lost) && ta.is_empty() {
                    v.push(format!("{what}: a is not told"));
                }
                if !b_dies && !lost && (!ta.is_empty() || la.len() != 1) {
                    v.push(format!("{what}: a is told {ta:?} then {la:?}"));
                }
                if b_dies && !lost && ta != [if has(R::KillB) && !has(R::StopB) { "b@R Killed" } else if !has(R::KillB) { "b@R Normal" } else { ta[0].as_str() }] {
                    v.push(format!("{what}: a is told {ta:?}"));
                }
                if lost && !b_dies && ta != ["b@R PeerDisconnected"] {
                    v.push(format!("{what}: a is told {ta:?}"));
                }
                if (b_dies || lost) && !has(R::Relink) && !la.is_empty() {
                    v.push(format!("{what}: a is told {ta:?} and again {la:?}"));
                }
            }
            // unlinked before the other event began
            let before = |e1: R, e2: R| {
                let (c1, c2) = if x == e1 { ("c0", "c1") } else { ("c1", "c0") };
                has(e1) && has(e2) && !twice && l.get(c1, "done").map(|e| e.s == "ok").unwrap_or(false) && l.first(c1, "done").zip(l.first(c2, "starts")).map(|(d, s)| d < s).unwrap_or(false)
            };
            for u in [R::Unlink, R::FarUnlink] {
                for e in [R::KillB, R::StopB, R::Lost] {
                    if before(u, e) && all > 0 {
                        v.push(format!("{what}: unlinked first, and told {ta:?} {la:?}"));
                    }
                }
                if has(u) && !b_dies && !lost && !has(R::Relink) && !a_dies && all > 0 {
                    v.push(format!("{what}: unlinked, and told {ta:?} {la:?}"));
                }
            }
            if a_dies && !unlinks && !b_dies && !lost && !has(R::Relink) && tb != ["a@R Killed"] {
                v.push(format!("{what}: b is told {tb:?}"));
            }
        },
    )
}

fn relink() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let then = choose(5);
            let in_hook = choose(2) == 1;
            *res2.lock().unwrap() = Some((then, in_hook));
            mcrt::calm(true);
            let node = node(NetCfg { peers: vec![r()], delays: true, ..Default::default() });
            let a = n("a", NC { hook: in_hook, ..cont() }, Mb::U);
            let b = o("b", cont(), Mb::U);
            let fb = far_at(&node, &b, "b", r()).await;
            a.link_remote(&fb).await.unwrap();
            let again = {
                let (a, fb) = (a.clone(), fb.clone());
                move || {
                    let (a, fb) = (a.clone(), fb.clone());
                    async move {
                        let d = redial(r()).await;
                        let s = unit(a.link_remote(&fb).await);
                        ev_hb("a", "again", d as i64, s);
                    }
                }
            };
            let once = std::sync::atomic::AtomicBool::new(false);
            let again2 = again.clone();
            *LINK_HOOK.lock().unwrap() = Some(Box::new(move |_| {
                let f = again2();
                let go = !once.swap(true, std::sync::atomic::Ordering::SeqCst);
                Box::pin(async move {
                    if go {
                        f.await
                    }
                })
            }));
            mcrt::quiesce();
            mcrt::calm(false);
            if !in_hook {
                // the loss is noticed, its hook runs when it runs
                let _ = a.tell(q(1, crate::node::K::Wait)).await;
                mcrt::settle();
                node.send(Net::Close(r()));
                mcrt::settle();
                again().await;
                open_gate(1);
            } else {
                node.send(Net::Close(r()));
            }
            mcrt::settle();
            ev("h", "again", 0, "");
            match then {
                0 => {
                    kill(&b);
                    b.wait_for_stop().await;
                }
                1 => node.send(Net::Close(r())),
                2 => {
                    ev("a", "unlink", 0, unit(a.unlink_remote(&fb).await));
                    kill(&b);
                    b.wait_for_stop().await;
                }
                3 => {
                    kill(&a);
                    a.wait_for_stop().await;
                }
                _ => {
                    ev("a", "unlink", 0, unit(a.unlink_remote(&fb).await));
                    node.send(Net::Close(r()));
                }
            }
            mcrt::settle();
            ev("h", "done", 0, "");
            LINK_HOOK.lock().unwrap().take();
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((then, in_hook)) = *res.lock().unwrap() else { return };
            let what = format!("then {then} in hook {in_hook}");
            if l.ss("a", "again") != ["ok"] || l.countk("h", "done") != 1 {
                v.push(format!("{what}: linking again gives {:?}", l.ss("a", "again")));
                return;
            }
            let (a, b): (&[&str], &[&str]) = match then {
                0 => (&["b@R PeerDisconnected", "b@R Killed"], &["a@R PeerDisconnected"]),
                1 => (&["b@R PeerDisconnected", "b@R PeerDisconnected"], &["a@R PeerDisconnected", "a@R PeerDisconnected"]),
                2 | 4 => (&["b@R PeerDisconnected"], &["a@R PeerDisconnected"]),
                _ => (&["b@R PeerDisconnected"], &["a@R PeerDisconnected", "a@R Killed"]),
            };
            if l.ss("a", "link_died") != a || l.ss("b", "link_died") != b {
                v.push(format!("{what}: a is told {:?}, expected {a:?}; b {:?}, expected {b:?}", l.ss("a", "link_died"), l.ss("b", "link_died")));
            }
        },
    )
}

static FAIL_AS: Mutex<(&str, Fate)> = Mutex::new(("", Fate::Deliver));
fn failed() -> Program {
    let res = Arc::new(Mutex::new(None));
    let res2 = res.clone();
    prog(
        move || async move {
            let lose = choose(2 * FAILURES as usize + 2);
            let op = choose(3);
            let then = choose(3);
            *res2.lock().unwrap() = Some((lose, op, then));
            mcrt::calm(true);
            let node = node(NetCfg {
                peers: vec![r()],
                fate: |k, _| {
                    let f = *FAIL_AS.lock().unwrap();
                    if k == f.0 {
                        f.1
                    } else {
                        Fate::Deliver
                    }
                },
                ..Default::default()
            });
            let a = n("a", cont(), Mb::U);
            let b = o("b", cont(), Mb::U);
            let fb = far_at(&node, &b, "b", r()).await;
            let nf = FAILURES as usize;
            let fate = match lose {
                x if x < nf => Fate::Lose(x as u8),
                x if x < 2 * nf => Fate::LoseAnswer((x - nf) as u8),
                _ => Fate::Deliver,
            };
            if op > 0 {
                a.link_remote(&fb).await.unwrap();
            }
            mcrt::quiesce();
            *FAIL_AS.lock().unwrap() = (["link", "unlink", "link"][op], fate);
            if lose >= 2 * nf {
                // refused by the peer
                let e = if lose == 2 * nf { RemoteSendError::ActorNotRunning } else { RemoteSendError::UnknownActor { actor_remote_id: "nb".into() } };
                node.answer_with(if op == 1 { SwarmResponse::Unlink(Err(e)) } else { SwarmResponse::Link(Err(e)) });
            }
            let s = if op == 1 { unit(a.unlink_remote(&fb).await) } else { unit(a.link_remote(&fb).await) };
            ev("a", "got", 0, s);
            mcrt::quiesce();
            mcrt::calm(false);
            match then {
                0 => {
                    kill(&b);
                    b.wait_for_stop().await;
                }
                1 => node.send(Net::Close(r())),
                _ => {
                    kill(&b);
                    b.wait_for_stop().await;
                    mcrt::settle();
                    node.send(Net::Close(r()));
                }
            }
            mcrt::settle();
            ev("h", "done", 0, "");
        },
        move |f, l, v| {
            sane(f, v);
            no_panics(f, v);
            let Some((lose, op, then)) = *res.lock().unwrap() else { return };
            let what = format!("lose {lose} op {op} then {then}");
            let got = l.ss("a", "got").join("|");
            if got == "ok" || got.is_empty() || l.countk("h", "done") != 1 {
                v.push(format!("{what}: the request gives '{got}'"));
            }
            let told = l.ss("a", "link_died");
            // a link that could not be made, or was dissolved, is none; one that is only made again stays
            let want: Vec<String> = match op {
                0 | 1 => vec![],
                _ if then == 1 => vec!["b@R PeerDisconnected".into()],
                _ => vec!["b@R Killed".into()],
            };
            if told != want {
                v.push(format!("{what}: got {got}, told {told:?}, expected {want:?}"));
            }
        },
    )
}
