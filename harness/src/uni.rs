//! A generic lifecycle program (one actor, two clients running short scripts, optional watchers) and an oracle
//! that states every single-actor guarantee over its history. Properties use it with their own script sets and
//! select the part of the oracle that belongs to them.
use crate::kit::*;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Ok,
    /// suspends once
    Yield,
    Err,
    Panic,
    /// suspends, then panics
    LatePanic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Tell(K),
    Ask(K),
    TryTell(K),
    TryAsk(K),
    Stop,
    Kill,
    /// drops this client's reference
    Drop,
    Yield,
    /// waits until nothing else can happen
    Quiesce,
}
pub use Op::*;

#[derive(Clone)]
pub struct Spec {
    pub mbs: &'static [Mb],
    pub starts: &'static [(Outcome, u8)],
    pub stops: &'static [(Outcome, u8)],
    pub pols: &'static [PanicPolicy],
    pub c0: &'static [&'static [Op]],
    pub c1: &'static [&'static [Op]],
    /// a watcher that waits for start-up and shutdown (every c0 script then has to end the actor)
    pub watch: bool,
}
impl Default for Spec {
    fn default() -> Self {
        Spec {
            mbs: &[Mb::B(1), Mb::U],
            starts: &[(Outcome::Ok, 0)],
            stops: &[(Outcome::Ok, 0)],
            pols: &[PanicPolicy::Default],
            c0: &[],
            c1: &[&[]],
            watch: false,
        }
    }
}

#[derive(Clone)]
struct Cur {
    start: Outcome,
    stop: Outcome,
    pol: PanicPolicy,
    mb: Mb,
    scripts: [&'static [Op]; 2],
    watch: bool,
}

fn pick<X: Clone>(xs: &'static [X]) -> X {
    xs[choose(xs.len())].clone()
}

fn message(id: u32, k: K) -> M {
    match k {
        K::Ok => m(id),
        K::Yield => m_do(id, move |_| async move {
            ev("A", "susp", id as i64, "");
            yield_now().await;
            ev("A", "resumed", id as i64, "");
            Ok(id + 1000)
        }),
        K::Err => m_err(id),
        K::Panic => m_panic(id),
        K::LatePanic => m_do(id, move |_| async move {
            ev("A", "susp", id as i64, "");
            yield_now().await;
            ev("A", "resumed", id as i64, "");
            panic!("handler {id} panics")
        }),
    }
}

static HOOKED: Mutex<Vec<String>> = Mutex::new(Vec::new());
fn error_hook(e: &PanicError) {
    let t = perr_text(e);
    ev("hook", "error", 0, t.clone());
    HOOKED.lock().unwrap().push(t);
}

pub fn out_text(o: Outcome, what: &str) -> String {
    match o {
        Outcome::Ok => "ok".into(),
        Outcome::Err(n) => format!("TErr{n}"),
        Outcome::Panic => format!("str:{what} panics"),
        Outcome::PanicAny => "other".into(),
    }
}

async fn run_client(c: u32, a: ActorRef<T>, script: &'static [Op]) {
    let me = ["c0", "c1"][c as usize];
    let mut a = Some(a);
    for (i, op) in script.iter().enumerate() {
        let id = 10 * (c + 1) + i as u32;
        let n = id as i64;
        match *op {
            Drop => {
                ev_hb(me, "bye", 0, "");
                a = None;
                continue;
            }
            Yield => {
                yield_now().await;
                continue;
            }
            Quiesce => {
                mcrt::quiesce();
                continue;
            }
            _ => {}
        }
        let a = a.as_ref().expect("script uses a dropped reference");
        let what = match op {
            Tell(_) | TryTell(_) => "tell",
            Ask(_) | TryAsk(_) => "ask",
            Stop => "stopreq",
            _ => "killreq",
        };
        ev_hb(me, what, n, "");
        let r = match *op {
            Tell(k) => tell_text(&a.tell(message(id, k)).send().await),
            TryTell(k) => tell_text(&a.tell(message(id, k)).try_send()),
            Ask(k) => res_text(&a.ask(message(id, k)).send().await),
            TryAsk(k) => res_text(&a.ask(message(id, k)).try_send().await),
            Stop => tell_text(&a.stop_gracefully().await),
            Kill => {
                kill(a);
                "ok".into()
            }
            _ => unreachable!(),
        };
        ev_hb(me, "ret", n, r);
    }
    if a.is_some() {
        ev_hb(me, "bye", 0, "");
    }
}

pub fn universe(prop: &'static str, name: &'static str, quick: u32, thorough: u32, about: &'static str, spec: Spec) -> Scn {
    scn(prop, name, quick, thorough, about, move || {
        let spec = spec.clone();
        let cur: Arc<OnceLock<Cur>> = Arc::default();
        let cur2 = cur.clone();
        prog(
            move || async move {
                let (start, start_yields) = pick(spec.starts);
                let (stop, stop_yields) = pick(spec.stops);
                let c = Cur { mb: pick(spec.mbs), start, stop, pol: pick(spec.pols), scripts: [pick(spec.c0), pick(spec.c1)], watch: spec.watch };
                let _ = cur.set(c.clone());
                kameo::error::set_actor_error_hook(error_hook);
                let (a, j) = spawn_tj(tc("A", Cfg { start, start_yields, stop, stop_yields, on_panic: c.pol, ..Default::default() }), c.mb);
                client("joiner", async move {
                    match j.await {
                        Ok((t, r)) => {
                            ev("A", "joined", 0, reason_text(&r));
                            ev("A", "state", 0, format!("{:?}", t.seen));
                        }
                        Err(_) => ev("A", "joined", 0, "join error"),
                    }
                });
                if c.watch {
                    let a = a.clone();
                    client("w", async move {
                        a.wait_for_startup().await;
                        ev_hb("w", "saw_start", 0, "");
                        if !matches!(c.start, Outcome::Panic | Outcome::PanicAny) {
                            let r = a.wait_for_startup_result().await;
                            ev("w", "start_result", 0, match r {
                                Ok(()) => "ok".into(),
                                Err(TErr(n)) => format!("TErr{n}"),
                            });
                        }
                        a.wait_for_shutdown().await;
                        ev_hb("w", "saw_stop", 0, "");
                        if !matches!(c.stop, Outcome::Panic | Outcome::PanicAny) {
                            let r = a.wait_for_shutdown_result().await;
                            ev("w", "stop_result", 0, match r {
                                Ok(()) => "ok".into(),
                                Err(TErr(n)) => format!("TErr{n}"),
                            });
                        }
                        if a.is_alive() {
                            ev("w", "alive_after_stop", 0, "");
                        }
                        let r = a.tell(m(99)).try_send();
                        ev("w", "late_tell", 0, tell_text(&r));
                        let r = a.ask(m(98)).send().await;
                        ev("w", "late_ask", 0, res_text(&r));
                    });
                }
                for (i, s) in c.scripts.into_iter().enumerate() {
                    if !s.is_empty() {
                        client(["c0", "c1"][i], run_client(i as u32, a.clone(), s));
                    }
                }
            },
            move |f, l, v| {
                sane(f, v);
                let Some(c) = cur2.get() else { return };
                if f.end == mcrt::EndKind::Horizon {
                    return;
                }
                for t in f.stuck.iter().filter(|t| !f.must_stuck.contains(t)) {
                    v.push(format!("hang: {t} never finished"));
                }
                no_panics(f, v);
                for (p, msg) in judge(l, c) {
                    if prop == p {
                        v.push(msg);
                    }
                }
            },
        )
    })
}

fn judge(l: &Log, c: &Cur) -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![];
    let e = &l.0;
    let seq = |k: &str| l.ns("A", k);
    let begins = seq("begin");
    let ends = seq("end");
    let started = l.first("A", "started");
    let stop_pos = l.first("A", "stop");
    let stopped = l.first("A", "stopped");
    let stop_reason = l.get("A", "stop").map(|e| e.s.clone());
    // ---- requests
    #[derive(Debug)]
    struct Req {
        c: usize,
        n: i64,
        what: &'static str,
        k: Option<K>,
        call: usize,
        ret: Option<usize>,
        r: String,
    }
    let mut reqs: Vec<Req> = vec![];
    for ci in 0..2 {
        let who = ["c0", "c1"][ci];
        for (i, op) in c.scripts[ci].iter().enumerate() {
            let n = 10 * (ci as i64 + 1) + i as i64;
            let k = match op {
                Tell(k) | TryTell(k) | Ask(k) | TryAsk(k) => Some(*k),
                Stop | Kill => None,
                _ => continue,
            };
            let Some(call) = e.iter().position(|x| x.who == who && x.n == n && x.what != "ret") else { continue };
            let ret = l.pos(who, "ret", n);
            reqs.push(Req { c: ci, n, what: e[call].what, k, call, ret, r: ret.map(|p| e[p].s.clone()).unwrap_or_default() });
        }
    }
    let first_stop = reqs.iter().filter(|r| r.what == "stopreq").map(|r| r.call).min();
    let first_stop_done = reqs.iter().filter(|r| r.what == "stopreq" && r.r == "ok").filter_map(|r| r.ret).min();
    let first_kill = reqs.iter().filter(|r| r.what == "killreq").map(|r| r.call).min();
    let first_kill_done = reqs.iter().filter(|r| r.what == "killreq").filter_map(|r| r.ret).min();
    let start_failed = c.start != Outcome::Ok;
    // the failures that occurred, in order
    let failures: Vec<(usize, i64, String)> = e
        .iter()
        .enumerate()
        .filter_map(|(p, x)| {
            if x.who != "A" {
                return None;
            }
            let r = reqs.iter().find(|r| r.n == x.n && r.k.is_some());
            match (x.what, r) {
                ("panicked", Some(r)) => Some((p, r.n, format!("str:handler {} panics", r.n))),
                ("end", Some(r)) if r.k == Some(K::Err) && r.what == "tell" => Some((p, r.n, format!("TErr{}", r.n))),
                _ => None,
            }
        })
        .collect();
    let breaking = !matches!(c.pol, PanicPolicy::Continue);
    let fatal = if breaking { failures.first().map(|f| f.0) } else { None };

    // ---- P01
    for ci in 0..2 {
        let mine: Vec<i64> = begins.iter().copied().filter(|x| x / 10 == ci as i64 + 1).collect();
        let mut s = mine.clone();
        s.sort();
        if s != mine {
            v.push(("P01", format!("order: messages of one client were handled as {mine:?}")));
        }
    }
    for a in &reqs {
        for b in &reqs {
            if a.k.is_some() && b.k.is_some() && a.what == "tell" && a.r == "ok" && a.ret.is_some_and(|r| r < b.call) {
                let (pa, pb) = (l.pos("A", "begin", a.n), l.pos("A", "begin", b.n));
                if let Some(pb) = pb {
                    if pa.map_or(true, |pa| pa > pb) {
                        v.push(("P01", format!("order: {} was accepted before {} was sent, but not handled before it", a.n, b.n)));
                    }
                }
            }
        }
    }
    // ---- P02
    for r in reqs.iter().filter(|r| r.k.is_some()) {
        let nb = begins.iter().filter(|x| **x == r.n).count();
        if nb > 1 {
            v.push(("P02", format!("message {} was handled {nb} times", r.n)));
        }
        let handed_back = matches!(r.r.as_str(), "NotRunning" | "Full" | "Timeout+msg");
        if handed_back && nb > 0 {
            v.push(("P02", format!("message {} was handled although its send returned an error", r.n)));
        }
        // accepted: must be handled unless something ended the actor first
        if r.what == "tell" && r.r == "ok" && nb == 0 && first_kill.is_none() && !start_failed && fatal.is_none() && first_stop.is_none() {
            v.push(("P02", format!("message {} was accepted but never handled", r.n)));
        }
        if r.what == "tell" && r.r == "ok" && nb == 0 && first_kill.is_none() && !start_failed && fatal.is_none() && first_stop.is_some_and(|s| r.ret.unwrap() < s) {
            v.push(("P02", format!("message {} was accepted before the stop request but never handled", r.n)));
            v.push(("P08", format!("message {} was accepted before the stop request but never handled", r.n)));
        }
        let dropped = l.count("msg", "dropped", r.n);
        if nb == 0 && r.ret.is_some() && dropped != 1 {
            v.push(("P02", format!("unhandled message {} was destroyed {dropped} times", r.n)));
        }
    }
    // ---- P03
    for r in reqs.iter().filter(|r| r.what == "ask" && r.ret.is_some()) {
        let ended = ends.contains(&r.n);
        let begun = begins.contains(&r.n);
        let want: Vec<String> = match (r.k.unwrap(), ended) {
            (K::Ok | K::Yield, true) => vec![format!("ok{}", r.n + 1000)],
            (K::Err, true) => vec![format!("handler:TErr({})", r.n)],
            (_, true) => vec![],
            (_, false) if begun => vec!["Stopped".into()],
            (_, false) => vec!["Stopped".into(), "NotRunning".into(), "Full".into()],
        };
        if !want.contains(&r.r) {
            v.push(("P03", format!("ask {} returned {} (handler begun: {begun}, finished: {ended})", r.n, r.r)));
        }
        if r.r == "Full" && (c.mb == Mb::U || matches!(c.scripts[r.c][(r.n % 10) as usize], Ask(_))) {
            v.push(("P03", format!("ask {} reported a full mailbox", r.n)));
        }
    }
    // ---- P04
    let dead = e.iter().position(|x| x.what == "joined");
    for r in reqs.iter().filter(|r| r.k.is_some() && r.ret.is_some()) {
        if dead.is_some_and(|d| d < r.call) && r.r != "NotRunning" {
            v.push(("P04", format!("send {} to a dead actor returned {}", r.n, r.r)));
        }
        if r.r == "NotRunning" && stopped.map_or(true, |s| s > r.ret.unwrap()) {
            v.push(("P04", format!("send {} reported 'not running' while the actor was running", r.n)));
        }
    }
    // ---- P06
    if l.countk("A", "start") != 1 {
        v.push(("P06", format!("the start-up hook ran {} times", l.countk("A", "start"))));
    }
    if let Some(b) = l.first("A", "begin") {
        if started.map_or(true, |s| s > b) {
            v.push(("P06", "a message was handled before start-up finished".into()));
        }
    }
    // ---- P07
    if let Some(p) = l.first("w", "saw_start") {
        if started.map_or(true, |s| s > p) {
            v.push(("P07", "waiting for start-up ended before the start-up hook".into()));
        }
    }
    if let Some(r) = l.get("w", "start_result") {
        if r.s != out_text(c.start, "on_start") {
            v.push(("P07", format!("start-up result {} instead of {}", r.s, out_text(c.start, "on_start"))));
        }
    }
    if c.watch && l.countk("w", "saw_start") != 1 {
        v.push(("P07", "waiting for start-up never ended".into()));
    }
    // ---- P08
    if let Some(sd) = first_stop_done {
        for r in reqs.iter().filter(|r| r.k.is_some() && r.call > sd && begins.contains(&r.n)) {
            v.push(("P08", format!("message {} was handled although it was sent after the stop request", r.n)));
        }
        if first_kill.is_none() && fatal.is_none() && !start_failed && stop_reason.as_deref() != Some("Normal") {
            v.push(("P08", format!("a graceful stop ended with reason {stop_reason:?}")));
        }
    }
    // ---- P08 / P09 / P12 / P16: stop hook exactly once
    let nstop = l.countk("A", "stop");
    if nstop != 1 {
        for p in ["P08", "P09", "P10", "P11", "P12", "P16", "P22"] {
            v.push((p, format!("the stop hook ran {nstop} times")));
        }
    }
    // ---- P09
    if let Some(kd) = first_kill_done {
        // a suspension after the kill ends everything
        if let Some(s) = e.iter().enumerate().position(|(p, x)| p > kd && x.who == "A" && x.what == "susp") {
            if e[s..].iter().any(|x| x.who == "A" && matches!(x.what, "resumed" | "begin" | "on_panic")) {
                v.push(("P09", "the actor went on after a suspension although it had been killed".into()));
            }
        }
        // suspended (in a handler) when killed
        if let Some(s) = e[..kd].iter().rposition(|x| x.who == "A") {
            if e[s].what == "susp" && !e[kd..].iter().any(|x| x.what == "resumed") && e[kd..].iter().any(|x| x.who == "A" && x.what == "begin") {
                v.push(("P09", "the actor began a message after it was killed while suspended".into()));
            }
        }
        if stop_pos.is_some_and(|s| s > kd) && first_stop.is_none() && failures.is_empty() && !start_failed {
            let refs_gone = l.countk("c0", "bye") + l.countk("c1", "bye") > 0;
            if stop_reason.as_deref() != Some("Killed") && !(refs_gone && stop_reason.as_deref() == Some("Normal")) {
                v.push(("P09", format!("a killed actor stopped with reason {stop_reason:?}")));
            }
        }
    }
    // ---- P10: without stop, kill or failure the actor lives until the last reference is gone
    if first_stop.is_none() && first_kill.is_none() && fatal.is_none() && !start_failed {
        if let Some(s) = stop_pos {
            for ci in 0..2 {
                if !c.scripts[ci].is_empty() && l.first(["c0", "c1"][ci], "bye").map_or(true, |b| b > s) {
                    v.push(("P10", format!("the actor stopped while client {ci} still held a reference")));
                }
            }
            if stop_reason.as_deref() != Some("Normal") {
                v.push(("P10", format!("an unreferenced actor stopped with reason {stop_reason:?}")));
            }
        }
        for r in reqs.iter().filter(|r| r.what == "tell" && r.r == "ok" && !begins.contains(&r.n)) {
            v.push(("P10", format!("message {} was queued but the actor stopped without handling it", r.n)));
        }
    }
    // ---- P11
    if let Some(p) = l.first("w", "saw_stop") {
        if stopped.map_or(true, |s| s > p) {
            v.push(("P11", "waiting for shutdown ended before the stop hook".into()));
        }
    }
    if let Some(r) = l.get("w", "stop_result") {
        if r.s != out_text(c.stop, "on_stop") {
            v.push(("P11", format!("shutdown result {} instead of {}", r.s, out_text(c.stop, "on_stop"))));
        }
    }
    if l.countk("w", "alive_after_stop") > 0 {
        v.push(("P11", "the actor reports that it is alive after shutdown".into()));
    }
    for k in ["late_tell", "late_ask"] {
        if let Some(r) = l.get("w", k) {
            if r.s != "NotRunning" {
                v.push(("P11", format!("{k} after shutdown returned {}", r.s)));
            }
        }
    }
    if c.watch && l.countk("w", "saw_stop") != 1 {
        v.push(("P11", "waiting for shutdown never ended".into()));
    }
    // ---- P12
    let mut hooks: Vec<String> = l.ss("A", "on_panic");
    if start_failed && !hooks.is_empty() && hooks[0] == out_text(c.start, "on_start") {
        hooks.remove(0); // a failed start-up passes through the failure hook once
    }
    let want: Vec<String> = failures.iter().map(|f| f.2.clone()).collect();
    let cut = first_kill.is_some() && want.len() == hooks.len() + 1 && want[..hooks.len()] == hooks[..];
    if hooks != want && !cut {
        v.push(("P12", format!("failures {want:?} but the failure hook saw {hooks:?}")));
    }
    if let Some(f) = fatal {
        if e[f..].iter().any(|x| x.who == "A" && x.what == "begin") {
            v.push(("P12", "a message was handled after a failure that stops the actor".into()));
        }
        let first = &failures[0].2;
        let want = match c.pol {
            PanicPolicy::Default => format!("Panicked:{first}"),
            PanicPolicy::Break => "Normal".into(),
            PanicPolicy::BreakKilled => "Killed".into(),
            PanicPolicy::Err => "Panicked:TErr900".into(),
            PanicPolicy::Panic => "Panicked:str:on_panic panics".into(),
            PanicPolicy::Continue => unreachable!(),
        };
        if first_kill.is_none() && stop_reason.as_deref() != Some(&want) {
            for p in ["P12", "P16"] {
                v.push((p, format!("after failure {first} with policy {:?} the actor stopped with {stop_reason:?}", c.pol)));
            }
        }
    } else if first_stop.is_none() && first_kill.is_none() && !start_failed {
        for r in reqs.iter().filter(|r| r.what == "tell" && r.r == "ok" && !begins.contains(&r.n)) {
            v.push(("P12", format!("message {} was lost", r.n)));
        }
    }
    // ---- P16
    if let Some(j) = l.get("A", "joined") {
        if Some(&j.s) != stop_reason.as_ref() {
            v.push(("P16", format!("the awaited reason {} differs from the stop hook's {stop_reason:?}", j.s)));
        }
    }
    if let Some(s) = l.get("A", "state") {
        if s.s != format!("{ends:?}") {
            v.push(("P16", format!("the awaited state {} differs from what was handled {ends:?}", s.s)));
        }
    }
    match stop_reason.as_deref() {
        Some("Normal") => {
            let asked = first_stop.is_some_and(|s| s < stop_pos.unwrap()) || (c.pol == PanicPolicy::Break && !(failures.is_empty() && !start_failed));
            let gone = (0..2).all(|ci| c.scripts[ci].is_empty() || l.first(["c0", "c1"][ci], "bye").is_some_and(|b| b < stop_pos.unwrap())) && !c.watch;
            if !asked && !gone {
                v.push(("P16", "the actor stopped normally although nothing asked it to".into()));
            }
        }
        Some("Killed") => {
            if !first_kill.is_some_and(|s| s < stop_pos.unwrap()) && c.pol != PanicPolicy::BreakKilled {
                v.push(("P16", "the stop reason is Killed but nobody killed the actor".into()));
            }
        }
        Some(x) => {
            let mut ok: Vec<String> = failures.iter().map(|f| format!("Panicked:{}", f.2)).collect();
            if start_failed {
                ok.push(format!("Panicked:{}", out_text(c.start, "on_start")));
            }
            if c.pol == PanicPolicy::Err {
                ok.push("Panicked:TErr900".into());
            }
            if c.pol == PanicPolicy::Panic {
                ok.push("Panicked:str:on_panic panics".into());
            }
            if !ok.iter().any(|o| o == x) {
                v.push(("P16", format!("the stop reason {x} is not a failure that occurred ({ok:?})")));
            }
        }
        None => {}
    }
    // ---- P22
    let mut want: Vec<String> = vec![];
    if start_failed {
        want.push(out_text(c.start, "on_start"));
        if !begins.is_empty() {
            v.push(("P22", "a message was handled although start-up failed".into()));
        }
        let w = match c.pol {
            PanicPolicy::Default | PanicPolicy::Continue => format!("Panicked:{}", out_text(c.start, "on_start")),
            PanicPolicy::Break => "Normal".into(),
            PanicPolicy::BreakKilled => "Killed".into(),
            PanicPolicy::Err => "Panicked:TErr900".into(),
            PanicPolicy::Panic => "Panicked:str:on_panic panics".into(),
        };
        if stop_reason.as_deref() != Some(&w) {
            v.push(("P22", format!("a failed start-up ended with reason {stop_reason:?} instead of {w}")));
        }
    }
    if c.stop != Outcome::Ok {
        want.push(out_text(c.stop, "on_stop"));
    }
    let got: Vec<String> = l.ss("hook", "error");
    if got != want {
        v.push(("P22", format!("the error hook saw {got:?} instead of {want:?}")));
    }
    v
}
