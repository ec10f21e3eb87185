//! Quantities: many requests, commands and links at once (see harness/src/scn/large.rs).
use crate::kit::*;
use crate::net::*;
use crate::node::K as Kind;
use crate::node::*;
use crate::p50::{send_q, Op};
use crate::p52::{complete, got, issue, world, Pick};

const SIZES: [usize; 12] = [1, 2, 3, 8, 9, 17, 33, 65, 100, 129, 257, 520];
fn fixed_schedule() {
    mcrt::policy(choose(3));
    mcrt::calm(true);
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

static FATE: Mutex<Fate> = Mutex::new(Fate::Deliver);

fn requests() -> Program {
    prog(
        || async {
            let n = SIZES[choose(SIZES.len())];
            let way = choose(4);
            let mb = [Mb::B(1), Mb::B(64), Mb::U][choose(3)];
            let bulk = if n <= 3 { choose(5) } else { choose(2) };
            fixed_schedule();
            let node = node(NetCfg { fate: |_, _| *FATE.lock().unwrap(), delays: false, ..NetCfg::default() });
            let a = n_("a", mb);
            let f = if way == 3 { near(&a).await } else { far(&node, &a).await };
            let len = [0usize, 300, 5_000, 1 << 16, 1 << 18][bulk];
            let data = Data {
                b: if len > 0 { vec!["é".repeat(len / 4), String::new(), "x".repeat(len / 4)] } else { vec![] },
                d: if len > 0 { [("k".repeat(len / 8), vec![0xffu8; len / 8])].into_iter().collect() } else { Default::default() },
                ..Data::default()
            };
            if way == 1 || way == 2 {
                *FATE.lock().unwrap() = Fate::Hold;
            }
            let mut hs = vec![];
            for i in 0..n as u32 {
                let f = f.clone();
                let data = data.clone();
                hs.push(client(leak(format!("c{i}")), async move {
                    let op = match (i % 4, mb) {
                        (0, _) => Op::Ask,
                        (2, Mb::U) => Op::TryAsk,
                        (2, _) => Op::Ask,
                        (3, Mb::U) => Op::TryTell,
                        _ => Op::Tell,
                    };
                    let k = if i % 8 == 4 { Kind::Err } else { Kind::Ok };
                    let s = send_q(&f, op, Q { data: data.clone(), ..q(i, k) }, None, None).await;
                    let want = match (op, k) {
                        (Op::Tell | Op::TryTell, _) => "ok ()".to_string(),
                        (_, Kind::Err) => format!("handler {:?}", RErr { opt: None, v: i, f: Fussy(0) }),
                        _ => format!("ok {:?}", Rep { v: i + 1000, f: Fussy(0), data }),
                    };
                    if s != want {
                        let cut = |s: &str| s.chars().take(200).collect::<String>();
                        fail(format!("request {i} of {n} at once got '{}', not '{}'", cut(&s), cut(&want)));
                    }
                    ev("c", "back", i as i64, "");
                }));
            }
            mcrt::settle();
            match way {
                1 => node.release(),
                2 => node.release_reversed(),
                _ => {}
            }
            mcrt::settle();
            let l = log();
            for i in 0..n as i64 {
                if l.count("a", "begin", i) != 1 || l.count("c", "back", i) != 1 {
                    fail(format!("request {i} of {n} at once was handled {} times and answered {} times", l.count("a", "begin", i), l.count("c", "back", i)));
                }
            }
            kill(&a);
        },
        |f, _, v| {
            sane(f, v);
            no_panics(f, v);
        },
    )
}
fn n_(name: &'static str, mb: Mb) -> ActorRef<N> {
    n(name, NC::default(), mb)
}

fn commands() -> Program {
    prog(
        || async {
            let n = SIZES[choose(SIZES.len())];
            let order = choose(4);
            let bad = choose(3);
            fixed_schedule();
            let w = world(vec![r()]).await;
            let ks: Vec<Pick> = (0..n).map(crate::p52::nth).collect();
            for (i, k) in ks.iter().enumerate() {
                issue(&w, i, *k);
                mcrt::quiesce();
            }
            let ps = std::mem::take(&mut *w.node.pending.lock().unwrap());
            if ps.len() != n {
                fail(format!("{n} commands at once: {} reached the network; others have {:?}", ps.len(), (0..n).map(got).enumerate().filter(|g| !g.1.is_empty()).collect::<Vec<_>>()));
                return;
            }
            // which caller's is it
            let mut at: Vec<usize> = (0..n).collect();
            match order {
                0 => {}
                1 => at.reverse(),
                2 => at.rotate_left(n / 2),
                _ => at.sort_by_key(|i| (i % 5, *i)),
            }
            let mut want = vec![String::new(); n];
            for p in at {
                let i = p;
                let v = match bad {
                    0 => 0,
                    1 => 1,
                    _ => (i / 7) % 2,
                };
                want[i] = complete(&w.node, &ps[p], ks[i], i, v);
                if i % 16 == 0 {
                    mcrt::quiesce();
                    if got(i) != vec![want[i].clone()] {
                        fail(format!("command {i} of {n} ({:?}) was completed with {} and its caller has {:?}", ks[i], want[i], got(i)));
                    }
                }
            }
            mcrt::quiesce();
            for i in 0..n {
                if got(i) != vec![want[i].clone()] {
                    fail(format!("command {i} of {n} ({:?}) was completed with {} and its caller has {:?}", ks[i], want[i], got(i)));
                }
            }
        },
        |f, _, v| {
            sane(f, v);
            no_panics(f, v);
        },
    )
}

fn links() -> Program {
    prog(
        || async {
            let n = SIZES[choose(SIZES.len() - 1)];
            let how = choose(4);
            let other_side = choose(2) == 1;
            fixed_schedule();
            let node = node(NetCfg { peers: vec![r(), r()], max_records: 4000, delays: false, ..NetCfg::default() });
            let cont = NC { on_link: LinkPolicy::Continue, ..NC::default() };
            let a = n_c("a", cont);
            let fa = far_at(&node, &a, "a", r()).await;
            let bs: Vec<ActorRef<O>> = (0..n).map(|i| o(leak(format!("b{i}")), cont, Mb::U)).collect();
            for (i, b) in bs.iter().enumerate() {
                let fb = far_at(&node, b, &format!("b{i}"), r()).await;
                let res = if other_side { b.link_remote(&fa).await } else { a.link_remote(&fb).await };
                if res.is_err() {
                    fail(format!("link {i} of {n}: {res:?}"));
                }
                if i % 3 == 2 {
                    let res = if other_side { b.unlink_remote(&fa).await } else { a.unlink_remote(&fb).await };
                    if res.is_err() {
                        fail(format!("unlinking {i} of {n}: {res:?}"));
                    }
                }
            }
            mcrt::settle();
            match how {
                0 => node.send(Net::Close(r())),
                1 => {
                    for b in &bs {
                        kill(b);
                    }
                }
                2 => {
                    for b in &bs {
                        b.stop_gracefully().await.unwrap();
                        b.wait_for_stop().await;
                    }
                }
                _ => {
                    kill(&a);
                    a.wait_for_stop().await;
                }
            }
            mcrt::settle();
            if how != 0 {
                // nothing is told again
                node.send(Net::Close(r()));
                mcrt::settle();
            }
            let l = log();
            let reason = ["PeerDisconnected", "Killed", "Normal", "Killed"][how];
            // either side sees the other at the peer, except the one that was asked for: it is where it is
            let linked: Vec<usize> = (0..n).filter(|i| i % 3 != 2).collect();
            let strip = |s: &String| s.replace("@R", "").replace("@L", "");
            let mut told: Vec<String> = l.ss("a", "link_died").iter().map(strip).collect();
            let mut want: Vec<String> = if how == 3 { vec![] } else { linked.iter().map(|i| format!("b{i} {reason}")).collect() };
            told.sort();
            want.sort();
            if told != want {
                fail(format!("of {n} links, {} left: a was told {told:?}", linked.len()));
            }
            if how == 0 || how == 3 {
                for i in 0..n {
                    let told: Vec<String> = l.ss(leak(format!("b{i}")), "link_died").iter().map(strip).collect();
                    let want = if i % 3 == 2 { vec![] } else { vec![format!("a {reason}")] };
                    if told != want {
                        fail(format!("b{i} of {n} was told {told:?}, not {want:?}"));
                    }
                }
            }
        },
        |f, _, v| {
            sane(f, v);
            no_panics(f, v);
        },
    )
}
fn n_c(name: &'static str, c: NC) -> ActorRef<N> {
    n(name, c, Mb::U)
}

pub fn all() -> Vec<Scn> {
    vec![
        scn("P50", "remote-large", 0, 0, "up to 520 requests at once in every form, to an own actor or a peer's, delivered as they come, together, or in reverse, over every mailbox; payloads up to 0.3 MB (the protocol refuses requests beyond 1 MB as encoded)", requests).steps(800_000),
        scn("P52", "swarm-large", 0, 0, "up to 520 commands of every kind in flight, completed in four orders, well and badly: each caller gets its own outcome once", commands).steps(800_000),
        scn("P53", "rlinks-large", 0, 0, "an actor linked with up to 257 of a peer (from either side), every third unlinked again; the peer is lost, all of them or the one die, one by one or at once", links).steps(800_000),
    ]
}
