//! P30, P31: worker pools.
use crate::kit::*;
use kameo_actors::pool::{ActorPool, Broadcast, Dispatch};
use tokio::sync::Semaphore;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum J {
    Ok,
    Yield,
    /// the handler returns an error
    Err,
    Panic,
    /// the handler waits until its worker's gate lets it go
    Hold,
}
#[derive(Clone, Debug, PartialEq)]
struct Job(u32, J);

/// A worker: `n` is its number, in order of creation.
struct W {
    n: usize,
    gate: Arc<Semaphore>,
    starts: bool,
}
const WN: [&str; 10] = ["w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9"];
impl Drop for W {
    fn drop(&mut self) {
        ev(WN[self.n], "dropped", 0, "");
    }
}
impl Actor for W {
    type Error = TErr;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), TErr> {
        if self.starts {
            Ok(())
        } else {
            Err(TErr(7))
        }
    }
}
impl Message<Job> for W {
    type Reply = Result<(u32, usize), TErr>;
    async fn handle(&mut self, Job(id, j): Job, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        ev(WN[self.n], "take", id as i64, "");
        match j {
            J::Ok => {}
            J::Yield => yield_now().await,
            J::Err => return Err(TErr(id)),
            J::Panic => panic!("worker panics"),
            J::Hold => self.gate.acquire().await.unwrap().forget(),
        }
        ev(WN[self.n], "done", id as i64, "");
        Ok((id, self.n))
    }
}
/// An infallible kind of message.
#[derive(Clone, Debug)]
struct Plain(u32);
impl Message<Plain> for W {
    type Reply = usize;
    async fn handle(&mut self, m: Plain, _: &mut Context<Self, usize>) -> usize {
        ev(WN[self.n], "plain", m.0 as i64, "");
        self.n
    }
}

/// A job that gives jobs to its own pool: `(id, depth, how, pool)`.
struct Sub(u32, u32, usize, Pool);
impl Message<Sub> for W {
    type Reply = Result<Vec<usize>, TErr>;
    async fn handle(&mut self, Sub(id, depth, how, pool): Sub, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        ev(WN[self.n], "sub", id as i64, "");
        yield_now().await;
        if depth == 0 {
            return match how {
                3 => Err(TErr(id)),
                _ => Ok(vec![self.n]),
            };
        }
        let mut v = vec![self.n];
        match how {
            0 | 3 => match pool.ask(Dispatch(Sub(id + 1, depth - 1, how, pool.clone()))).send().await {
                Ok(more) => v.extend(more),
                Err(SendError::HandlerError(TErr(n))) => return Err(TErr(n)),
                Err(_) => return Err(TErr(666)),
            },
            1 => match pool.tell(Dispatch(Sub(id + 1, depth - 1, how, pool.clone()))).send().await {
                Ok(()) => {}
                Err(_) => return Err(TErr(666)),
            },
            _ => {
                let rs = pool.ask(Broadcast(Job(id + 1, J::Ok))).send().await.map_err(|_| TErr(667))?;
                v.extend(rs.iter().map(|r| 100 + r.is_ok() as usize));
            }
        }
        Ok(v)
    }
}

/// The factory's record.
#[derive(Clone)]
struct Shop {
    made: Arc<Mutex<Vec<(WeakActorRef<W>, Arc<Semaphore>)>>>,
    keep: Arc<Mutex<Vec<ActorRef<W>>>>,
    mb: Mb,
    keeps: bool,
    /// these workers fail to start
    duds: Vec<usize>,
}
impl Shop {
    fn new(mb: Mb, keeps: bool) -> Shop {
        Shop { made: Default::default(), keep: Default::default(), mb, keeps, duds: vec![] }
    }
    fn make(&self) -> ActorRef<W> {
        let mut made = self.made.lock().unwrap();
        let n = made.len();
        if n >= WN.len() {
            fail("the factory was called without end");
            std::process::exit(0);
        }
        let gate = Arc::new(Semaphore::new(0));
        mcrt::set_next_name(WN[n]);
        let p = PreparedActor::new(self.mb.make());
        let r = p.actor_ref().clone();
        name_id(r.id(), WN[n]);
        p.spawn(W { n, gate: gate.clone(), starts: !self.duds.contains(&n) });
        ev("shop", "made", n as i64, "");
        made.push((r.downgrade(), gate));
        if self.keeps {
            self.keep.lock().unwrap().push(r.clone());
        }
        r
    }
    fn count(&self) -> usize {
        self.made.lock().unwrap().len()
    }
    fn worker(&self, n: usize) -> Option<ActorRef<W>> {
        self.made.lock().unwrap()[n].0.upgrade()
    }
    fn release(&self, n: usize) {
        self.made.lock().unwrap()[n].1.add_permits(1)
    }
    async fn pool(&self, size: usize, is_async: bool) -> ActorPool<W> {
        let s = self.clone();
        if is_async {
            ActorPool::new_async(size, move || {
                let s = s.clone();
                async move {
                    yield_now().await;
                    s.make()
                }
            })
            .await
        } else {
            ActorPool::new(size, move || s.make())
        }
    }
    fn finish(&self) {
        self.keep.lock().unwrap().clear();
    }
}
fn spawn_pool(p: ActorPool<W>, mb: Mb) -> ActorRef<ActorPool<W>> {
    mcrt::set_next_name("pool");
    spawn_with_mailbox(p, mb.make())
}

type Pool = ActorRef<ActorPool<W>>;

fn res_text(r: Result<(u32, usize), SendError<Dispatch<Job>, TErr>>) -> String {
    match r {
        Ok((id, w)) => format!("ok {id} {w}"),
        Err(SendError::HandlerError(TErr(n))) => format!("err {n}"),
        Err(SendError::ActorNotRunning(Dispatch(j))) => format!("notrunning {}", j.0),
        Err(SendError::ActorStopped) => "stopped".into(),
        Err(e) => format!("{e:?}"),
    }
}

/// The pool is whole: a broadcast is taken once by `size` distinct workers, and each of `size` asks is answered.
async fn whole(pool: &Pool, shop: &Shop, size: usize, id: u32) {
    if !pool.is_alive() {
        fail("the pool has stopped");
        return;
    }
    match pool.ask(Broadcast(Job(id, J::Ok))).await {
        Ok(rs) => {
            let ok = rs.iter().filter(|r| r.is_ok()).count();
            if rs.len() != size || ok != size {
                fail(format!("a broadcast to a pool of {size} returned {} results, {ok} of them successes", rs.len()));
            }
        }
        Err(e) => fail(format!("broadcast failed: {e:?}")),
    }
    mcrt::quiesce();
    let l = log();
    let got: Vec<usize> = (0..shop.count()).map(|n| l.count(WN[n], "take", id as i64)).collect();
    if got.iter().any(|g| *g > 1) || got.iter().sum::<usize>() != size {
        fail(format!("a broadcast to a pool of {size} was taken {got:?} times by the workers made"));
    }
    for i in 1..=size as u32 {
        let r = res_text(pool.ask(Dispatch(Job(id + i, J::Ok))).await);
        if !r.starts_with(&format!("ok {} ", id + i)) {
            fail(format!("an ask of a pool at rest got {r}"));
        }
    }
}

/// One outcome per asked job, against what the workers did.
fn check_job(l: &Log, id: u32, j: J, told: bool, deaths: bool, v: &mut Vec<String>) {
    let takes: Vec<usize> = (0..WN.len()).filter(|n| l.count(WN[*n], "take", id as i64) > 0).collect();
    let total: usize = (0..WN.len()).map(|n| l.count(WN[n], "take", id as i64)).sum();
    if total > 1 || total == 0 && !deaths {
        v.push(format!("message {id} ({j:?}) was handled {total} times"));
        return;
    }
    if told {
        return;
    }
    let Some(r) = l.0.iter().find(|e| e.what == "res" && e.n == id as i64) else {
        v.push(format!("ask {id} never returned"));
        return;
    };
    let done = takes.first().is_some_and(|w| l.count(WN[*w], "done", id as i64) > 0);
    let want: Vec<String> = match (j, total) {
        (J::Ok | J::Yield | J::Hold, 1) if done && !deaths => vec![format!("ok {id} {}", takes[0])],
        (J::Ok | J::Yield | J::Hold, 1) if done => vec![format!("ok {id} {}", takes[0]), "stopped".into()],
        (J::Ok | J::Yield | J::Hold, 1) => vec!["stopped".into()],
        (J::Err, 1) if !deaths => vec![format!("err {id}")],
        (J::Err, 1) => vec![format!("err {id}"), "stopped".into()],
        (J::Panic, 1) => vec!["stopped".into()],
        _ => vec!["stopped".into(), format!("notrunning {id}")],
    };
    if !want.contains(&r.s) {
        v.push(format!("ask {id} ({j:?}) returned {:?}, not {want:?}", r.s));
    }
}

/// Dispatchers whose tasks are aborted.
fn given_up() -> Scn {
    scn("P30", "pool-cancelled", 1, 2, "the task of a dispatcher or broadcaster is aborted at any point, beside another dispatcher: its job is handled at most once per worker, the other's is answered, and the pool is whole afterwards", || {
        prog(
            || async {
                let size = 1 + choose(2);
                let mb = [Mb::B(1), Mb::U][choose(2)];
                let how = choose(3);
                let j = [J::Ok, J::Yield, J::Err][choose(3)];
                let shop = Shop::new(mb, true);
                let pool = spawn_pool(shop.pool(size, false).await, mb);
                mcrt::settle();
                // a told error would end its worker
                let j = if how != 0 && j == J::Err { J::Ok } else { j };
                ev("cfg", "case", how as i64, format!("{size} {mb:?} {j:?}"));
                let p = pool.clone();
                let h = tokio::spawn(async move {
                    ev("c", "call", 0, "");
                    match how {
                        0 => {
                            let r = res_text(p.ask(Dispatch(Job(1, j))).await);
                            ev("c", "res", 1, r);
                        }
                        1 => {
                            let r = p.tell(Dispatch(Job(1, j))).await;
                            ev("c", "told", r.is_ok() as i64, "");
                        }
                        _ => {
                            let r = p.ask(Broadcast(Job(1, j))).await;
                            ev("c", "all", r.map(|r| r.len()).unwrap_or(99) as i64, "");
                        }
                    }
                });
                let p = pool.clone();
                let d = client("d", async move {
                    let r = res_text(p.ask(Dispatch(Job(2, J::Yield))).await);
                    if !r.starts_with("ok 2 ") {
                        fail(format!("the other dispatcher got {r}"));
                    }
                });
                client("x", async move { h.abort() });
                let _ = d.await;
                mcrt::settle();
                let l = log();
                let takes: Vec<usize> = (0..size).map(|n| l.count(WN[n], "take", 1)).collect();
                if takes.iter().any(|t| *t > 1) || how < 2 && takes.iter().sum::<usize>() > 1 || how == 2 && takes.iter().any(|t| *t != takes[0]) {
                    fail(format!("the given up job was taken {takes:?} times by the workers"));
                }
                if l.ss("c", "res").iter().any(|r| !r.starts_with("ok 1 ") && r != "err 1") || l.ns("c", "told").contains(&0) || l.ns("c", "all").iter().any(|n| *n != size as i64) {
                    fail("a job not given up failed");
                }
                if l.countk("c", "told") + l.countk("c", "res") + l.countk("c", "all") > 0 && takes[..].iter().sum::<usize>() != if how == 2 { size } else { 1 } {
                    fail(format!("a job not given up was taken {takes:?} times"));
                }
                whole(&pool, &shop, size, 50).await;
                shop.finish();
            },
            |f, _l, v| pool_done(f, v),
        )
    })
}

/// Jobs that give jobs to their own pool.
fn reentrant() -> Scn {
    scn("P30", "pool-jobs-make-jobs", 1, 3, "a job that asks, tells or broadcasts to its own pool of one more worker than there are jobs nested in each other", || {
        prog(
            || async {
                let size = 2 + choose(2);
                let how = choose(4);
                let depth = if how == 2 { 1 } else { size as u32 - 1 };
                let told = choose(2) == 1;
                let mb = [Mb::B(1), Mb::U][choose(2)];
                let shop = Shop::new(mb, true);
                let pool = spawn_pool(shop.pool(size, false).await, mb);
                mcrt::settle();
                ev("cfg", "case", how as i64, format!("{size} {told}"));
                if told {
                    pool.tell(Dispatch(Sub(1, depth, how, pool.clone()))).send().await.unwrap();
                    mcrt::settle();
                } else {
                    let r = match pool.ask(Dispatch(Sub(1, depth, how, pool.clone()))).send().await {
                        Ok(v) => format!("{v:?}"),
                        Err(SendError::HandlerError(TErr(n))) => format!("err {n}"),
                        Err(_) => "failed".into(),
                    };
                    ev("c", "ret", 0, r);
                    mcrt::settle();
                }
                // an error that nobody hears of ends its worker
                whole(&pool, &shop, size, 50).await;
                shop.finish();
            },
            |f, l, v| {
                all_done(f, v);
                let how = l.ns("cfg", "case")[0];
                let size: usize = l.ss("cfg", "case")[0].split(' ').next().unwrap().parse().unwrap();
                let mut subs: Vec<i64> = WN.iter().flat_map(|w| l.ns(w, "sub")).collect();
                subs.sort();
                let n = if how == 2 { 1 } else { size as i64 };
                if subs != (1..=n).collect::<Vec<_>>() {
                    v.push(format!("the nested jobs handled were {subs:?} of {n}"));
                }
                if how != 1 && WN[..size].iter().any(|w| l.countk(w, "sub") > 1) && how != 2 {
                    v.push("a job went to a busy worker although another one was idle".into());
                }
                if how == 2 && WN[..size].iter().any(|w| l.count(w, "take", 2) != 1) {
                    v.push("the broadcast did not reach each worker once".into());
                }
                for r in l.ss("c", "ret") {
                    let ok = match how {
                        0 => r.split(',').count() == size,
                        1 => r.starts_with('['),
                        2 => r.matches("101").count() == size,
                        _ => r == format!("err {size}"),
                    };
                    if !ok {
                        v.push(format!("the job was answered with {r} (case {how}, {size} workers)"));
                    }
                }
            },
        )
    })
}

fn dispatch() -> Scn {
    scn("P30", "pool-dispatch", 1, 2, "two clients dispatching two jobs each (asked or told; returning, suspending, failing, panicking) to pools of one and two workers made synchronously or not, with every mailbox kind", || {
        prog(
            || async {
                let size = 1 + choose(2);
                let kind = choose(3);
                let shop = Shop::new([Mb::B(1), Mb::B(2), Mb::U][kind], choose(2) == 1);
                let pool = spawn_pool(shop.pool(size, choose(2) == 1).await, [Mb::U, Mb::B(1), Mb::B(2)][kind]);
                mcrt::settle();
                let set = choose(6);
                let plans: [[(J, bool); 2]; 2] = match set {
                    0 => [[(J::Ok, false), (J::Ok, true)], [(J::Yield, false), (J::Ok, false)]],
                    1 => [[(J::Yield, true), (J::Ok, true)], [(J::Ok, true), (J::Yield, true)]],
                    2 => [[(J::Err, false), (J::Ok, false)], [(J::Ok, false), (J::Err, false)]],
                    3 => [[(J::Panic, false), (J::Ok, false)], [(J::Ok, true), (J::Ok, false)]],
                    4 => [[(J::Err, true), (J::Ok, false)], [(J::Yield, false), (J::Ok, true)]],
                    _ => [[(J::Panic, true), (J::Panic, false)], [(J::Ok, false), (J::Ok, false)]],
                };
                ev("cfg", "set", set as i64, "");
                let mut hs = vec![];
                for (c, plan) in plans.into_iter().enumerate() {
                    let pool = pool.clone();
                    hs.push(client(["c0", "c1"][c], async move {
                        for (i, (j, told)) in plan.into_iter().enumerate() {
                            let id = (10 * c + i + 1) as u32;
                            if told {
                                if let Err(e) = pool.tell(Dispatch(Job(id, j))).await {
                                    fail(format!("telling the pool failed: {e:?}"));
                                }
                            } else {
                                let r = pool.ask(Dispatch(Job(id, j))).await;
                                ev(["c0", "c1"][c], "res", id as i64, res_text(r));
                            }
                        }
                    }));
                }
                for h in hs {
                    let _ = h.await;
                }
                mcrt::settle();
                whole(&pool, &shop, size, 100).await;
                let n = pool.ask(Dispatch(Plain(7))).await;
                if !n.as_ref().is_ok_and(|n| log().count(WN[*n], "plain", 7) == 1) {
                    fail(format!("an infallible ask returned {n:?}"));
                }
                shop.finish();
                let jobs: Vec<(u32, J, bool)> = plans.iter().enumerate().flat_map(|(c, p)| p.iter().enumerate().map(move |(i, (j, t))| ((10 * c + i + 1) as u32, *j, *t))).collect();
                let deaths = jobs.iter().any(|(_, j, t)| *j == J::Panic || *j == J::Err && *t);
                let l = log();
                let mut v = vec![];
                for (id, j, told) in jobs {
                    check_job(&l, id, j, told, deaths, &mut v);
                }
                for e in v {
                    fail(e);
                }
            },
            |f, _l, v| pool_done(f, v),
        )
    })
}

/// As `all_done`, with the workers' own panics allowed (they are caught by kameo).
fn pool_done(f: &Final, v: &mut Vec<String>) {
    all_done(f, v)
}

/// Loads, one operation at a time.
fn balance(size: usize, depth: usize, name: &'static str, quick: u32) -> Scn {
    scn("P31", name, quick, 0, "every sequence of dispatches (asked, told, given up), broadcasts and completions over a pool whose handlers wait for a gate: each message goes to a worker with the fewest outstanding", move || {
        prog(
            move || async move {
                let kind = choose(2);
                let shop = Shop::new([Mb::B(16), Mb::U][kind], false);
                let pool = spawn_pool(shop.pool(size, kind == 1).await, Mb::U);
                mcrt::settle();
                let mut id = 0;
                let mut asks = vec![];
                let mut released = vec![0usize; size];
                for _ in 0..depth {
                    let c = choose(4 + size);
                    match c {
                        0 => {
                            id += 1;
                            ev("op", "disp", id, "");
                            pool.tell(Dispatch(Job(id as u32, J::Hold))).await.unwrap();
                        }
                        1 => {
                            id += 1;
                            ev("op", "disp", id, "");
                            let (p, id) = (pool.clone(), id);
                            asks.push(client("ask", async move {
                                let r = res_text(p.ask(Dispatch(Job(id as u32, J::Hold))).await);
                                if !r.starts_with(&format!("ok {id} ")) {
                                    fail(format!("ask {id} returned {r}"));
                                }
                            }));
                        }
                        2 => {
                            // the asker goes away
                            id += 1;
                            ev("op", "disp", id, "");
                            drop(pool.ask(Dispatch(Job(id as u32, J::Hold))).enqueue().await.unwrap());
                        }
                        3 => {
                            id += 1;
                            ev("op", "cast", id, "");
                            pool.tell(Broadcast(Job(id as u32, J::Hold))).await.unwrap();
                        }
                        _ => {
                            let w = c - 4;
                            let l = log();
                            if l.countk(WN[w], "take") > l.countk(WN[w], "done") {
                                released[w] += 1;
                                shop.release(w);
                            }
                        }
                    }
                    mcrt::quiesce();
                }
                for w in 0..size {
                    for _ in 0..20 {
                        shop.release(w);
                    }
                }
                mcrt::settle();
                for a in asks {
                    a.await.unwrap();
                }
                // who got what is known now: replay the loads
                let l = log();
                let mut load = vec![0i64; size];
                for e in &l.0 {
                    match (e.who.as_str(), e.what) {
                        ("op", "disp") => {
                            let to: Vec<usize> = (0..size).filter(|w| l.count(WN[*w], "take", e.n) == 1).collect();
                            if to.len() != 1 || (0..size).any(|w| l.count(WN[w], "take", e.n) > 1) {
                                fail(format!("message {} was handled by {to:?}", e.n));
                                break;
                            }
                            if load[to[0]] > *load.iter().min().unwrap() {
                                fail(format!("message {} went to worker {} when the loads were {load:?}", e.n, to[0]));
                            }
                            load[to[0]] += 1;
                        }
                        ("op", "cast") => {
                            for w in 0..size {
                                if l.count(WN[w], "take", e.n) != 1 {
                                    fail(format!("broadcast {} was handled {} times by worker {w}", e.n, l.count(WN[w], "take", e.n)));
                                }
                                load[w] += 1;
                            }
                        }
                        (w, "done") => load[WN.iter().position(|n| *n == w).unwrap()] -= 1,
                        _ => {}
                    }
                }
                if shop.count() != size {
                    fail(format!("the factory made {} workers for a pool of {size}", shop.count()));
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

/// Concurrent dispatches while all workers but one are busy.
fn idle_one() -> Scn {
    scn("P31", "pool-idle-one", 1, 2, "all workers but one are held up; jobs dispatched one after the other are all served by the remaining one, whichever it is, while the held ones finish at some point", || {
        prog(
            || async {
                let size = 2 + choose(2);
                let kind = choose(2);
                let shop = Shop::new([Mb::B(1), Mb::U][kind], false);
                let pool = spawn_pool(shop.pool(size, kind == 1).await, Mb::B(1));
                mcrt::settle();
                for i in 0..size {
                    pool.tell(Dispatch(Job(i as u32, J::Hold))).await.unwrap();
                }
                mcrt::quiesce();
                let busy = |l: &Log| (0..size).filter(|w| l.countk(WN[*w], "take") > l.countk(WN[*w], "done")).count();
                if busy(&log()) != size {
                    fail("jobs queued up at a busy worker while another was idle");
                }
                let free = choose(size);
                shop.release(free);
                mcrt::quiesce();
                let (s, p) = (shop.clone(), pool.clone());
                let h = client("c", async move {
                    for id in 10..13 {
                        let r = res_text(p.ask(Dispatch(Job(id, if id == 11 { J::Yield } else { J::Ok }))).await);
                        if r != format!("ok {id} {free}") {
                            fail(format!("worker {free} was idle and {id} returned {r}"));
                        }
                        mcrt::quiesce();
                    }
                    for w in 0..size {
                        if w != free {
                            s.release(w);
                        }
                    }
                });
                h.await.unwrap();
                mcrt::settle();
                whole(&pool, &shop, size, 100).await;
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

/// Deaths, one at a time.
fn replacement(depth: usize, name: &'static str, quick: u32) -> Scn {
    scn("P31", name, quick, 1, "sequences of worker deaths of every kind (killed, stopped, panicking or failing at a job asked, told or broadcast; while busy), each followed by a check that the pool is whole again and the factory was called once per death", move || {
        prog(
            move || async move {
                let size = 1 + choose(2);
                let kind = choose(3);
                // with or without references of our own to the workers
                let shop = Shop::new([Mb::B(1), Mb::B(2), Mb::U][kind], choose(2) == 1);
                let pool = spawn_pool(shop.pool(size, choose(2) == 1).await, [Mb::U, Mb::B(1), Mb::B(2)][kind]);
                mcrt::settle();
                let mut made = size;
                let mut id = 0;
                for step in 0..depth {
                    let victims: Vec<usize> = {
                        // the workers in service are those a broadcast reaches
                        let cast = 1000 + step as u32;
                        let _ = pool.ask(Broadcast(Job(cast, J::Ok))).await;
                        mcrt::quiesce();
                        let l = log();
                        (0..shop.count()).filter(|n| l.count(WN[*n], "take", cast as i64) > 0).collect()
                    };
                    let Some(v) = victims.get(choose(size)).copied() else {
                        fail(format!("only {} of {size} workers are in service", victims.len()));
                        return;
                    };
                    id += 1;
                    let how = choose(7);
                    ev("op", "death", how as i64, "");
                    match how {
                        0 => shop.worker(v).unwrap().kill(),
                        1 => drop(shop.worker(v).unwrap().stop_gracefully().await),
                        2 => drop(shop.worker(v).unwrap().tell(Job(id, J::Panic)).await),
                        3 => drop(pool.tell(Dispatch(Job(id, J::Panic))).await),
                        4 => {
                            let r = res_text(pool.ask(Dispatch(Job(id, J::Panic))).await);
                            if r != "stopped" {
                                fail(format!("an ask whose worker panics returned {r}"));
                            }
                        }
                        5 => {
                            // killed while busy
                            pool.tell(Dispatch(Job(id, J::Hold))).await.unwrap();
                            mcrt::quiesce();
                            let l = log();
                            let w = (0..shop.count()).find(|n| l.count(WN[*n], "take", id as i64) > 0).unwrap();
                            shop.worker(w).unwrap().kill();
                        }
                        _ => drop(pool.tell(Broadcast(Job(id, J::Panic))).await),
                    }
                    mcrt::settle();
                    made += if how == 6 { size } else { 1 };
                    if shop.count() != made {
                        fail(format!("after death {how} the factory has made {} workers, not {made}", shop.count()));
                        return;
                    }
                    whole(&pool, &shop, size, 100 * (step as u32 + 1)).await;
                }
                // a failure returned to an asker is no death
                let r = res_text(pool.ask(Dispatch(Job(900, J::Err))).await);
                mcrt::settle();
                if r != "err 900" || shop.count() != made {
                    fail(format!("a failing ask returned {r} and {} workers have been made, not {made}", shop.count()));
                }
                shop.finish();
            },
            |f, _l, v| pool_done(f, v),
        )
    })
}

/// Workers that die before the pool runs, or never start.
fn stillborn() -> Scn {
    scn("P31", "pool-stillborn", 1, 2, "workers that fail to start or die between the making of the pool and its start, at first or as a replacement: the pool is whole once everything has come to rest", || {
        prog(
            || async {
                let size = 1 + choose(2);
                let mut shop = Shop::new([Mb::B(1), Mb::U][choose(2)], choose(2) == 1);
                let case = choose(5);
                ev("cfg", "case", case as i64, "");
                match case {
                    0 => shop.duds = vec![0],
                    1 => shop.duds = vec![0, 1],
                    2 => shop.duds = vec![size, size + 1],
                    _ => {}
                }
                let p = shop.pool(size, choose(2) == 1).await;
                if case >= 3 {
                    let w = shop.worker(size - 1).unwrap();
                    w.kill();
                    if case == 4 {
                        w.wait_for_shutdown().await;
                        mcrt::settle();
                    }
                }
                let pool = spawn_pool(p, Mb::U);
                if case == 2 {
                    mcrt::settle();
                    shop.worker(0).unwrap().kill();
                }
                mcrt::settle();
                let want = size + match case { 0 => 1, 1 => 2, 2 => 3, _ => 1 };
                if shop.count() != want {
                    fail(format!("case {case}: {} workers made, not {want}", shop.count()));
                }
                whole(&pool, &shop, size, 100).await;
                shop.finish();
            },
            |f, _l, v| pool_done(f, v),
        )
    })
}

/// Workers die while jobs are dispatched.
fn deaths() -> Scn {
    scn("P30", "pool-deaths", 1, 2, "workers of a pool of one or two are killed, stopped or fail while a client dispatches three jobs and another broadcasts: every job is handled at most once, every asker gets its own reply or learns that the worker is gone, and the pool is whole afterwards", || {
        prog(
            || async {
                let size = 1 + choose(2);
                let kind = choose(2);
                let shop = Shop::new([Mb::B(1), Mb::U][kind], choose(2) == 1);
                let pool = spawn_pool(shop.pool(size, false).await, [Mb::U, Mb::B(1)][kind]);
                mcrt::settle();
                let how = choose(4);
                let told = choose(2) == 1;
                let (s, p) = (shop.clone(), pool.clone());
                let h0 = client("killer", async move {
                    match how {
                        0 => kill(&s.worker(0).unwrap()),
                        1 => drop(s.worker(size - 1).unwrap().stop_gracefully().await),
                        2 => {
                            for w in 0..size {
                                kill(&s.worker(w).unwrap());
                            }
                        }
                        _ => {
                            let r = p.ask(Broadcast(Job(50, J::Panic))).await;
                            if !r.as_ref().is_ok_and(|r| r.len() == size && r.iter().all(|r| r.is_ok())) {
                                fail(format!("broadcasting to running workers returned {r:?}"));
                            }
                        }
                    }
                });
                let p = pool.clone();
                let h1 = client("c0", async move {
                    for id in 1..=3 {
                        let j = if id == 2 { J::Yield } else { J::Ok };
                        if told && id < 3 {
                            if let Err(e) = p.tell(Dispatch(Job(id, j))).await {
                                fail(format!("telling the pool failed: {e:?}"));
                            }
                        } else {
                            let r = p.ask(Dispatch(Job(id, j))).await;
                            ev("c0", "res", id as i64, res_text(r));
                        }
                    }
                });
                h0.await.unwrap();
                h1.await.unwrap();
                mcrt::settle();
                whole(&pool, &shop, size, 100).await;
                shop.finish();
                let (l, mut v) = (log(), vec![]);
                for id in 1..=3 {
                    check_job(&l, id, if id == 2 { J::Yield } else { J::Ok }, told && id < 3, true, &mut v);
                }
                for e in v {
                    fail(e);
                }
                let want = size + if how >= 2 { size } else { 1 };
                if shop.count() != want {
                    fail(format!("{} workers made, not {want}", shop.count()));
                }
            },
            |f, _l, v| pool_done(f, v),
        )
    })
}

/// A dispatch when the pool is known to contain dead workers it has not replaced yet.
fn dead_ones() -> Scn {
    scn("P30", "pool-dead-ones", 1, 3, "workers die while the pool is held up by a slow factory or a full mailbox, so that it learns of the deaths only after the dispatches queued meanwhile: these go to the workers that are left, and fail if there are none", || {
        prog(
            || async {
                let size = 2 + choose(2);
                let left = choose(size);
                let told = choose(2) == 1;
                let shop = Shop::new(Mb::B(1), false);
                let pool = spawn_pool(shop.pool(size, false).await, Mb::U);
                mcrt::settle();
                // all workers busy and their wrappers too, with full mailboxes: the pool waits for room at one of them
                let n = 4 * size as u32;
                for id in 0..n {
                    pool.tell(Dispatch(Job(id, J::Hold))).await.unwrap();
                }
                mcrt::quiesce();
                // dispatches queue up at the pool, the death notices behind them
                let mut hs = vec![];
                for id in 100..102 {
                    if told {
                        pool.tell(Dispatch(Job(id, J::Ok))).await.unwrap();
                    } else {
                        let p = pool.clone();
                        hs.push(client("asker", async move {
                            let r = p.ask(Dispatch(Job(id, J::Ok))).await;
                            ev("c0", "res", id as i64, res_text(r));
                        }));
                    }
                }
                mcrt::quiesce();
                for w in left..size {
                    shop.worker(w).unwrap().kill();
                }
                mcrt::settle();
                for w in 0..shop.count() {
                    for _ in 0..20 {
                        shop.release(w);
                    }
                }
                mcrt::settle();
                for h in hs {
                    h.await.unwrap();
                }
                let (l, mut v) = (log(), vec![]);
                for id in 100..102 {
                    check_job(&l, id, J::Ok, told, true, &mut v);
                }
                for id in 0..n {
                    check_job(&l, id, J::Hold, true, true, &mut v);
                }
                for e in v {
                    fail(e);
                }
                if shop.count() != size + size - left {
                    fail(format!("{} workers made", shop.count()));
                }
                whole(&pool, &shop, size, 200).await;
            },
            |f, _l, v| pool_done(f, v),
        )
    })
}

/// No worker is left, or only some, by the time the pool gets to what is queued at it.
fn none_left() -> Scn {
    scn("P30", "pool-none-left", 1, 2, "some or all workers die while dispatches or broadcasts queue up at a pool that waits for room: dispatches that find no worker running get their messages back, and a broadcast returns a result for every worker, the dead ones too", || {
        prog(
            || async {
                let size = 1 + choose(3);
                let cast = choose(2) == 1;
                let left = if cast { choose(size) } else { 0 };
                let shop = Shop::new(Mb::B(1), choose(2) == 1);
                let pool = spawn_pool(shop.pool(size, false).await, Mb::U);
                mcrt::settle();
                for id in 0..4 * size as u32 {
                    pool.tell(Dispatch(Job(id, J::Hold))).await.unwrap();
                }
                mcrt::quiesce();
                let n = 4 + 4 * size as u32;
                let mut hs = vec![];
                for id in 100..100 + if cast { 2 } else { n } {
                    let p = pool.clone();
                    hs.push(client("asker", async move {
                        if !cast {
                            let r = p.ask(Dispatch(Job(id, J::Ok))).await;
                            ev("c0", "res", id as i64, res_text(r));
                            return;
                        }
                        match p.ask(Broadcast(Job(id, J::Ok))).await {
                            Ok(rs) => {
                                if rs.len() != size {
                                    fail(format!("a broadcast to {size} workers returned {} results", rs.len()));
                                }
                                for (i, r) in rs.into_iter().enumerate() {
                                    match r {
                                        Ok(()) => ev("c0", "castok", id as i64, ""),
                                        Err(SendError::ActorNotRunning(Job(j, J::Ok))) if j == id && i >= left => ev("c0", "castdead", id as i64, ""),
                                        r => fail(format!("a broadcast's result for worker {i} of {size}, {left} of them running, is {r:?}")),
                                    }
                                }
                            }
                            Err(e) => fail(format!("a broadcast failed: {e:?}")),
                        }
                    }));
                    mcrt::quiesce();
                }
                for w in left..size {
                    shop.worker(w).unwrap().kill();
                }
                mcrt::settle();
                for w in 0..shop.count() {
                    for _ in 0..40 {
                        shop.release(w);
                    }
                }
                mcrt::settle();
                for h in hs {
                    h.await.unwrap();
                }
                let (l, mut v) = (log(), vec![]);
                if cast {
                    for id in 100..102 {
                        let got = (0..left).filter(|w| l.count(WN[*w], "take", id) == 1).count();
                        if got != left {
                            fail(format!("broadcast {id} reached {got} of {left} running workers"));
                        }
                    }
                } else {
                    for id in 100..100 + n {
                        check_job(&l, id, J::Ok, false, true, &mut v);
                    }
                    // a worker may die with what it is handling, what it asked for and what it has room for
                    let back = l.0.iter().filter(|e| e.what == "res" && e.s == format!("notrunning {}", e.n)).count();
                    if back < n as usize - 3 * size {
                        v.push(format!("of {n} dispatches to {size} dead workers only {back} returned the message"));
                    }
                }
                for e in v {
                    fail(e);
                }
                whole(&pool, &shop, size, 200).await;
                shop.finish();
            },
            |f, _l, v| pool_done(f, v),
        )
    })
}

pub fn scenarios() -> Vec<Scn> {
    vec![
        none_left(),
        reentrant(), given_up(),
        dispatch(),
        deaths(),
        dead_ones(),
        balance(2, 5, "pool-balance-two", 0),
        balance(3, 4, "pool-balance-three", 0),
        balance(2, 7, "pool-balance-deep", SKIP),
        idle_one(),
        replacement(1, "pool-replacement", 1),
        replacement(2, "pool-replacements", 0),
        replacement(3, "pool-replacements-deep", SKIP),
        stillborn(),
    ]
}
