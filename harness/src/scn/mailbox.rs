//! P24: mailboxes against a queue.
use crate::kit::*;
use futures::FutureExt;
use kameo::mailbox::{MailboxReceiver, MailboxSender, Signal};
use std::collections::VecDeque;
use std::task::Poll;
use tokio::sync::mpsc::error::TryRecvError;

type S = Signal<T>;
fn sig(n: u64) -> S {
    Signal::LinkDied { id: ActorID::new(n), reason: ActorStopReason::Normal }
}
fn num(s: &S) -> u64 {
    match s {
        Signal::LinkDied { id, .. } => id.sequence_id(),
        _ => 0,
    }
}

/// What is in the mailbox, and who holds it.
struct Model {
    q: VecDeque<u64>,
    room: usize,
    closed: bool,
    txs: usize,
    weaks: usize,
}
impl Model {
    fn take(&mut self, limit: usize) -> Vec<u64> {
        (0..limit).map_while(|_| self.q.pop_front()).collect()
    }
    fn over(&self) -> bool {
        self.q.is_empty() && (self.closed || self.txs == 0)
    }
}

const OPS: usize = 12;
fn ops(depth: usize, name: &'static str, quick: u32) -> Scn {
    scn("P24", name, quick, 0, "every sequence of sends, receptions in every form (waiting, polled, tried, many at once), closings, clones, downgrades, upgrades and drops over the two ends of a mailbox, against a queue: what is received, what is refused and handed back, lengths, counts and closedness", move || {
        prog(
            move || async move {
                let kind = choose(3);
                let (tx, mut rx) = [Mb::B(1), Mb::B(2), Mb::U][kind].make();
                let (other, _other_rx) = Mb::U.make();
                let mut m = Model { q: VecDeque::new(), room: [1, 2, usize::MAX][kind], closed: false, txs: 1, weaks: 0 };
                let mut txs: Vec<MailboxSender<T>> = vec![tx];
                let mut weaks = vec![];
                let mut next = 1u64;
                let mut done: Vec<String> = vec![];
                for _ in 0..depth {
                    let op = choose(OPS);
                    let mut bad = |what: String, got: String, want: String| {
                        if got != want {
                            fail(format!("after {done:?} {what} gave {got}, a queue gives {want}"));
                        }
                    };
                    let text = match op {
                        0 => {
                            let Some(tx) = txs.last() else { continue };
                            let got = match tx.send(sig(next)).now_or_never() {
                                Some(Ok(())) => "ok".to_string(),
                                Some(Err(e)) => format!("back {}", num(&e.0)),
                                None => "wait".into(),
                            };
                            let want = if m.closed {
                                format!("back {next}")
                            } else if m.q.len() >= m.room {
                                "wait".into()
                            } else {
                                m.q.push_back(next);
                                "ok".into()
                            };
                            bad("send".into(), got, want);
                            next += 1;
                            "send"
                        }
                        1 => {
                            let got = match rx.try_recv() {
                                Ok(s) => format!("{}", num(&s)),
                                Err(TryRecvError::Empty) => "empty".into(),
                                Err(TryRecvError::Disconnected) => "over".into(),
                            };
                            let want = if m.over() { "over".into() } else { m.take(1).first().map_or("empty".into(), |n| n.to_string()) };
                            bad("try_recv".into(), got, want);
                            "try_recv"
                        }
                        2 | 3 => {
                            let r = if op == 2 {
                                rx.recv().now_or_never()
                            } else {
                                std::future::poll_fn(|cx| Poll::Ready(match rx.poll_recv(cx) {
                                    Poll::Ready(s) => Some(s),
                                    Poll::Pending => None,
                                })).await
                            };
                            let got = match r {
                                Some(Some(s)) => format!("{}", num(&s)),
                                Some(None) => "over".into(),
                                None => "wait".into(),
                            };
                            let want = if m.over() { "over".into() } else { m.take(1).first().map_or("wait".into(), |n| n.to_string()) };
                            bad(["recv", "poll_recv"][op - 2].into(), got, want);
                            ["recv", "poll_recv"][op - 2]
                        }
                        4..=6 => {
                            let limit = [2, 2, 0][op - 4];
                            let mut buf = vec![sig(1000)];
                            let r = if op == 5 {
                                std::future::poll_fn(|cx| Poll::Ready(match rx.poll_recv_many(cx, &mut buf, limit) {
                                    Poll::Ready(n) => Some(n),
                                    Poll::Pending => None,
                                })).await
                            } else {
                                rx.recv_many(&mut buf, limit).now_or_never()
                            };
                            let want = if limit == 0 {
                                (Some(0), vec![])
                            } else if m.over() {
                                (Some(0), vec![])
                            } else {
                                let t = m.take(limit);
                                (if t.is_empty() { None } else { Some(t.len()) }, t)
                            };
                            let got: Vec<u64> = buf.iter().map(num).collect();
                            if got.first() != Some(&1000) {
                                fail("receiving many at once disturbed what was in the buffer");
                            }
                            bad(format!("recv_many({limit})"), format!("{r:?} {:?}", &got[1..]), format!("{:?} {:?}", want.0, want.1));
                            ["recv_many", "poll_recv_many", "recv_many(0)"][op - 4]
                        }
                        7 => {
                            rx.close();
                            m.closed = true;
                            "close"
                        }
                        8 => {
                            let Some(tx) = txs.last() else { continue };
                            txs.push(tx.clone());
                            m.txs += 1;
                            "clone"
                        }
                        9 => {
                            if txs.pop().is_none() {
                                continue;
                            }
                            m.txs -= 1;
                            "drop"
                        }
                        10 => {
                            let Some(tx) = txs.last() else { continue };
                            weaks.push(tx.downgrade());
                            if weaks.len() == 1 {
                                let w = weaks[0].clone();
                                weaks.push(w);
                                m.weaks += 1;
                            }
                            m.weaks += 1;
                            "downgrade"
                        }
                        _ => {
                            let Some(w) = weaks.pop() else { continue };
                            m.weaks -= 1;
                            let got = w.upgrade();
                            if got.is_some() != (m.txs > 0) {
                                fail(format!("after {done:?} upgrading gives {} with {} senders", got.is_some(), m.txs));
                            }
                            if let Some(t) = got {
                                txs.push(t);
                                m.txs += 1;
                            }
                            "upgrade"
                        }
                    };
                    let mut state = |got: String, want: String, what: &str| {
                        if got != want {
                            fail(format!("after {done:?}, {text}: {what} is {got}, a queue says {want}"));
                        }
                    };
                    state(rx.len().to_string(), m.q.len().to_string(), "the length");
                    state(rx.is_empty().to_string(), m.q.is_empty().to_string(), "is_empty");
                    state(rx.is_closed().to_string(), (m.closed || m.txs == 0).to_string(), "the receiver's is_closed");
                    state(format!("{}/{}", rx.sender_strong_count(), rx.sender_weak_count()), format!("{}/{}", m.txs, m.weaks), "the receiver's counts");
                    for t in &txs {
                        state(t.is_closed().to_string(), m.closed.to_string(), "a sender's is_closed");
                        state(t.closed().now_or_never().is_some().to_string(), m.closed.to_string(), "a sender's closed()");
                        state(format!("{}/{}", t.strong_count(), t.weak_count()), format!("{}/{}", m.txs, m.weaks), "a sender's counts");
                        if !t.same_channel(&txs[0]) || t.same_channel(&other) {
                            fail("same_channel is wrong");
                        }
                    }
                    for w in &weaks {
                        state(format!("{}/{}", w.strong_count(), w.weak_count()), format!("{}/{}", m.txs, m.weaks), "a weak sender's counts");
                    }
                    done.push(text.into());
                }
                // what is left comes out in order
                let left = m.take(usize::MAX.min(100));
                let mut got = vec![];
                while let Ok(s) = rx.try_recv() {
                    got.push(num(&s));
                }
                if got != left {
                    fail(format!("after {done:?} the mailbox still held {got:?}, a queue {left:?}"));
                }
                // dropping the receiver refuses what comes later
                drop(rx);
                for t in &txs {
                    if !t.is_closed() || t.send(sig(500)).await.err().map(|e| num(&e.0)) != Some(500) {
                        fail("a mailbox without a receiver accepts signals");
                    }
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

async fn read(how: usize, rx: &mut MailboxReceiver<T>) -> Option<Vec<u64>> {
    let many = |n: usize, buf: &[S]| if n == 0 { None } else { Some(buf.iter().map(num).collect::<Vec<_>>()) };
    let one = |s: Option<S>| s.map(|s| vec![num(&s)]);
    match how {
        0 => one(rx.recv().await),
        1 => {
            let mut b = vec![];
            let n = rx.recv_many(&mut b, 2).await;
            many(n, &b)
        }
        2 => one(std::future::poll_fn(|cx| rx.poll_recv(cx)).await),
        3 => {
            let mut b = vec![];
            let n = std::future::poll_fn(|cx| rx.poll_recv_many(cx, &mut b, 2)).await;
            many(n, &b)
        }
        4 => {
            // given up again and again
            loop {
                let r = {
                    let a = std::pin::pin!(rx.recv());
                    let b = std::pin::pin!(yield_now());
                    match futures::future::select(b, a).await {
                        futures::future::Either::Left(_) => None,
                        futures::future::Either::Right((s, _)) => Some(s),
                    }
                };
                match r {
                    Some(s) => return one(s),
                    None => match rx.try_recv() {
                        Ok(s) => return one(Some(s)),
                        Err(TryRecvError::Disconnected) => return None,
                        // waits for real now
                        Err(TryRecvError::Empty) => return one(rx.recv().await),
                    },
                }
            }
        }
        5 => one(rx.blocking_recv()),
        _ => {
            let mut b = vec![];
            let n = rx.blocking_recv_many(&mut b, 2);
            many(n, &b)
        }
    }
}

fn readers() -> Scn {
    scn("P24", "mailbox-readers", 3, 5, "two senders send two signals each into a bounded or unbounded mailbox while a reader receives in one of seven ways (waiting, polled, many at once, given up and tried again, blocking), to the end or until it closes the mailbox after two: what was accepted is received once and in each sender's order, what was refused is handed back", || {
        prog(
            || async {
                let (tx, mut rx) = [Mb::B(1), Mb::B(2), Mb::U][choose(3)].make();
                let how = choose(7);
                let closes = choose(2) == 1;
                let mut hs = vec![];
                for c in 0..2u64 {
                    let tx = tx.clone();
                    hs.push(client(["s0", "s1"][c as usize], async move {
                        let mut sent = vec![];
                        for i in 1..=2 {
                            let n = 10 * c + i;
                            match tx.send(sig(n)).await {
                                Ok(()) => sent.push(n),
                                Err(e) if num(&e.0) == n => {}
                                Err(e) => fail(format!("{n} was refused and {} handed back", num(&e.0))),
                            }
                        }
                        if closes {
                            tx.closed().await;
                        }
                        sent
                    }));
                }
                drop(tx);
                let work = async move {
                    let mut got = vec![];
                    let mut closed = false;
                    while let Some(v) = read(how, &mut rx).await {
                        got.extend(v);
                        if closes && !closed && got.len() >= 2 {
                            rx.close();
                            closed = true;
                        }
                    }
                    if !rx.is_closed() || !rx.is_empty() || rx.try_recv().err() != Some(TryRecvError::Disconnected) {
                        fail("the mailbox ended but is not empty and closed");
                    }
                    got
                };
                let h = if how >= 5 {
                    client_blocking("reader", move || mcrt::block_on(work))
                } else {
                    client("reader", work)
                };
                let mut sent = vec![];
                for h in hs {
                    sent.push(h.await.unwrap());
                }
                let got = h.await.unwrap();
                ev("reader", "got", 0, format!("{got:?}"));
                for (c, s) in sent.iter().enumerate() {
                    let mine: Vec<u64> = got.iter().copied().filter(|n| n / 10 == c as u64).collect();
                    if mine != *s {
                        fail(format!("sender {c} was told that {s:?} were accepted, and {mine:?} were received"));
                    }
                }
                if got.len() != sent[0].len() + sent[1].len() || !closes && got.len() != 4 {
                    fail(format!("{got:?} were received, {sent:?} sent"));
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })
}

pub fn scenarios() -> Vec<Scn> {
    vec![ops(4, "mailbox-ops", 0), ops(5, "mailbox-ops-deep", SKIP), readers()]
}
