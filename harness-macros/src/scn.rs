use crate::kit::*;
use kameo::{messages, Actor, Reply};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct P {
    x: i32,
    y: Q,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub enum Q {
    #[default]
    A,
    B(u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MyErr(u64);
#[derive(Clone, Debug, PartialEq, Reply)]
pub struct R {
    h: u64,
}
pub fn mks(i: usize) -> String {
    format!("g{i}")
}
pub fn mkn(i: usize) -> u8 {
    i as u8 + 50
}
pub fn mku(i: usize) -> u16 {
    i as u16 + 500
}
pub fn mkv(i: usize) -> (bool, usize) {
    (true, i)
}

/// What an actor's methods were called with.
#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<String>>>);
impl Log {
    pub fn put(&self, s: String) -> u64 {
        let h = s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211)) >> 8;
        self.0.lock().unwrap().push(s);
        h
    }
    pub fn get(&self) -> Vec<String> {
        self.0.lock().unwrap().clone()
    }
}

pub fn show_result<T: std::fmt::Debug, E: std::fmt::Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("err {e:?}"),
    }
}
pub fn show_ask<T: std::fmt::Debug, M, E: std::fmt::Debug>(r: Result<T, SendError<M, E>>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(SendError::HandlerError(e)) => format!("err {e:?}"),
        Err(e) => format!("{e:?}"),
    }
}
pub fn show_tell<M, E: std::fmt::Debug>(r: Result<(), SendError<M, E>>) -> String {
    match r {
        Ok(()) => "sent".into(),
        Err(e) => format!("{e:?}"),
    }
}

pub struct Case {
    pub title: &'static str,
    pub n: usize,
    pub run: fn(usize, bool, usize, bool) -> BoxFuture<'static, ()>,
}

/// Two messages, each asked or told, against direct calls of the annotated methods.
#[macro_export]
macro_rules! case {
    ($n:expr) => {
        pub async fn run(m1: usize, k1: bool, m2: usize, k2: bool) {
            let (la, lt) = (Log::default(), Log::default());
            let r = spawn_with_mailbox(make(la.clone()), mailbox::unbounded());
            let mut twin = make(lt.clone());
            let mut stopped = false;
            for (m, ask) in [(m1, k1), (m2, k2)] {
                let got = go(m, ask, &r).await;
                mcrt::settle();
                let want = if stopped {
                    "ActorNotRunning".to_string()
                } else {
                    let d = direct(m, &mut twin).await;
                    if ask {
                        d
                    } else {
                        stopped = d.starts_with("err");
                        "sent".into()
                    }
                };
                if got != want {
                    fail(format!("message {m} ({}): {got} instead of {want}", if ask { "asked" } else { "told" }));
                }
                if r.is_alive() == stopped {
                    fail(format!("after message {m}: alive is {}", r.is_alive()));
                }
            }
            if la.get() != lt.get() {
                fail(format!("the methods were called as {:?} instead of {:?}", la.get(), lt.get()));
            }
        }
    };
}
use crate::case;

#[path = "gen.rs"]
mod gen;

pub fn all() -> Vec<Scn> {
    let mut v = crate::derives::scenarios();
    v.push(scn("P40", "message-shapes", 0, 1, "every method shape of the grammar (receiver, async, arguments, argument names, reply, visibility, attributes, type and const parameters): every ordered pair of messages of an actor, each asked or told, against direct calls of the methods", || {
        prog(
            || async {
                let cases = gen::cases();
                let (hi, lo) = (choose(cases.len().div_ceil(16)), choose(16));
                let Some(c) = cases.get(hi * 16 + lo) else { return };
                let (m1, k1, m2, k2) = (choose(c.n), choose(2) == 0, choose(c.n), choose(2) == 0);
                ev("case", c.title, (m1 * 100 + m2) as i64, format!("{k1} {k2}"));
                (c.run)(m1, k1, m2, k2).await;
            },
            |f, _l, v| all_done(f, v),
        )
    }));
    v
}
