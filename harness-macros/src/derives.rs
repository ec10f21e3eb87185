//! The derives.
use crate::kit::*;
use kameo::{Actor, Reply};

#[derive(Actor)]
struct Plain;
#[derive(Actor)]
struct Tuple(#[allow(dead_code)] u32);
#[derive(Actor)]
#[actor(name = "other name")]
struct Named {
    _x: u8,
}
#[derive(Actor)]
#[allow(dead_code)]
enum Enumed {
    A,
    B(u8),
}
#[derive(Actor)]
#[actor(name = "G")]
struct Generic<T: Send + 'static>(T);
#[derive(Actor)]
struct Wheres<T, const N: usize>
where
    T: Send + 'static,
{
    _t: [T; N],
}

#[derive(Reply, Debug, PartialEq, Clone)]
struct RUnit;
#[derive(Reply, Debug, PartialEq, Clone)]
struct RTuple(u8, String);
#[derive(Reply, Debug, PartialEq, Clone)]
enum REnum {
    A(u8),
    B { x: String },
}
#[derive(Reply, Debug, PartialEq, Clone)]
struct RGen<T: Send + 'static>(Vec<T>);
#[derive(Reply, Debug, PartialEq, Clone)]
struct RWhere<T, const N: usize>([T; N])
where
    T: Send + 'static;

macro_rules! echo {
    ($a:ty) => {
        impl<R: Reply + Clone> Message<Arc<Mutex<Option<R>>>> for $a {
            type Reply = R;
            async fn handle(&mut self, m: Arc<Mutex<Option<R>>>, _: &mut Context<Self, R>) -> R {
                m.lock().unwrap().take().unwrap()
            }
        }
    };
}
echo!(Plain);
echo!(Tuple);
echo!(Named);
echo!(Enumed);
echo!(Generic<u8>);
echo!(Wheres<u8, 2>);

async fn one<A, R>(a: A, name: &str, r: R)
where
    A: Actor<Error = Infallible> + Message<Arc<Mutex<Option<R>>>, Reply = R>,
    R: Reply<Ok = R, Value = R> + Clone + std::fmt::Debug + PartialEq,
{
    if A::name() != name {
        fail(format!("the derived name is {:?} instead of {name:?}", A::name()));
    }
    let x = spawn_with_mailbox(a, mailbox::bounded(2));
    let got = x.ask(Arc::new(Mutex::new(Some(r.clone())))).await;
    if got.as_ref().ok() != Some(&r) {
        fail(format!("the reply {r:?} arrived as {:?}", got.ok()));
    }
    // no error, whatever it contains
    x.tell(Arc::new(Mutex::new(Some(r.clone())))).await.ok();
    x.ask(Arc::new(Mutex::new(Some(r.clone())))).await.ok();
    mcrt::settle();
    if !x.is_alive() {
        fail(format!("telling a message that is replied to with {r:?} stopped the actor"));
    }
    if !matches!(r.clone().to_result(), Ok(v) if v == r) || r.clone().into_any_err().is_some() || r.clone().into_value() != r {
        fail(format!("{r:?} is converted to something else"));
    }
}

async fn each<R>(a: usize, r: R)
where
    R: Reply<Ok = R, Value = R> + Clone + std::fmt::Debug + PartialEq,
{
    match a {
        0 => one(Plain, "Plain", r).await,
        1 => one(Tuple(1), "Tuple", r).await,
        2 => one(Named { _x: 1 }, "other name", r).await,
        3 => one(Enumed::A, "Enumed", r).await,
        4 => one(Generic(1u8), "G", r).await,
        _ => one(Wheres { _t: [1u8, 2] }, "Wheres", r).await,
    }
}

pub fn scenarios() -> Vec<Scn> {
    vec![scn("P40", "derives", 1, 2, "every shape of derived actor with every shape of derived reply: names, asked and told, and the reply's conversions", || {
        prog(
            || async {
                let (a, r) = (choose(6), choose(6));
                match r {
                    0 => each(a, RUnit).await,
                    1 => each(a, RTuple(3, "x".into())).await,
                    2 => each(a, REnum::A(4)).await,
                    3 => each(a, REnum::B { x: "y".into() }).await,
                    4 => each(a, RGen(vec![Some(1u8), None])).await,
                    _ => each(a, RWhere(["p", "q"])).await,
                }
            },
            |f, _l, v| all_done(f, v),
        )
    })]
}
