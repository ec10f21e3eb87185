//! Every way to send, with results as text that includes the message handed back.
use crate::kit::*;
use kameo::reply::{DelegatedReply, ForwardedReply, ReplySender};

pub fn back<E: std::fmt::Debug>(e: SendError<M, E>) -> String {
    match e {
        SendError::ActorNotRunning(m) => format!("NotRunning#{}", m.id),
        SendError::ActorStopped => "Stopped".into(),
        SendError::MailboxFull(m) => format!("Full#{}", m.id),
        SendError::HandlerError(e) => format!("handler:{e:?}"),
        SendError::Timeout(Some(m)) => format!("Timeout#{}", m.id),
        SendError::Timeout(None) => "Timeout".into(),
    }
}
pub fn back2<E: std::fmt::Debug, R>(e: SendError<(M, ReplySender<R>), E>) -> (String, Option<ReplySender<R>>) {
    match e {
        SendError::ActorNotRunning((m, t)) => (format!("NotRunning#{}", m.id), Some(t)),
        SendError::ActorStopped => ("Stopped".into(), None),
        SendError::MailboxFull((m, t)) => (format!("Full#{}", m.id), Some(t)),
        SendError::HandlerError(e) => (format!("handler:{e:?}"), None),
        SendError::Timeout(Some((m, t))) => (format!("Timeout#{}", m.id), Some(t)),
        SendError::Timeout(None) => ("Timeout".into(), None),
    }
}
pub fn unit_err(e: SendError) -> String {
    match e {
        SendError::ActorNotRunning(()) => "NotRunning".into(),
        SendError::ActorStopped => "Stopped".into(),
        SendError::MailboxFull(()) => "Full".into(),
        SendError::HandlerError(_) => "handler".into(),
        SendError::Timeout(Some(())) => "Timeout+msg".into(),
        SendError::Timeout(None) => "Timeout".into(),
    }
}
fn okt(r: Result<u32, SendError<M, TErr>>) -> String {
    match r {
        Ok(v) => format!("ok{v}"),
        Err(e) => back(e),
    }
}
fn oktell(r: Result<(), SendError<M>>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => back(e),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    Tell,
    TellAwait,
    TellTimeout,
    TryTell,
    BlockingTell,
    Ask,
    AskAwait,
    AskTimeout,
    TryAsk,
    BlockingAsk,
    Enqueue,
    EnqueueTimeout,
    TryEnqueue,
    BlockingEnqueue,
    RTell,
    RTellAwait,
    RTellTimeout,
    TryRTell,
    BlockingRTell,
}
pub const ALL: &[V] = &[
    V::Tell,
    V::TellAwait,
    V::TellTimeout,
    V::TryTell,
    V::BlockingTell,
    V::Ask,
    V::AskAwait,
    V::AskTimeout,
    V::TryAsk,
    V::BlockingAsk,
    V::Enqueue,
    V::EnqueueTimeout,
    V::TryEnqueue,
    V::BlockingEnqueue,
    V::RTell,
    V::RTellAwait,
    V::RTellTimeout,
    V::TryRTell,
    V::BlockingRTell,
];
impl V {
    pub fn is_ask(self) -> bool {
        use V::*;
        matches!(self, Ask | AskAwait | AskTimeout | TryAsk | BlockingAsk | Enqueue | EnqueueTimeout | TryEnqueue | BlockingEnqueue)
    }
    pub fn is_try(self) -> bool {
        use V::*;
        matches!(self, TryTell | TryAsk | TryEnqueue | TryRTell)
    }
    pub fn has_timeout(self) -> bool {
        use V::*;
        matches!(self, TellTimeout | AskTimeout | EnqueueTimeout | RTellTimeout)
    }
    /// enqueueing has no room for the message in its error
    pub fn keeps_msg(self) -> bool {
        use V::*;
        !matches!(self, Enqueue | EnqueueTimeout | TryEnqueue | BlockingEnqueue)
    }
    pub fn blocking(self) -> bool {
        use V::*;
        matches!(self, BlockingTell | BlockingAsk | BlockingEnqueue | BlockingRTell)
    }
    pub fn fail_text(self, what: &str, id: u32) -> String {
        if self.keeps_msg() {
            format!("{what}#{id}")
        } else if what == "Timeout" {
            "Timeout+msg".into()
        } else {
            what.into()
        }
    }
}
pub const LONG: Duration = Duration::from_millis(1000);

/// Sends `msg` in manner `v`; blocking variants block the calling task.
pub async fn send_v(v: V, a: &ActorRef<T>, msg: M, timeout: Duration) -> String {
    match v {
        V::Tell => oktell(a.tell(msg).send().await),
        V::TellAwait => oktell(a.tell(msg).await),
        V::TellTimeout => oktell(a.tell(msg).mailbox_timeout(timeout).send().await),
        V::TryTell => oktell(a.tell(msg).try_send()),
        V::BlockingTell => oktell(a.tell(msg).blocking_send()),
        V::Ask => okt(a.ask(msg).send().await),
        V::AskAwait => okt(a.ask(msg).await),
        V::AskTimeout => okt(a.ask(msg).mailbox_timeout(timeout).send().await),
        V::TryAsk => okt(a.ask(msg).try_send().await),
        V::BlockingAsk => okt(a.ask(msg).blocking_send()),
        V::Enqueue => match a.ask(msg).enqueue().await {
            Ok(p) => okt(p.await),
            Err(e) => unit_err(e),
        },
        V::EnqueueTimeout => match a.ask(msg).mailbox_timeout(timeout).enqueue().await {
            Ok(p) => okt(p.await),
            Err(e) => unit_err(e),
        },
        V::TryEnqueue => match a.ask(msg).try_enqueue() {
            Ok(p) => okt(p.await),
            Err(e) => unit_err(e),
        },
        V::BlockingEnqueue => match a.ask(msg).blocking_enqueue() {
            Ok(p) => okt(p.recv()),
            Err(e) => unit_err(e),
        },
        V::RTell => oktell(a.clone().recipient::<M>().tell(msg).send().await),
        V::RTellAwait => {
            let r = a.clone().recipient::<M>();
            let x = r.tell(msg).await;
            oktell(x)
        }
        V::RTellTimeout => oktell(a.clone().recipient::<M>().tell(msg).mailbox_timeout(timeout).send().await),
        V::TryRTell => oktell(a.clone().recipient::<M>().tell(msg).try_send()),
        V::BlockingRTell => oktell(a.clone().recipient::<M>().tell(msg).blocking_send()),
    }
}

// ---------------------------------------------------------------- routers

/// An actor that forwards and delegates.
pub struct R {
    pub name: &'static str,
    pub policy: PanicPolicy,
}
impl Drop for R {
    fn drop(&mut self) {
        ev(self.name, "dropped", 0, "");
    }
}
impl Actor for R {
    type Error = TErr;
    async fn on_panic(&mut self, _r: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, TErr> {
        ev(self.name, "on_panic", 0, perr_text(&err));
        Ok(match self.policy {
            PanicPolicy::Continue => ControlFlow::Continue(()),
            _ => ControlFlow::Break(ActorStopReason::Panicked(err)),
        })
    }
    async fn on_stop(&mut self, _r: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), TErr> {
        ev(self.name, "stop", 0, reason_text(&reason));
        Ok(())
    }
}
pub fn spawn_r(name: &'static str, policy: PanicPolicy, mb: Mb) -> ActorRef<R> {
    let p = PreparedActor::new(mb.make());
    let r = p.actor_ref().clone();
    name_id(r.id(), name);
    mcrt::set_next_name(name);
    p.spawn(R { name, policy });
    r
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Wait,
    Try,
    Block,
}
pub const HOWS: &[How] = &[How::Wait, How::Try, How::Block];

/// One hop: forwards `msg` to `to`.
pub struct Fwd {
    pub to: ActorRef<T>,
    pub msg: M,
    pub how: How,
}
impl Message<Fwd> for R {
    type Reply = ForwardedReply<M, Reply1>;
    async fn handle(&mut self, f: Fwd, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let id = f.msg.id as i64;
        ev(self.name, "begin", id, "");
        let r = match f.how {
            How::Wait => ctx.forward(&f.to, f.msg).await,
            How::Try => ctx.try_forward(&f.to, f.msg),
            How::Block => tokio::task::block_in_place(|| ctx.blocking_forward(&f.to, f.msg)),
        };
        ev(self.name, "end", id, "");
        r
    }
}
/// Two hops.
pub struct Fwd2 {
    pub via: ActorRef<R>,
    pub inner: Fwd,
    pub how: How,
}
impl Message<Fwd2> for R {
    type Reply = ForwardedReply<Fwd, ForwardedReply<M, Reply1>>;
    async fn handle(&mut self, f: Fwd2, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let id = f.inner.msg.id as i64;
        ev(self.name, "begin", id, "");
        let r = match f.how {
            How::Wait => ctx.forward(&f.via, f.inner).await,
            How::Try => ctx.try_forward(&f.via, f.inner),
            How::Block => tokio::task::block_in_place(|| ctx.blocking_forward(&f.via, f.inner)),
        };
        ev(self.name, "end", id, "");
        r
    }
}
/// Three hops.
pub struct Fwd3 {
    pub via: ActorRef<R>,
    pub inner: Fwd2,
}
impl Message<Fwd3> for R {
    type Reply = ForwardedReply<Fwd2, ForwardedReply<Fwd, ForwardedReply<M, Reply1>>>;
    async fn handle(&mut self, f: Fwd3, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        ctx.forward(&f.via, f.inner).await
    }
}
pub fn nested1(e: SendError<M, TErr>) -> String {
    back(e)
}
pub fn fwd_text(r: Result<u32, SendError<Fwd, SendError<M, TErr>>>) -> String {
    match r {
        Ok(v) => format!("ok{v}"),
        Err(SendError::HandlerError(e)) => format!("h:{}", back(e)),
        Err(e) => err_text(&e),
    }
}
pub fn fwd2_text(r: Result<u32, SendError<Fwd2, SendError<Fwd, SendError<M, TErr>>>>) -> String {
    match r {
        Ok(v) => format!("ok{v}"),
        Err(SendError::HandlerError(SendError::HandlerError(e))) => format!("h:h:{}", back(e)),
        Err(SendError::HandlerError(SendError::ActorNotRunning(f))) => format!("h:NotRunning#{}", f.msg.id),
        Err(SendError::HandlerError(SendError::MailboxFull(f))) => format!("h:Full#{}", f.msg.id),
        Err(SendError::HandlerError(e)) => format!("h:{}", err_text(&e)),
        Err(e) => err_text(&e),
    }
}

/// Hands the reply sender out through a slot, or answers by other means.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Deleg {
    /// a spawned task answers
    Task,
    /// answers before returning from the handler
    Now,
    /// a spawned task drops the sender
    DropIt,
    /// the handler drops the sender
    DropNow,
    /// answers through `ctx.reply`
    CtxReply,
    /// a spawned task answers with an error
    TaskErr,
    /// the handler panics after taking the sender
    Panic,
    /// takes the sender, forwards it raw with `ask().forward`
    Raw(How),
    /// the same with a mailbox timeout
    RawTimed(u64),
}
pub struct D {
    pub id: u32,
    pub how: Deleg,
    pub to: Option<ActorRef<T>>,
    pub k: K2,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K2 {
    Ok,
    Yield,
    Err,
    Panic,
}
pub fn m_k2(id: u32, k: K2) -> M {
    match k {
        K2::Ok => m(id),
        K2::Yield => m_yield(id, 1),
        K2::Err => m_err(id),
        K2::Panic => m_panic(id),
    }
}
impl Message<D> for R {
    type Reply = DelegatedReply<Reply1>;
    async fn handle(&mut self, d: D, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        ev(self.name, "begin", d.id as i64, "");
        let id = d.id;
        let name = self.name;
        if d.how == Deleg::CtxReply {
            let r = ctx.reply(Ok(id + 1000));
            yield_now().await;
            ev(name, "end", id as i64, "");
            return r;
        }
        let (r, tx) = ctx.reply_sender();
        ev(name, "sender", id as i64, if tx.is_some() { "some" } else { "none" });
        match d.how {
            Deleg::Task | Deleg::DropIt | Deleg::TaskErr => {
                client("delegate", async move {
                    yield_now().await;
                    if let Some(tx) = tx {
                        match d.how {
                            Deleg::Task => {
                                ev("delegate", "answer", id as i64, "");
                                tx.send(Ok(id + 1000))
                            }
                            Deleg::TaskErr => tx.send(Err(TErr(id))),
                            _ => drop(tx),
                        }
                    }
                });
            }
            Deleg::Now => {
                if let Some(tx) = tx {
                    tx.send(Ok(id + 1000));
                }
            }
            Deleg::DropNow => drop(tx),
            Deleg::Panic => {
                drop(tx);
                panic!("router panics")
            }
            Deleg::Raw(_) | Deleg::RawTimed(_) => {
                let to = d.to.unwrap();
                if let Some(tx) = tx {
                    let q = to.ask(m_k2(id, d.k));
                    let e = match d.how {
                        Deleg::Raw(How::Try) => q.try_forward(tx),
                        Deleg::Raw(How::Block) => tokio::task::block_in_place(|| q.blocking_forward(tx)),
                        Deleg::RawTimed(to) => q.mailbox_timeout(Duration::from_millis(to)).forward(tx).await,
                        _ => q.forward(tx).await,
                    };
                    match e {
                        Ok(()) => ev(name, "fwd", id as i64, "ok"),
                        Err(e) => {
                            let (s, tx) = back2(e);
                            ev(name, "fwd", id as i64, s);
                            if let Some(tx) = tx {
                                tx.send(Err(TErr(555)));
                            }
                        }
                    }
                }
            }
            Deleg::CtxReply => unreachable!(),
        }
        ev(name, "end", id as i64, "");
        r
    }
}
