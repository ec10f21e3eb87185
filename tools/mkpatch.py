# mkpatch.py: the edits behind the seeded bugs, applied to /tmp/seedrepo; writes seeded/<id>/patch.diff
import subprocess,sys
R='/tmp/seedrepo/'
def sub(f,old,new,n=1):
    s=open(R+f).read()
    assert s.count(old)>=1,(f,old)
    if n: s=s.replace(old,new,n)
    else: s=s.replace(old,new)
    open(R+f,'w').write(s)
B={}
def bug(f): B[f.__name__.replace('_','-')]=f
@bug
def self_msg_order(): sub('src/actor/kind.rs','if !sent_within_actor && !self.finished_startup','if !self.finished_startup')
@bug
def recipient_timeout_ignored():
    s=open(R+'src/request/tell.rs').read()
    i=s.index("IntoFuture for RecipientTellRequest")
    s=s[:i]+s[i:].replace('self.mailbox_timeout.into())','None)',1)
    open(R+'src/request/tell.rs','w').write(s)
@bug
def id_race():
    sub('src/actor/id.rs','''        ActorID::new(
            ACTOR_COUNTER
                .fetch_add(1, Ordering::Relaxed)
                .try_into()
                .unwrap(),
        )''','''        let sequence_id = ACTOR_COUNTER.load(Ordering::Relaxed);
        ACTOR_COUNTER.store(sequence_id + 1, Ordering::Relaxed);
        ActorID::new(sequence_id.try_into().unwrap())''')
@bug
def chain_stops():
    sub('src/actor.rs','''                ActorStopReason::Normal => Ok(ControlFlow::Continue(())),
                ActorStopReason::Killed
                | ActorStopReason::Panicked(_)
                | ActorStopReason::LinkDied { .. } => {''','''                ActorStopReason::Normal | ActorStopReason::LinkDied { .. } => {
                    Ok(ControlFlow::Continue(()))
                }
                ActorStopReason::Killed | ActorStopReason::Panicked(_) => {''')
@bug
def link_signal_lost():
    sub('src/mailbox.rs','''                tx.send(Signal::LinkDied { id, reason })
                    .await
                    .map_err(|_| SendError::ActorNotRunning(()))
''','''                tx.try_send(Signal::LinkDied { id, reason })
                    .map_err(|_| SendError::ActorNotRunning(()))
''')
@bug
def early_close():
    sub('src/actor/spawn.rs','''    let mut actor = state.shutdown().await;
''','''    let mut actor = {
        mailbox_rx.close();
        state.shutdown().await
    };
''')
@bug
def panic_decision():
    sub('src/actor/kind.rs','self.state.on_panic(self.actor_ref.clone(), err)','self.state.on_panic(self.actor_ref.clone(), err.clone())')
    sub('src/actor/kind.rs','Ok(Ok(ControlFlow::Break(reason))) => ControlFlow::Break(reason),','Ok(Ok(ControlFlow::Break(_))) => {\n                        ControlFlow::Break(ActorStopReason::Panicked(err))\n                    }')
@bug
def forward_err_lost():
    sub('src/message.rs','''                    .try_forward(tx.cast())
                    .map_err(|err| {
                        err.map_msg(|(msg, tx)| {
                            self.reply = Some(tx.cast());
                            msg
                        })
                    });''','''                    .try_forward(tx.cast())
                    .map_err(|err| err.map_msg(|(msg, _tx)| msg));''')
@bug
def stream_item_dropped():
    sub('src/actor/actor_ref.rs','''                                actor_ref.tell(StreamMessage::Next(msg)).send().await?;''','''                                let res = actor_ref.tell(StreamMessage::Next(msg)).try_send();
                                if let Err(err @ SendError::ActorNotRunning(_)) = res {
                                    return Err(err);
                                }''')
@bug
def links_keep_alive():
    sub('src/actor/actor_ref.rs','''        Box::new(self.mailbox_sender.downgrade())
    }''','''        Box::new(self.mailbox_sender.clone())
    }''')
@bug
def registry_bad_type():
    sub('src/registry.rs','''            .map(|actor_ref| {
                actor_ref
                    .downcast_ref()
                    .cloned()
                    .ok_or(RegistryError::BadActorType)
            })
            .transpose()''','''            .map(|actor_ref| Ok(actor_ref.downcast_ref().cloned()))
            .unwrap_or(Ok(None))''')
@bug
def weak_recipient_count():
    s=open(R+'src/actor/actor_ref.rs').read()
    i=s.index('impl<A, M> WeakMessageHandler<M> for WeakActorRef<A>')
    s=s[:i]+s[i:].replace('''        self.strong_count()''','''        self.weak_count()''',1)
    open(R+'src/actor/actor_ref.rs','w').write(s)
@bug
def kill_waits():
    s=open(R+'src/actor/spawn.rs').read()
    s=s.replace('''    let reason = match start_res {
        Ok(()) => Abortable::new(
            abortable_actor_loop(&mut state, &mut mailbox_rx),
            abort_registration,
        )
        .await
        .unwrap_or(ActorStopReason::Killed),''','''    let reason = match start_res {
        Ok(()) => {
            let killed = Abortable::new(futures::future::pending::<()>(), abort_registration);
            abortable_actor_loop(&mut state, &mut mailbox_rx, killed).await
        }''')
    s=s.replace('''    mailbox_rx: &mut MailboxReceiver<A>,
) -> ActorStopReason
where
    A: Actor,
    S: ActorState<A>,
{
    loop {
        let reason = recv_mailbox_loop(state, mailbox_rx).await;''','''    mailbox_rx: &mut MailboxReceiver<A>,
    mut killed: Abortable<futures::future::Pending<()>>,
) -> ActorStopReason
where
    A: Actor,
    S: ActorState<A>,
{
    loop {
        let reason = recv_mailbox_loop(state, mailbox_rx, &mut killed).await;''')
    s=s.replace('''    mailbox_rx: &mut MailboxReceiver<A>,
) -> ActorStopReason
where
    A: Actor,
    S: ActorState<A>,
{
    loop {
        match state.next(mailbox_rx).await {''','''    mailbox_rx: &mut MailboxReceiver<A>,
    killed: &mut Abortable<futures::future::Pending<()>>,
) -> ActorStopReason
where
    A: Actor,
    S: ActorState<A>,
{
    loop {
        let signal = tokio::select! {
            biased;
            _ = &mut *killed => return ActorStopReason::Killed,
            signal = state.next(mailbox_rx) => signal,
        };
        match signal {''')
    open(R+'src/actor/spawn.rs','w').write(s)
@bug
def ask_timeout_not_applied():
    s=open(R+'src/request/ask.rs').read()
    i=s.index('pub async fn enqueue'); i=s.index('MailboxSender::Unbounded(tx) =>',i); j=s.index('let reply = match',i); k=s.index('};',j)+2
    s=s[:j]+'let reply = rx.await?;'+s[k:]
    open(R+'src/request/ask.rs','w').write(s)
for i in sys.argv[1:]:
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    B[i]()
    d=subprocess.check_output(['git','-C',R,'diff']).decode()
    assert d
    open(f'/verif/seeded/{i}/patch.diff','w').write(d)
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
