# (id, properties that must notice, [(file, old, new, occurrence (0-based) or None for all)])
K='src/actor/kind.rs'; S='src/actor/spawn.rs'; R='src/actor/actor_ref.rs'; MB='src/mailbox.rs'; AK='src/request/ask.rs'; TL='src/request/tell.rs'; MS='src/message.rs'
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
m('link-one-way','P13',(R,'sibbling_links.insert(self.id, Link::Local(self.weak_signal_mailbox()));','',0))
m('blocking-link-one-way','P13 P15',(R,'sibbling_links.insert(self.id, Link::Local(self.weak_signal_mailbox()));','let _ = &mut sibbling_links;',1))
m('unlink-one-way','P13 P15',(R,'sibbling_links.remove(&self.id);','let _ = &mut sibbling_links;',0))
m('blocking-unlink-one-way','P13 P15',(R,'sibbling_links.remove(&self.id);','let _ = &mut sibbling_links;',1))
m('link-lock-order','P15 P02 P13',(R,'if self.id.sequence_id() < sibbling_ref.id.sequence_id() {','if true {',0))
m('link-lock-order-blocking','P15',(R,'if self.id.sequence_id() < sibbling_ref.id.sequence_id() {','if true {',1))
m('startup-err-no-link-notice','P13 P22',(S,'    let reason = match start_res {','    let started = start_res.is_ok();\n    let reason = match start_res {',0),(S,'        for (link_actor_id, link) in links.drain() {','        for (link_actor_id, link) in links.drain().filter(|_| state_started) {',0),(S,'    let mut actor = state.shutdown().await;','    let state_started = started;\n    let mut actor = state.shutdown().await;',0))
m('permits-one','P07',(S,'.add_permits(Semaphore::MAX_PERMITS);','.add_permits(2);',0))
m('startup-err-not-set-before-permits','P07',(S,'''    match &start_res {
        Ok(()) => {
            actor_ref
                .startup_error''','''    actor_ref
        .startup_semaphore
        .add_permits(Semaphore::MAX_PERMITS / 2);
    match &start_res {
        Ok(()) => {
            actor_ref
                .startup_error''',0),(S,'''    actor_ref
        .startup_semaphore
        .add_permits(Semaphore::MAX_PERMITS);
''','',0))
m('on-stop-skipped-on-start-err','P22 P11 P07',(S,'''    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
        .catch_unwind()
        .await
        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
        .map_err(PanicError::new_from_panic_any)
        .and_then(convert::identity);''','''    let on_stop_res = if matches!(actor_ref.startup_error().get(), Some(Some(_))) {
        Ok(())
    } else {
        AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
            .catch_unwind()
            .await
            .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
            .map_err(PanicError::new_from_panic_any)
            .and_then(convert::identity)
    };''',0),(R,'impl<A: Actor> WeakActorRef<A> {','impl<A: Actor> WeakActorRef<A> {\n    pub(crate) fn startup_error(&self) -> &Arc<OnceLock<Option<PanicError>>> { &self.startup_error }',0))
m('start-err-reason-normal','P16 P22 P13',(S,'let reason = ActorStopReason::Panicked(err);','let reason = ActorStopReason::Panicked(err); let reason = if links.try_lock().map(|l| l.is_empty()).unwrap_or(false) { ActorStopReason::Normal } else { reason };',0))
m('shutdown-error-lost','P11 P22',(S,'''            if let Some(actor_ref) = actor_ref.upgrade() {
                actor_ref
                    .shutdown_error
                    .set(Some(err))''','''            if let Some(actor_ref) = actor_ref.upgrade() {
                actor_ref
                    .shutdown_error
                    .set(if matches!(reason, ActorStopReason::Killed) { None } else { Some(err) })''',0))
m('kill-not-during-on-panic','P09 P12',(S,'''    let reason = match start_res {
        Ok(()) => Abortable::new(
            abortable_actor_loop(&mut state, &mut mailbox_rx),
            abort_registration,
        )
        .await
        .unwrap_or(ActorStopReason::Killed),''','''    let reason = match start_res {
        Ok(()) => {
            let mut abort_registration = Some(abort_registration);
            loop {
                let reason = match abort_registration.take() {
                    Some(registration) => match Abortable::new(recv_mailbox_loop(&mut state, &mut mailbox_rx), registration).await {
                        Ok(reason) => reason,
                        Err(_) => break ActorStopReason::Killed,
                    },
                    None => recv_mailbox_loop(&mut state, &mut mailbox_rx).await,
                };
                if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
                    break reason;
                }
            }
        }''',0))
m('link-died-after-stop-order','P14 P16',(K,'ControlFlow::Break(ActorStopReason::LinkDied { id, reason })','{ let _ = id; ControlFlow::Break(*reason) }',0))
m('on-panic-break-reason-lost','P12 P16',(K,'Ok(Ok(ControlFlow::Break(reason))) => ControlFlow::Break(reason),','Ok(Ok(ControlFlow::Break(_))) => ControlFlow::Break(ActorStopReason::Normal),',0))
m('on-panic-panics','P12',(K,'''                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
                        PanicError::new_from_panic_any(err),
                    )),
                }
            }
            ActorStopReason::LinkDied''','''                    Err(_) => ControlFlow::Continue(()),
                }
            }
            ActorStopReason::LinkDied''',0))
m('reply-err-continues','P12',(K,'Ok(Err(err)) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(err))), // The reply was an error','Ok(Err(err)) => { drop(err); ControlFlow::Continue(()) }',0))
m('link-hook-err-continues','P14 P12',(K,'''            Ok(Err(err)) => {
                ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(Box::new(err))))
            }
            Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
                PanicError::new_from_panic_any(err),
            )),
        }
    }

    #[inline]
    async fn handle_stop''','''            Ok(Err(_)) => ControlFlow::Continue(()),
            Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
                PanicError::new_from_panic_any(err),
            )),
        }
    }

    #[inline]
    async fn handle_stop''',0))
m('link-entry-removed-before-hook-not-at-all','P13 P14 P15',(K,'links.remove(&id);','',0))
m('stop-drops-buffered','P08 P06',(K,'if self.startup_buffer.is_empty() {','if true {',0))
m('buffered-reversed','P06',(K,'self.startup_buffer.pop_front()','self.startup_buffer.pop_back()',0))
m('weak-upgrade-new-links','P13 P20 P10',(R,'links: self.links.clone(),','links: Default::default(),',3))
m('clone-new-links','P13 P20 P15',(R,'links: self.links.clone(),','links: Default::default(),',2))
m('is-current-wrong','P17',(R,'.unwrap_or(false)','.unwrap_or(true)',0))
m('alive-by-abort','P11 P09 P04',(R,'!self.mailbox_sender.is_closed()','!self.mailbox_sender.is_closed() && !self.abort_handle.is_aborted()',0))
m('stream-finish-lost','P19',(R,'None => break,','None => { if actor_ref.strong_count() > 1 { break } else { return Ok(stream) } }',0))
m('stream-holds-after-stop','P19',(R,'_ = actor_ref.wait_for_shutdown() => {\n                        return Ok(stream);','_ = std::future::pending::<()>() => {\n                        return Ok(stream);',0))
m('forward-tell-lost','P18',(MS,'''            None => {
                let res = actor_ref
                    .tell(message)
                    .send()''','''            None => {
                let res = actor_ref
                    .tell(message)
                    .mailbox_timeout(std::time::Duration::from_secs(5))
                    .send()''',0))
m('forward-blocking-err-lost','P18',(MS,'''                    .blocking_forward(tx.cast())
                    .map_err(|err| {
                        err.map_msg(|(msg, tx)| {
                            self.reply = Some(tx.cast());
                            msg
                        })
                    });''','''                    .blocking_forward(tx.cast())
                    .map_err(|err| err.map_msg(|(msg, _tx)| msg));''',0))
m('ctx-reply-dup','P12 P03 P18',(MS,'''            if let Some(tx) = ctx.reply.take() {
                tx.send(reply.into_value());
                Ok(())''','''            if let Some(tx) = ctx.reply.take() {
                let err = reply.into_any_err();
                drop(tx);
                match err { Some(err) => Err(err), None => Ok(()) }''',0))
m('delegated-err-hidden','P12 P18',(MS,'''                match reply.into_any_err() {
                    Some(err) => Err(err),
                    None => Ok(()),
                }''','''                drop(reply);
                Ok(())''',0))
m('ask-mailbox-timeout-as-reply','P05',(AK,'''                    Some(timeout) => tokio::time::timeout(timeout, rx).await??,
                    None => rx.await?,
                };
                match reply {
                    Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
                    Err(err) => Err(<A::Reply as Reply>::downcast_err(err)),
                }
            }
            MailboxSender::Unbounded(tx) => {
                tx.send(signal)?;
''','''                    Some(timeout) => tokio::time::timeout(timeout * 2, rx).await??,
                    None => rx.await?,
                };
                match reply {
                    Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
                    Err(err) => Err(<A::Reply as Reply>::downcast_err(err)),
                }
            }
            MailboxSender::Unbounded(tx) => {
                tx.send(signal)?;
''',1))
m('enqueue-sent-lazily','P01 P03 P05',(AK,'tx.try_send(signal).map_err(enqueue_err::<M, _>)?;\n\n                async move {','let tx = tx.clone();\n                if tx.capacity() == 0 { tx.try_send(signal).map_err(enqueue_err::<M, _>)?; return Err(SendError::MailboxFull(())); }\n                async move {\n                    let _ = tx.send(signal).await;',0))
m('try-forward-within','P06 P18 P17',(AK,'sent_within_actor: self.actor_ref.is_current(),','sent_within_actor: true,',2))
m('enqueue-within','P06',(AK,'sent_within_actor: self.actor_ref.is_current(),','sent_within_actor: false,',1))
m('ask-blocking-within','P06',(AK,'sent_within_actor: self.actor_ref.is_current(),','sent_within_actor: true,',5))
m('blocking-enqueue-within','P06',(AK,'sent_within_actor: self.actor_ref.is_current(),','sent_within_actor: true,',7))
m('forward-timeout-drops-reply','P18 P05',(AK,'SendError::Timeout(Some(unforward(signal)))','{ drop(unforward::<A, M, <A::Reply as Reply>::Value>(signal)); SendError::Timeout(None) }',0))
m('unbounded-closed','P20',(MB,'MailboxSender::Unbounded(tx) => tx.weak_count(),','MailboxSender::Unbounded(tx) => tx.strong_count(),',0))
m('stop-signal-nonblocking','P08',(R,'''        self.mailbox_sender
            .send(Signal::Stop)
            .await
            .map_err(|_| SendError::ActorNotRunning(()))''','''        match &self.mailbox_sender {
            MailboxSender::Bounded(tx) => tx
                .try_send(Signal::Stop)
                .map_err(|_| SendError::ActorNotRunning(())),
            MailboxSender::Unbounded(tx) => tx
                .send(Signal::Stop)
                .map_err(|_| SendError::ActorNotRunning(())),
        }''',0))
m('links-not-drained','P13',(S,'for (link_actor_id, link) in links.drain() {','for (link_actor_id, link) in links.drain().take(2) {',0))
m('killed-told-as-normal','P13 P16 P14',(S,'''                Link::Local(mailbox) => {
                    let reason = reason.clone();''','''                Link::Local(mailbox) => {
                    let reason = if start_failed { ActorStopReason::Normal } else { reason.clone() };''',0),(S,'    let reason = match start_res {','    let start_failed = start_res.is_err();\n    let reason = match start_res {',0))
m('spawn-thread-no-id','P17 P06',(S,'.spawn(move || handle.block_on(self.run(actor)))','.spawn(move || { let id = self.actor_ref.id(); let _ = id; handle.block_on(run_actor_lifecycle::<A, ActorBehaviour<A>>(actor, self.actor_ref, self.mailbox_rx, self.abort_registration)) })',0))
m('drain-skipped','P10 P03 P02 P09',(S,'''    mailbox_rx.close();
    while mailbox_rx.recv().await.is_some() {}
''','''    mailbox_rx.close();
''',0))
m('error-hook-twice','P22',(S,'            invoke_actor_error_hook(&err);','            invoke_actor_error_hook(&err);\n            invoke_actor_error_hook(&err);',0))
m('error-hook-missing','P22',(S,'            invoke_actor_error_hook(&err);','',0))
m('start-hook-missing','P22',(S,'            invoke_actor_error_hook(err);','',0))
