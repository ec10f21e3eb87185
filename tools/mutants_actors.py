P='actors/src/pool.rs'; B='actors/src/broker.rs'; U='actors/src/message_bus.rs'; S='actors/src/pubsub.rs'
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
m('pool-dead-counter-kept','P31',(P,'self.workers[i] = (worker_ref, Arc::new(()));','{ let load = self.workers[i].1.clone(); self.workers[i] = (worker_ref, load); }',0))
m('pool-max-load','P31',(P,'.min_by_key(','.max_by_key(',0))
m('pool-replace-first','P31',(P,'.find(|(_, (worker, _))| worker.id() == id)','.find(|(_, (worker, _))| !worker.is_alive() || worker.id() == id)',0))
m('pool-replace-not-linked','P31',(P,'let worker_ref = spawn_link_with_mailbox(&actor_ref, worker, mailbox).await;','let _ = &actor_ref; let worker_ref = kameo::actor::spawn_with_mailbox(worker, mailbox);',0))
m('pool-replace-push','P31',(P,'self.workers[i] = (worker_ref, Arc::new(()));','{ self.workers.swap_remove(i); self.workers.push((worker_ref.clone(), Arc::new(()))); self.workers.push((worker_ref, Arc::new(()))); self.workers.truncate(self.size + 1); }',0))
m('pool-dispatch-lost-on-dead','P30',(P,'''                                msg = m.msg;
                                reply_sender = None;
                            }''','''                                drop(m);
                                return WorkerReply::Forwarded;
                            }''',0),(P,'Dispatch(mut msg): Dispatch<M>','Dispatch(#[allow(unused_mut)] mut msg): Dispatch<M>',0))
m('pool-tell-reply-other','P30',(P,'self.actor_ref.ask(msg).await','{ let r = self.actor_ref.ask(msg).await; drop(_counter); r }',0))
m('pool-timeout','P30',(P,'self.actor_ref.ask(msg).await','self.actor_ref.ask(msg).reply_timeout(std::time::Duration::from_secs(30)).await',0))
m('pool-worker-trysend','P30',(P,'self.actor_ref.ask(msg).await','self.actor_ref.ask(msg).try_send().await',0))
m('pool-broadcast-live-only-len','P30 P31',(P,'''                .iter()
                .zip(''','''                .iter()
                .filter(|(w, _)| w.is_alive())
                .zip(''',0))
m('pool-broadcast-first-counter','P31',(P,'counter: Arc::downgrade(counter),','counter: { let _ = counter; Arc::downgrade(&self.workers[0].1) },',0))
m('pool-broadcast-skips-last','P30',(P,'std::iter::repeat_n(msg, self.workers.len())','std::iter::repeat_n(msg, self.workers.len().min(2))',0))
m('pool-err-as-stopped','P30',(P,'Ok(SendError::ActorNotRunning(msg)) => SendError::ActorNotRunning(msg),','Ok(SendError::ActorNotRunning(_)) => SendError::ActorStopped,',0))
m('broker-case','P33',(B,'case_sensitive: true,','case_sensitive: false,',0))
m('broker-sep','P33',(B,'require_literal_separator: true,','require_literal_separator: false,',0))
m('broker-dot','P33',(B,'require_literal_leading_dot: false,','require_literal_leading_dot: true,',0))
m('broker-first-pattern-only','P33',(B,'''        for (pattern, actor_id) in to_remove {
            self.unsubscribe''','''        if let Some((pattern, actor_id)) = to_remove.pop() {
            self.unsubscribe''',0))
m('broker-break-after-fail','P33',(B,'''                            let res = recipient.tell(message.clone()).try_send();
                            if let Err(SendError::ActorNotRunning(_)) = res {''','''                            let res = recipient.tell(message.clone()).try_send();
                            if let Err(SendError::MailboxFull(_)) = res { break; }
                            if let Err(SendError::ActorNotRunning(_)) = res {''',0))
m('broker-unsub-full','P33',(B,'''                            let res = recipient.tell(message.clone()).try_send();
                            if let Err(SendError::ActorNotRunning(_)) = res {''','''                            let res = recipient.tell(message.clone()).try_send();
                            if let Err(_) = res {''',0))
m('broker-unsub-timeout','P33',(B,'''                                .mailbox_timeout(duration)
                                .await;
                            if let Err(SendError::ActorNotRunning(_)) = res {''','''                                .mailbox_timeout(duration)
                                .await;
                            if res.is_err() {''',0))
m('broker-unsub-all-patterns','P33',(B,'''                                        .tell(Unsubscribe {
                                            topic: Some(pattern),''','''                                        .tell(Unsubscribe {
                                            topic: Some(pattern).filter(|p| p.as_str().len() > 1),''',0))
m('broker-unsub-none','P33',(B,'''                self.subscriptions.retain(|_, recipients| {
                    recipients.retain(|recipient| recipient.id() != actor_id);
                    !recipients.is_empty()
                });''','''                if let Some(pattern) = self
                    .subscriptions
                    .iter()
                    .find(|(_, r)| r.iter().any(|r| r.id() == actor_id))
                    .map(|(p, _)| p.clone())
                {
                    self.unsubscribe(&pattern, actor_id);
                }''',0))
m('broker-sub-dedupe-pattern','P33',(B,'self.subscriptions.entry(topic).or_default().push(recipient);','for (p, r) in &mut self.subscriptions { if *p != topic { r.retain(|x| x.id() != recipient.id()); } } self.subscriptions.entry(topic).or_default().push(recipient);',0))
m('broker-sub-replaces','P33',(B,'self.subscriptions.entry(topic).or_default().push(recipient);','self.subscriptions.insert(topic, vec![recipient]);',0))
m('broker-spawned-err-timeout','P33',(B,'''                                    .send()
                                    .await;
                                if let Err(SendError::ActorNotRunning(_)) = res {''','''                                    .send()
                                    .await;
                                if res.is_err() {''',0))
m('bus-unsub-timeout','P34',(U,'''                            .mailbox_timeout(duration)
                            .await;
                        if let Err(SendError::ActorNotRunning(_)) = res {''','''                            .mailbox_timeout(duration)
                            .await;
                        if res.is_err() {''',0))
m('bus-no-dead-removal','P34',(U,'''        for actor_id in to_remove {
            self.unsubscribe::<M>(&actor_id);
        }''','''        drop(to_remove);''',0))
m('bus-remove-type','P34',(U,'''            recipients.retain(|reg| &reg.actor_id != actor_id);
            if recipients.is_empty() {''','''            recipients.retain(|reg| &reg.actor_id != actor_id);
            if recipients.len() <= 1 {''',0))
m('bus-spawned-timeout-none','P34',(U,'''                                .tell(message)
                                .mailbox_timeout(duration)
                                .send()''','''                                .tell(message)
                                .mailbox_timeout(duration * 2)
                                .send()''',0))
m('bus-guaranteed-try','P34',(U,'let res = recipient.tell(message.clone()).await;','let res = recipient.tell(message.clone()).mailbox_timeout(std::time::Duration::from_secs(1)).await;',0))
m('bus-reverse','P34',(U,'.push(Registration::new(recipient));','.insert(0, Registration::new(recipient));',0))
m('pubsub-remove-on-any','P32',(S,'''                Err(SendError::MailboxFull(_))
                | Err(SendError::HandlerError(_))
                | Err(SendError::Timeout(_)) => {}''','''                Err(_) => {}''',0),(S,'Err(SendError::ActorNotRunning(_)) | Err(SendError::ActorStopped) => {','Err(SendError::ActorStopped) => {',0))
m('pubsub-trysend','P32',(S,'''            self.tell(msg)
                .send()
                .await
''','''            self.tell(msg)
                .try_send()
''',0))
m('pubsub-filter-once','P32',(S,'filter(&msg).then_some({','(filter(&msg) && filter(&msg)).then_some({',0))
m('pubsub-filter-kept','P32',(S,'''        self.subscribers
            .insert(actor_ref.id(), (Box::new(actor_ref), Box::new(|_| true)));''','''        self.subscribers
            .entry(actor_ref.id())
            .or_insert((Box::new(actor_ref), Box::new(|_| true)));''',0))
m('pubsub-seq-first-fail','P32',(S,'for (id, result) in results.into_iter() {','for (id, result) in results.into_iter().take(2) {',0))
