W='src/remote/swarm.rs'; I='src/remote/_internal.rs'; RM='src/remote.rs'; R='src/actor/actor_ref.rs'; S='src/actor/spawn.rs'; ID='src/actor/id.rs'; ER='src/error.rs'; K='src/actor/kind.rs'; MB='src/mailbox.rs'; AK='src/request/ask.rs'; TL='src/request/tell.rs'
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
# outcomes
m('r-immediate-swapped','P50',(RM,'''    if immediate {
        (fns.try_tell)''','''    if immediate && mailbox_timeout.is_some() {
        (fns.try_tell)''',0))
m('r-try-ask-no-timeout','P50',(RM,'(fns.try_ask)(actor_id, payload, reply_timeout).await','{ let _ = reply_timeout; (fns.try_ask)(actor_id, payload, mailbox_timeout).await }',0))
m('r-ask-timeouts-swapped','P50',(RM,'(fns.ask)(actor_id, payload, mailbox_timeout, reply_timeout).await','(fns.ask)(actor_id, payload, reply_timeout, mailbox_timeout).await',0))
m('r-tell-timeout-lost','P50',(I,'''        .tell(msg)
        .mailbox_timeout_opt(mailbox_timeout)''','''        .tell(msg)
        .mailbox_timeout_opt(mailbox_timeout.filter(|t| !t.is_zero()))''',0))
m('r-reply-unnamed','P50',(I,'Ok(reply) => Ok(rmp_serde::to_vec_named(&reply)','Ok(reply) => Ok(rmp_serde::to_vec(&reply)',0))
m('r-handler-err-unnamed','P50',(I,'.map_err(|err| match rmp_serde::to_vec_named(&err) {','.map_err(|err| match rmp_serde::to_vec(&err) {',1))
m('r-decode-before-lookup','P50',(I,'''            .ok_or(RemoteSendError::BadActorType)?
            .clone()
    };
    let msg: M''','''            .ok_or(RemoteSendError::ActorNotRunning)?
            .clone()
    };
    let msg: M''',0))
m('r-registry-lock-held','P50 P53',(I,'''    let actor_ref = {
        let remote_actors = REMOTE_REGISTRY.lock().await;
        remote_actors
            .get(&actor_id)
            .ok_or(RemoteSendError::ActorNotRunning)?
            .actor_ref
            .downcast_ref::<ActorRef<A>>()
            .ok_or(RemoteSendError::BadActorType)?
            .clone()
    };
    let msg: M = rmp_serde::decode::from_slice(&msg)
        .map_err(|err| RemoteSendError::DeserializeMessage(err.to_string()))?;

    let res = actor_ref
        .tell(msg)
        .mailbox''','''    let remote_actors = REMOTE_REGISTRY.lock().await;
    let actor_ref = remote_actors
            .get(&actor_id)
            .ok_or(RemoteSendError::ActorNotRunning)?
            .actor_ref
            .downcast_ref::<ActorRef<A>>()
            .ok_or(RemoteSendError::BadActorType)?
            .clone();
    let msg: M = rmp_serde::decode::from_slice(&msg)
        .map_err(|err| RemoteSendError::DeserializeMessage(err.to_string()))?;

    let res = actor_ref
        .tell(msg)
        .mailbox''',0))
m('r-ser-reply-as-handler','P50',(I,'.map_err(|err| RemoteSendError::SerializeReply(err.to_string()))?','.map_err(|err| RemoteSendError::SerializeMessage(err.to_string()))?',0))
m('r-try-ask-ser-err','P50',(I,'Err(err) => RemoteSendError::SerializeHandlerError(err.to_string()),','Err(err) => RemoteSendError::SerializeReply(err.to_string()),',1))
# swarm
m('w-local-ask-network','P50 P52',(W,'if peer_id == *swarm.local_peer_id() {','if peer_id == *swarm.local_peer_id() && !immediate {',0))
m('w-local-tell-network','P50 P52',(W,'if peer_id == *swarm.local_peer_id() {','if peer_id == *swarm.local_peer_id() && mailbox_timeout.is_none() {',1))
m('w-get-query-kept','P52',(W,'if let Some(tx) = self.get_queries.remove(&id) {\n                        let _ = tx.send(Err(err));','if let Some(tx) = self.get_queries.drain().next().map(|(_, tx)| tx) {\n                        let _ = tx.send(Err(err));',0))
m('w-put-fail-ignored','P52',(W,'''kad::QueryResult::PutRecord(res @ Err(_)) => {
                    if let Some(tx) = self.put_queries.remove(&id) {
                        let _ = tx.send(res);
                    }''','''kad::QueryResult::PutRecord(res @ Err(_)) => {
                    if let Some(tx) = self.put_queries.remove(&id) {
                        if !matches!(res, Err(kad::PutRecordError::Timeout { .. })) { let _ = tx.send(res); } else { std::mem::forget(tx); }
                    }''',0))
m('w-put-fail-as-ok','P52',(W,'''                Err(kad::PutRecordError::Timeout { .. }) => Err(RegistryError::Timeout),
            }
        }
    }

    /// Unregisters''','''                Err(kad::PutRecordError::Timeout { .. }) => Ok(()),
            }
        }
    }

    /// Unregisters''',0))
m('w-unreg-timeout','P52',(W,'Err(kad::PutRecordError::Timeout { .. }) => Err(RegistryError::Timeout),','Err(kad::PutRecordError::Timeout { .. }) => Ok(()),',1))
m('w-lookup-notfound-err','P52',(W,'Err(kad::GetRecordError::NotFound { .. }) => Ok(None),','Err(kad::GetRecordError::NotFound { .. }) => Err(RegistryError::Timeout),',0))
m('w-lookup-empty','P52',(W,'if record.value.is_empty() {','if record.value.is_empty() && record.publisher.is_none() {',0))
m('w-lookup-type','P52',(W,'if A::REMOTE_ID != remote_id {','if !remote_id.starts_with(A::REMOTE_ID) {',0))
m('w-lookup-type2','P52',(W,'if A::REMOTE_ID != remote_id {','if !A::REMOTE_ID.starts_with(&*remote_id) {',1))
m('w-response-first','P52 P50',(W,'if let Some(tx) = self.requests.remove(&request_id) {\n                    let _ = tx.send(response);','if let Some(tx) = self.requests.remove(&request_id).or_else(|| { let k = self.requests.keys().next().copied(); k.and_then(|k| self.requests.remove(&k)) }) {\n                    let _ = tx.send(response);',0))
m('w-response-unwrap','P52',(W,'let _ = tx.send(response);','tx.send(response).unwrap();',0))
m('w-outbound-unwrap','P52',(W,'let _ = tx.send(SwarmResponse::OutboundFailure(err));','tx.send(SwarmResponse::OutboundFailure(err)).unwrap();',0))
m('w-put-unwrap','P52',(W,'''res @ Ok(kad::PutRecordOk { .. })) => {
                    if let Some(tx) = self.put_queries.remove(&id) {
                        let _ = tx.send(res);''','''res @ Ok(kad::PutRecordOk { .. })) => {
                    if let Some(tx) = self.put_queries.remove(&id) {
                        tx.send(res).unwrap();''',0))
m('w-get-unwrap','P52',(W,'let _ = tx.send(Ok(record));','tx.send(Ok(record)).unwrap();',0))
m('w-send-ask-unwrap','P52 P50',(W,'let _ = swarm.behaviour_mut().send_ask_response(channel, result);','swarm.behaviour_mut().send_ask_response(channel, result).unwrap();',0))
m('w-send-link-unwrap','P52 P53',(W,'let _ = swarm.behaviour_mut().send_link_response(channel, result);','swarm.behaviour_mut().send_link_response(channel, result).unwrap();',0))
m('w-send-died-unwrap','P52 P53',(W,'''let _ = swarm
                    .behaviour_mut()
                    .send_signal_link_died_response(channel, result);''','''swarm
                    .behaviour_mut()
                    .send_signal_link_died_response(channel, result).unwrap();''',0))
m('w-failure-timeout-as-closed','P50',(W,'OutboundFailure::Timeout => RemoteSendError::NetworkTimeout,','OutboundFailure::Timeout => RemoteSendError::ConnectionClosed,',0))
m('w-failure-io','P50',(W,'OutboundFailure::Io(err) => RemoteSendError::Io(Some(err)),','OutboundFailure::Io(_) => RemoteSendError::ConnectionClosed,',0))
m('w-failure-kept','P52',(W,'''                request_response::Event::OutboundFailure {
                    request_id, error, ..
                },
            )) => {
                if let Some(tx) = self.requests.remove(&request_id) {''','''                request_response::Event::OutboundFailure {
                    request_id, error, ..
                },
            )) => {
                if matches!(error, OutboundFailure::ConnectionClosed) { self.requests.retain(|id, _| *id == request_id); }
                if let Some(tx) = self.requests.remove(&request_id) {''',0))
m('w-unregister-local-first','P52',(W,'swarm.behaviour_mut().kademlia_remove_record(&key);','if res.is_err() { swarm.behaviour_mut().kademlia_remove_record(&key); }',0))
m('w-register-quorum','P52',(W,'''                        .kademlia_put_record(record, kad::Quorum::One);
                    match res {
                        Ok(query_id) => {
                            self.put_queries.insert(query_id, reply);
                        }
                        Err(_) => {
                            let _ = reply.send(Err(record_not_stored(key)));''','''                        .kademlia_put_record(record, kad::Quorum::One);
                    match res {
                        Ok(query_id) => {
                            self.put_queries.insert(query_id, reply);
                        }
                        Err(_) => {
                            let _ = reply.send(Ok(kad::PutRecordOk { key }));''',0))
m('w-dial-ignored','P52',(W,'let res = swarm.dial(opts);\n                let _ = reply.send(res);','let res = swarm.dial(opts);\n                if res.is_ok() { let _ = reply.send(res); } else { std::mem::forget(reply); }',0))
m('w-listen-server-mode','P52',(W,'let _ = swarm.disconnect_peer_id(peer_id);','swarm.disconnect_peer_id(peer_id).unwrap();',0))
m('w-register-before-answer','P52',(W,'''            match reply_rx.await {
                Ok(kad::PutRecordOk { .. }) => {
                    let signal_mailbox''','''            match reply_rx.await {
                Ok(kad::PutRecordOk { .. }) | Err(kad::PutRecordError::Timeout { .. }) if actor_ref.is_alive() => {
                    let signal_mailbox''',0),(W,'Err(kad::PutRecordError::Timeout { .. }) => Err(RegistryError::Timeout),\n            }\n        }\n    }\n\n    /// Unreg','Err(kad::PutRecordError::Timeout { .. }) => Err(RegistryError::Timeout),\n                Ok(_) => Ok(()),\n            }\n        }\n    }\n\n    /// Unreg',0))
m('w-lookup-local-unregistered','P52 P51',(W,'let Some(actor_ref_any) = registry.get(&actor_id) else {\n                return Ok(None);','let Some(actor_ref_any) = registry.get(&actor_id) else {\n                return Err(RegistryError::BadActorType);',0))
# links
m('l-disc-all-peers','P53',(W,'if linked_actor_id.peer_id() != Some(&peer_id) {','if linked_actor_id.peer_id() == Some(&crate::remote::ActorSwarm::get().unwrap().local_peer_id) {',0))
m('l-disc-first-only','P53',(W,'while (futures.next().await).is_some() {}','futures.next().await;',0))
m('l-link-remote-self-only','P53',(R,'''                Link::Remote(std::borrow::Cow::Borrowed(B::REMOTE_ID)),''','''                Link::Remote(std::borrow::Cow::Borrowed(A::REMOTE_ID)),''',0))
m('l-link-sibling-id','P53',(W,'''                        let result = remote::link(
                            actor_id,
                            actor_remote_id,
                            sibbling_id,
                            sibbling_remote_id,
                        )''','''                        let result = remote::link(
                            actor_id,
                            actor_remote_id.clone(),
                            sibbling_id,
                            { let _ = sibbling_remote_id; actor_remote_id },
                        )''',0))
m('l-unlink-local-half','P53',(R,'''        self.links.lock().await.remove(&sibbling_ref.id);
        remote::ActorSwarm::get()
            .ok_or(error::RemoteSendError::SwarmNotBootstrapped)?
            .unlink::<B>(self.id, sibbling_ref.id)
            .await
    }''','''        let res = remote::ActorSwarm::get()
            .ok_or(error::RemoteSendError::SwarmNotBootstrapped)?
            .unlink::<B>(self.id, sibbling_ref.id)
            .await;
        if res.is_ok() { self.links.lock().await.remove(&sibbling_ref.id); }
        res
    }''',0))
m('l-unlink-remote-noop','P53',(I,'actor_ref.links.lock().await.remove(&sibbling_id);','if actor_ref.is_alive() && sibbling_id.sequence_id() != 0 { actor_ref.links.lock().await.remove(&sibbling_id); }',0))
m('l-registry-kept','P53',(S,'remote::REMOTE_REGISTRY','let _ = || remote::REMOTE_REGISTRY',0))
# ids
m('i-len-u8','P51',(W,'bytes.get(1..1 + 8 + peer_id_bytes_len)?','bytes.get(1..1 + 8 + (peer_id_bytes_len & 0x3f))?',0))
m('i-eq-seq','P51 P53',(ID,'self.peer_id() == other.peer_id()','self.peer_id() == other.peer_id() || self.peer_id().is_none()',0))
m('i-be','P51',(ID,'bytes.extend(&self.sequence_id.to_le_bytes());','bytes.extend(&(self.sequence_id as u32 as u64 | (self.sequence_id >> 63 << 63)).to_le_bytes());',0))
m('i-default-peer','P51',(ID,'let peer_id = if bytes.len() > 8 {','let peer_id = if bytes.len() > 9 {',0))
m('i-seq','P51',(ID,'while let Some(byte) = seq.next_element()? {\n            bytes.push(byte);\n        }','while let Some(byte) = seq.next_element()? {\n            if bytes.len() < 46 { bytes.push(byte); }\n        }',0))
# errors
m('e-flatten','P50',(ER,'RemoteSendError::MailboxFull => RemoteSendError::MailboxFull,','RemoteSendError::MailboxFull => RemoteSendError::ReplyTimeout,',0))
