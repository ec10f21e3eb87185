From 6231a41a74691565d4bccadfdbe515f7547526bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 01/38] fix: stop an actor when its last ActorRef is dropped

The lifecycle moved two fields out of its own ActorRef, which left the strong
mailbox sender alive for as long as the actor ran, so an actor whose refs were
all dropped never stopped.
---
 src/actor/spawn.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index f468020..2668d55 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -458,9 +458,13 @@ where
     }
 
     let (actor_ref, links, startup_semaphore) = {
-        // Downgrade actor ref
+        // Downgrade actor ref. The strong ref must be dropped here as a whole: moving only some of its
+        // fields would leave its mailbox sender alive, and the actor would never notice its last ref drop.
         let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
+        let links = actor_ref.links.clone();
+        let startup_semaphore = actor_ref.startup_semaphore.clone();
+        drop(actor_ref);
+        (weak_actor_ref, links, startup_semaphore)
     };
 
     if let Err(err) = start_res {
-- 
2.43.0


From cb51cb892ea037f3e1730851bfa443f83ca378fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 02/38] fix: keep messages buffered during startup when one of
 them fails

---
 src/actor/kind.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2bd8e69..adbe3b9 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -1,4 +1,4 @@
-use std::{collections::VecDeque, mem, ops::ControlFlow, panic::AssertUnwindSafe};
+use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 
 use futures::{Future, FutureExt};
 
@@ -70,26 +70,17 @@ where
     }
 
     async fn next(&mut self, mailbox_rx: &mut MailboxReceiver<A>) -> Option<Signal<A>> {
+        if self.finished_startup {
+            // Signals buffered during startup come before anything left in the mailbox
+            if let Some(signal) = self.startup_buffer.pop_front() {
+                return Some(signal);
+            }
+        }
         self.state.next(self.actor_ref.clone(), mailbox_rx).await
     }
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
         self.finished_startup = true;
-        for signal in mem::take(&mut self.startup_buffer).drain(..) {
-            match signal {
-                Signal::Message {
-                    message,
-                    actor_ref,
-                    reply,
-                    sent_within_actor,
-                } => {
-                    self.handle_message(message, actor_ref, reply, sent_within_actor)
-                        .await?;
-                }
-                _ => unreachable!(),
-            }
-        }
-
         ControlFlow::Continue(())
     }
 
@@ -151,9 +142,13 @@ where
 
     #[inline]
     async fn handle_stop(&mut self) -> ControlFlow<ActorStopReason> {
-        match self.handle_startup_finished().await {
-            ControlFlow::Continue(_) => ControlFlow::Break(ActorStopReason::Normal),
-            ControlFlow::Break(reason) => ControlFlow::Break(reason),
+        self.finished_startup = true;
+        if self.startup_buffer.is_empty() {
+            ControlFlow::Break(ActorStopReason::Normal)
+        } else {
+            // Messages buffered during startup were sent before the stop signal
+            self.startup_buffer.push_back(Signal::Stop);
+            ControlFlow::Continue(())
         }
     }
 
-- 
2.43.0


From 1e09d57144c500c922b6fd96f8ec887fef8cfd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 03/38] fix: release startup waiters as soon as on_start has
 finished

---
 src/actor/spawn.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 2668d55..7d91e85 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -450,6 +450,11 @@ where
         }
     }
 
+    // Startup is over, whatever happens to the signal below
+    actor_ref
+        .startup_semaphore
+        .add_permits(Semaphore::MAX_PERMITS);
+
     let mut startup_finished = false;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
@@ -457,18 +462,16 @@ where
         startup_finished = true;
     }
 
-    let (actor_ref, links, startup_semaphore) = {
+    let (actor_ref, links) = {
         // Downgrade actor ref. The strong ref must be dropped here as a whole: moving only some of its
         // fields would leave its mailbox sender alive, and the actor would never notice its last ref drop.
         let weak_actor_ref = actor_ref.downgrade();
         let links = actor_ref.links.clone();
-        let startup_semaphore = actor_ref.startup_semaphore.clone();
         drop(actor_ref);
-        (weak_actor_ref, links, startup_semaphore)
+        (weak_actor_ref, links)
     };
 
     if let Err(err) = start_res {
-        startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
         let reason = ActorStopReason::Panicked(err);
         let mut state = S::new_from_actor(actor, actor_ref.clone());
         let reason = state
@@ -505,12 +508,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(
-            &mut state,
-            &mut mailbox_rx,
-            startup_semaphore,
-            startup_finished,
-        ),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
         abort_registration,
     )
     .await
@@ -597,7 +595,6 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: Arc<Semaphore>,
     startup_finished: bool,
 ) -> ActorStopReason
 where
@@ -610,7 +607,7 @@ where
         }
     }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &startup_semaphore).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -620,7 +617,6 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: &Semaphore,
 ) -> ActorStopReason
 where
     A: Actor,
@@ -629,7 +625,6 @@ where
     loop {
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
-                startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
                 }
-- 
2.43.0


From 70e9b9822318bb6d4e2f209d10bedf1de5936057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 04/38] fix: notify links when an actor fails to start

---
 src/actor/spawn.rs | 56 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 7d91e85..b67ef4a 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -471,48 +471,24 @@ where
         (weak_actor_ref, links)
     };
 
-    if let Err(err) = start_res {
-        let reason = ActorStopReason::Panicked(err);
-        let mut state = S::new_from_actor(actor, actor_ref.clone());
-        let reason = state
-            .on_shutdown(reason.clone())
-            .await
-            .break_value()
-            .unwrap_or(reason);
-        let mut actor = state.shutdown().await;
-        let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
-        match on_stop_res {
-            Ok(()) => {
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(None)
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-            Err(err) => {
-                let err = PanicError::new(Box::new(err));
-                invoke_actor_error_hook(&err);
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(Some(err))
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-        }
-        log_actor_stop_reason(id, name, &reason);
-        return (actor, reason);
-    }
-
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
-    let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
-        abort_registration,
-    )
-    .await
-    .unwrap_or(ActorStopReason::Killed);
+    let reason = match start_res {
+        Ok(()) => Abortable::new(
+            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
+            abort_registration,
+        )
+        .await
+        .unwrap_or(ActorStopReason::Killed),
+        Err(err) => {
+            let reason = ActorStopReason::Panicked(err);
+            state
+                .on_shutdown(reason.clone())
+                .await
+                .break_value()
+                .unwrap_or(reason)
+        }
+    };
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From 678e8e112d49e4b91ade1b958f60df1648a7f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 05/38] fix: stop_gracefully returns an error for a dead actor
 instead of panicking

---
 src/actor/actor_ref.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6dc7ee4..88018f9 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -208,7 +208,10 @@ where
     /// before it shuts down. Any new messages sent after the stop signal will be ignored.
     #[inline]
     pub async fn stop_gracefully(&self) -> Result<(), SendError> {
-        Ok(self.mailbox_sender.send(Signal::Stop).await?)
+        self.mailbox_sender
+            .send(Signal::Stop)
+            .await
+            .map_err(|_| SendError::ActorNotRunning(()))
     }
 
     /// Kills the actor immediately.
-- 
2.43.0


From b0593812b10ffb39c832dff18e3d15f6df1f2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 06/38] fix: enqueueing a message to a dead or full actor
 returns an error instead of panicking

---
 src/request/ask.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/request/ask.rs b/src/request/ask.rs
index fc3c652..07e3a4f 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -200,10 +200,12 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(enqueue_err::<M, _>)?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal).await.map_err(enqueue_err::<M, _>)?;
                     }
                 }
 
@@ -220,7 +222,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_err::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -408,7 +410,7 @@ where
 
         let fut = match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(enqueue_err::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -423,7 +425,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_err::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -553,7 +555,7 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal).map_err(enqueue_err::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -562,7 +564,7 @@ where
                 Ok(BlockingPendingReply { f })
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_err::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -589,6 +591,14 @@ where
     }
 }
 
+/// Converts the error of enqueuing a message of type `M`, whose message is not handed back.
+fn enqueue_err<M, T>(err: T) -> SendError
+where
+    SendError<M>: From<T>,
+{
+    SendError::<M>::from(err).map_msg(|_| ())
+}
+
 /// A pending reply from a previously enqueued ask request.
 ///
 /// The actor will not progress until this has been awaited or dropped.
-- 
2.43.0


From c8228cfdc7ec65786b2c6358ce63da78d59586f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 07/38] fix: forwarding to a dead or full actor returns an
 error instead of panicking

---
 src/request/ask.rs | 56 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/request/ask.rs b/src/request/ask.rs
index 07e3a4f..637a8fd 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -4,7 +4,10 @@ use std::{
     pin, task,
     time::Duration,
 };
-use tokio::sync::oneshot;
+use tokio::sync::{
+    mpsc::error::{SendTimeoutError, TrySendError},
+    oneshot,
+};
 
 #[cfg(feature = "remote")]
 use crate::{actor, remote};
@@ -269,16 +272,28 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(|err| match err {
+                                SendTimeoutError::Timeout(signal) => {
+                                    SendError::Timeout(Some(unforward(signal)))
+                                }
+                                SendTimeoutError::Closed(signal) => {
+                                    SendError::ActorNotRunning(unforward(signal))
+                                }
+                            })?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal)
+                            .await
+                            .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                     }
                 }
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
         }
@@ -309,11 +324,15 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(|err| match err {
+                    TrySendError::Full(signal) => SendError::MailboxFull(unforward(signal)),
+                    TrySendError::Closed(signal) => SendError::ActorNotRunning(unforward(signal)),
+                })?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
         }
@@ -501,11 +520,13 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
         }
@@ -591,6 +612,25 @@ where
     }
 }
 
+/// Takes the message and the reply sender back out of a signal which could not be forwarded.
+fn unforward<A, M, R>(signal: Signal<A>) -> (M, ReplySender<R>)
+where
+    A: Actor,
+    M: 'static,
+{
+    match signal {
+        Signal::Message {
+            message,
+            reply: Some(tx),
+            ..
+        } => match message.as_any().downcast() {
+            Ok(msg) => (*msg, ReplySender::new(tx)),
+            Err(_) => unreachable!("forwarded message has the wrong type"),
+        },
+        _ => unreachable!("forwarded signals are always messages with a reply sender"),
+    }
+}
+
 /// Converts the error of enqueuing a message of type `M`, whose message is not handed back.
 fn enqueue_err<M, T>(err: T) -> SendError
 where
-- 
2.43.0


From d25f72435b93fbf296335eae9cab69f79cc846a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 08/38] fix: errors of messages forwarded more than once reach
 the asker

---
 src/reply.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/reply.rs b/src/reply.rs
index 75d8d10..d9975c4 100644
--- a/src/reply.rs
+++ b/src/reply.rs
@@ -295,15 +295,8 @@ where
     /// The error is either from the inner `R`, or our outer `SendError`.
     /// We'll try both.
     fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
-        err.try_downcast::<N, R::Error>()
-            .map(|err| err.map_err(SendError::HandlerError))
-            .unwrap_or_else(|err| {
-                err.downcast::<M, SendError<M, R::Error>>().map_msg(|_| {
-                    unreachable!(
-                        "forwarded reply is only an error if it failed to forward the message"
-                    )
-                })
-            })
+        err.try_downcast::<N, Self::Error>()
+            .unwrap_or_else(|err| R::downcast_err::<N>(err).map_err(SendError::HandlerError))
     }
 }
 
-- 
2.43.0


From 34c4cdaf5bf4a34a37c53b476cdf80bb21dd3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:47 +0000
Subject: [PATCH 09/38] fix: drop messages whose send races with the end of the
 actor

---
 src/actor/spawn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index b67ef4a..5aff75f 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -565,6 +565,11 @@ where
         }
     }
 
+    // A message being sent right now could still end up in the mailbox after it was dropped, and would stay there
+    // for as long as its own actor ref keeps the mailbox alive. Wait for these sends and drop their messages.
+    mailbox_rx.close();
+    while mailbox_rx.recv().await.is_some() {}
+
     (actor, reason)
 }
 
-- 
2.43.0


From ad032febc1eb3a3c8333b1d988afef12fb44f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 10/38] fix: linking and unlinking two actors from both sides
 at once no longer deadlocks

---
 src/actor/actor_ref.rs | 44 +++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 88018f9..f9d2e8d 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -9,7 +9,7 @@ use std::{
 use dyn_clone::DynClone;
 use futures::{future::BoxFuture, stream::AbortHandle, FutureExt, Stream, StreamExt, TryFutureExt};
 use tokio::{
-    sync::{Mutex, Semaphore},
+    sync::{Mutex, MutexGuard, Semaphore},
     task::JoinHandle,
     task_local,
 };
@@ -519,8 +519,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -558,8 +557,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -642,8 +640,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -680,12 +677,39 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
 
+    /// Locks the links of both actors, always in the same order to avoid deadlocks.
+    async fn lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.lock().await;
+            (this_links, sibbling_ref.links.lock().await)
+        } else {
+            let sibbling_links = sibbling_ref.links.lock().await;
+            (self.links.lock().await, sibbling_links)
+        }
+    }
+
+    /// Blockingly locks the links of both actors, always in the same order to avoid deadlocks.
+    fn blocking_lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.blocking_lock();
+            (this_links, sibbling_ref.links.blocking_lock())
+        } else {
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            (self.links.blocking_lock(), sibbling_links)
+        }
+    }
+
     /// Unlinks the local actor with a previously linked remote actor.
     ///
     /// # Example
@@ -1359,6 +1383,8 @@ impl<A: Actor> fmt::Debug for WeakRecipient<A> {
 #[allow(missing_debug_implementations)]
 pub(crate) struct Links(Arc<Mutex<HashMap<ActorID, Link>>>);
 
+type LinksGuard<'a> = MutexGuard<'a, HashMap<ActorID, Link>>;
+
 impl ops::Deref for Links {
     type Target = Mutex<HashMap<ActorID, Link>>;
 
-- 
2.43.0


From 2cb1b551f7c7606c607f6a743b47908ec5612299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 11/38] fix: dying actors no longer wait for each other's full
 mailboxes

---
 src/actor/spawn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 5aff75f..a3da611 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -540,7 +540,6 @@ where
     let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
     log_actor_stop_reason(id, name, &reason);
 
-    while let Some(()) = link_notification_futures.next().await {}
     #[cfg(feature = "remote")]
     remote::REMOTE_REGISTRY.lock().await.remove(&id);
 
@@ -570,6 +569,10 @@ where
     mailbox_rx.close();
     while mailbox_rx.recv().await.is_some() {}
 
+    // Only now that the mailbox is closed: a linked actor's mailbox may be full, and stay full until it has noticed that
+    // this actor shut down.
+    while let Some(()) = link_notification_futures.next().await {}
+
     (actor, reason)
 }
 
-- 
2.43.0


From efeb00e2ff25198ba9708f5682368c01bd6a29ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 12/38] fix: panics of on_panic and on_stop no longer tear down
 the actor task

---
 src/actor/kind.rs  | 14 ++++++++++----
 src/actor/spawn.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index adbe3b9..5b1338c 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -158,12 +158,18 @@ where
             ActorStopReason::Normal => ControlFlow::Break(ActorStopReason::Normal),
             ActorStopReason::Killed => ControlFlow::Break(ActorStopReason::Killed),
             ActorStopReason::Panicked(err) => {
-                match self.state.on_panic(self.actor_ref.clone(), err).await {
-                    Ok(ControlFlow::Continue(())) => ControlFlow::Continue(()),
-                    Ok(ControlFlow::Break(reason)) => ControlFlow::Break(reason),
-                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
+                let res = AssertUnwindSafe(self.state.on_panic(self.actor_ref.clone(), err))
+                    .catch_unwind()
+                    .await;
+                match res {
+                    Ok(Ok(ControlFlow::Continue(()))) => ControlFlow::Continue(()),
+                    Ok(Ok(ControlFlow::Break(reason))) => ControlFlow::Break(reason),
+                    Ok(Err(err)) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
                         Box::new(err),
                     ))),
+                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                        PanicError::new_from_panic_any(err),
+                    )),
                 }
             }
             ActorStopReason::LinkDied { id, reason } => {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index a3da611..14a328c 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -537,7 +537,12 @@ where
         }
     }
 
-    let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
+    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+        .catch_unwind()
+        .await
+        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+        .map_err(PanicError::new_from_panic_any)
+        .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
     #[cfg(feature = "remote")]
@@ -553,7 +558,6 @@ where
             }
         }
         Err(err) => {
-            let err = PanicError::new(Box::new(err));
             invoke_actor_error_hook(&err);
             if let Some(actor_ref) = actor_ref.upgrade() {
                 actor_ref
-- 
2.43.0


From db0fbbc739e181d4d34b3d19c7efea2e515e16a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:01 +0000
Subject: [PATCH 13/38] fix: messages an actor sends itself during startup keep
 their priority when the mailbox is full

---
 src/actor/kind.rs  | 23 +++++++++++++++++++++--
 src/actor/spawn.rs | 15 +++++----------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 5b1338c..297e7b1 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -13,7 +13,11 @@ use crate::{
 use super::ActorID;
 
 pub(crate) trait ActorState<A: Actor>: Sized {
-    fn new_from_actor(actor: A, actor_ref: WeakActorRef<A>) -> Self;
+    fn new_from_actor(
+        actor: A,
+        actor_ref: WeakActorRef<A>,
+        startup_backlog: Option<usize>,
+    ) -> Self;
 
     fn next(
         &mut self,
@@ -52,6 +56,8 @@ pub(crate) struct ActorBehaviour<A: Actor> {
     actor_ref: WeakActorRef<A>,
     state: A,
     finished_startup: bool,
+    /// How many signals come before the end of startup, if there was no room in the mailbox to signal it.
+    startup_backlog: Option<usize>,
     startup_buffer: VecDeque<Signal<A>>,
 }
 
@@ -60,16 +66,29 @@ where
     A: Actor,
 {
     #[inline]
-    fn new_from_actor(actor: A, actor_ref: WeakActorRef<A>) -> Self {
+    fn new_from_actor(
+        actor: A,
+        actor_ref: WeakActorRef<A>,
+        startup_backlog: Option<usize>,
+    ) -> Self {
         ActorBehaviour {
             actor_ref,
             state: actor,
             finished_startup: false,
+            startup_backlog,
             startup_buffer: VecDeque::new(),
         }
     }
 
     async fn next(&mut self, mailbox_rx: &mut MailboxReceiver<A>) -> Option<Signal<A>> {
+        if let Some(backlog) = &mut self.startup_backlog {
+            if *backlog == 0 || mailbox_rx.is_empty() {
+                self.startup_backlog = None;
+                self.finished_startup = true;
+            } else {
+                *backlog -= 1;
+            }
+        }
         if self.finished_startup {
             // Signals buffered during startup come before anything left in the mailbox
             if let Some(signal) = self.startup_buffer.pop_front() {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 14a328c..35bc170 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -455,11 +455,12 @@ where
         .startup_semaphore
         .add_permits(Semaphore::MAX_PERMITS);
 
-    let mut startup_finished = false;
+    let mut startup_backlog = None;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
     {
-        startup_finished = true;
+        // There's no room for the signal: startup finishes after what is in the mailbox now
+        startup_backlog = Some(mailbox_rx.len());
     }
 
     let (actor_ref, links) = {
@@ -471,11 +472,11 @@ where
         (weak_actor_ref, links)
     };
 
-    let mut state = S::new_from_actor(actor, actor_ref.clone());
+    let mut state = S::new_from_actor(actor, actor_ref.clone(), startup_backlog);
 
     let reason = match start_res {
         Ok(()) => Abortable::new(
-            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
+            abortable_actor_loop(&mut state, &mut mailbox_rx),
             abort_registration,
         )
         .await
@@ -583,17 +584,11 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_finished: bool,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
-    if startup_finished {
-        if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-            return reason;
-        }
-    }
     loop {
         let reason = recv_mailbox_loop(state, mailbox_rx).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
-- 
2.43.0


From cf1cba115ede48bf3606f51c8d45a812f88836ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:03 +0000
Subject: [PATCH 14/38] fix: Recipient::downgrade returns a weak recipient
 instead of panicking

---
 src/actor/actor_ref.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index f9d2e8d..e2cb28b 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1360,7 +1360,7 @@ impl<M: Send + 'static> WeakRecipient<M> {
     }
 }
 
-impl<A: Actor> Clone for WeakRecipient<A> {
+impl<M: Send + 'static> Clone for WeakRecipient<M> {
     fn clone(&self) -> Self {
         WeakRecipient {
             handler: dyn_clone::clone_box(&*self.handler),
@@ -1368,7 +1368,7 @@ impl<A: Actor> Clone for WeakRecipient<A> {
     }
 }
 
-impl<A: Actor> fmt::Debug for WeakRecipient<A> {
+impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut d = f.debug_struct("WeakRecipient");
         d.field("id", &self.handler.id());
@@ -1441,7 +1441,9 @@ where
 
     #[inline]
     fn downgrade(&self) -> WeakRecipient<M> {
-        todo!()
+        WeakRecipient {
+            handler: Box::new(self.downgrade()),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 3a4a1aebc39c172235f051186e6003f7925771b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 15/38] fix: an actor run in the caller's task is the current
 actor in its hooks and handlers

---
 src/actor/spawn.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 35bc170..8345644 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -365,13 +365,18 @@ impl<A: Actor> PreparedActor<A> {
     /// # });
     /// ```
     pub async fn run(self, actor: A) -> (A, ActorStopReason) {
-        run_actor_lifecycle::<A, ActorBehaviour<A>>(
-            actor,
-            self.actor_ref,
-            self.mailbox_rx,
-            self.abort_registration,
-        )
-        .await
+        let id = self.actor_ref.id();
+        CURRENT_ACTOR_ID
+            .scope(
+                id,
+                run_actor_lifecycle::<A, ActorBehaviour<A>>(
+                    actor,
+                    self.actor_ref,
+                    self.mailbox_rx,
+                    self.abort_registration,
+                ),
+            )
+            .await
     }
 
     /// Spawns the actor in a new background tokio task, returning the `JoinHandle`.
@@ -380,14 +385,14 @@ impl<A: Actor> PreparedActor<A> {
     pub fn spawn(self, actor: A) -> JoinHandle<(A, ActorStopReason)> {
         #[cfg(not(all(tokio_unstable, feature = "tracing")))]
         {
-            tokio::spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+            tokio::spawn(self.run(actor))
         }
 
         #[cfg(all(tokio_unstable, feature = "tracing"))]
         {
             tokio::task::Builder::new()
                 .name(A::name())
-                .spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+                .spawn(self.run(actor))
                 .unwrap()
         }
     }
@@ -403,10 +408,7 @@ impl<A: Actor> PreparedActor<A> {
 
         std::thread::Builder::new()
             .name(A::name().to_string())
-            .spawn({
-                let actor_ref = self.actor_ref.clone();
-                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_ref.id(), self.run(actor)))
-            })
+            .spawn(move || handle.block_on(self.run(actor)))
             .unwrap()
     }
 }
-- 
2.43.0


From 5d00778aa7f6256cfa7c1cc5dd762aedef669aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 16/38] fix: wait_for_stop waits for the shutdown, not the
 startup

---
 src/actor/actor_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index e2cb28b..cc466ab 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -352,7 +352,7 @@ where
         note = "wait_for_stop has been renamed to wait_for_shutdown"
     )]
     pub async fn wait_for_stop(&self) {
-        self.wait_for_startup().await
+        self.wait_for_shutdown().await
     }
 
     /// Waits for the actor to finish shutdown, returning the shutdown result with a clone of the error.
-- 
2.43.0


From be4965472c45afcad52b9bc602c5730bd94652a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 17/38] fix: call the on_message hook for every message

---
 src/actor/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 297e7b1..02588c0 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -122,7 +122,7 @@ where
             return ControlFlow::Continue(());
         }
 
-        let res = AssertUnwindSafe(message.handle_dyn(&mut self.state, actor_ref, reply))
+        let res = AssertUnwindSafe(self.state.on_message(message, actor_ref, reply))
             .catch_unwind()
             .await;
         match res {
-- 
2.43.0


From a9c2c724523178e0d783a471b40c490df60f5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 18/38] fix: a pool's worker mailboxes get the full capacity of
 the worker's own mailbox

---
 actors/src/pool.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index d53def0..9949d56 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -106,7 +106,7 @@ where
                     actor_ref: factory(),
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -135,7 +135,7 @@ where
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -202,7 +202,7 @@ where
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -212,7 +212,7 @@ where
                     actor_ref: f().await,
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-- 
2.43.0


From af91a883a179e1673a540e1240adffb7d0e1de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 19/38] fix: errors of dispatched messages reach the asker
 instead of panicking it

---
 actors/src/pool.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 9949d56..8b25454 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -50,7 +50,11 @@ use futures::{
     Future, FutureExt, TryFutureExt,
     future::{BoxFuture, join_all},
 };
-use kameo::{actor::spawn_with_mailbox, error::Infallible, prelude::*};
+use kameo::{
+    actor::spawn_with_mailbox,
+    error::{BoxSendError, Infallible},
+    prelude::*,
+};
 
 enum Factory<A: Actor> {
     Sync(Box<dyn FnMut() -> ActorRef<A> + Send + Sync + 'static>),
@@ -295,6 +299,18 @@ where
     fn into_value(self) -> Self::Value {
         unimplemented!("a WorkerReply cannot be converted to a value and is only a marker type")
     }
+
+    fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
+        // A worker replies with the whole error it got from the actor it wraps
+        match err.try_downcast::<N, SendError<M, Self::Error>>() {
+            Ok(SendError::HandlerError(err)) => err.map_msg(Dispatch).boxed().downcast(),
+            Ok(SendError::ActorNotRunning(msg)) => SendError::ActorNotRunning(msg),
+            Ok(SendError::ActorStopped) => SendError::ActorStopped,
+            Ok(SendError::MailboxFull(msg)) => SendError::MailboxFull(msg),
+            Ok(SendError::Timeout(msg)) => SendError::Timeout(msg),
+            Err(err) => err.downcast(),
+        }
+    }
 }
 
 /// A message to be handled by a worker in an actor pool.
-- 
2.43.0


From d304b325e4c3c728affc3f40906ad0a795ccef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 20/38] fix: a pool passes over dead workers when dispatching
 and outlives them

---
 actors/src/pool.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 8b25454..9852599 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -157,12 +157,13 @@ where
         }
     }
 
-    fn next_worker(&self) -> (&ActorRef<Worker<A>>, Weak<()>) {
+    /// The running worker with the least load. Workers which died, but weren't replaced yet, are skipped.
+    fn next_worker(&self) -> Option<(&ActorRef<Worker<A>>, Weak<()>)> {
         self.workers
             .iter()
+            .filter(|(actor_ref, _)| actor_ref.is_alive())
             .min_by_key(|(_, load)| Arc::weak_count(load))
             .map(|(actor_ref, counter)| (actor_ref, Arc::downgrade(counter)))
-            .expect("ActorPool should have at least one worker")
     }
 }
 
@@ -290,10 +291,9 @@ where
     }
 
     fn into_any_err(self) -> Option<Box<dyn ReplyError>> {
-        match self {
-            WorkerReply::Forwarded => None,
-            WorkerReply::Err(err) => Some(Box::new(err)),
-        }
+        // Without running workers there's nobody to handle the message until they are replaced.
+        // This is no reason for the pool to fail.
+        None
     }
 
     fn into_value(self) -> Self::Value {
@@ -331,8 +331,7 @@ where
         ctx: &mut Context<Self, Self::Reply>,
     ) -> Self::Reply {
         let (_, mut reply_sender) = ctx.reply_sender();
-        for _ in 0..self.workers.len() {
-            let (worker, counter) = self.next_worker();
+        while let Some((worker, counter)) = self.next_worker() {
             match reply_sender {
                 Some(tx) => {
                     if let Err(err) = worker
@@ -373,7 +372,15 @@ where
             }
         }
 
-        WorkerReply::Err(SendError::ActorNotRunning(msg))
+        match reply_sender {
+            Some(tx) => {
+                let _ = tx
+                    .boxed()
+                    .send(Err(BoxSendError::ActorNotRunning(Box::new(Dispatch(msg)))));
+                WorkerReply::Forwarded
+            }
+            None => WorkerReply::Err(SendError::ActorNotRunning(msg)),
+        }
     }
 }
 
-- 
2.43.0


From f84c8d910335d85196fcbe47c1e175ba2de13c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 21/38] fix: a pool notices when its workers die and replaces
 them

---
 actors/src/pool.rs | 125 ++++++++++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 59 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 9852599..bafa0ee 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -41,18 +41,20 @@
 //! ```
 
 use std::{
-    fmt,
+    fmt, mem,
     ops::ControlFlow,
+    pin::pin,
     sync::{Arc, Weak},
 };
 
 use futures::{
-    Future, FutureExt, TryFutureExt,
-    future::{BoxFuture, join_all},
+    Future, TryFutureExt,
+    future::{self, BoxFuture, Either, join_all},
 };
 use kameo::{
-    actor::spawn_with_mailbox,
+    actor::{PreparedActor, spawn_link_with_mailbox},
     error::{BoxSendError, Infallible},
+    mailbox::Signal,
     prelude::*,
 };
 
@@ -73,6 +75,7 @@ enum Factory<A: Actor> {
 /// sent using the `WorkerMsg` and `BroadcastMsg` messages for individual or broadcast communication with workers.
 pub struct ActorPool<A: Actor> {
     workers: Vec<(ActorRef<Worker<A>>, Arc<()>)>,
+    unspawned: Vec<(PreparedActor<Worker<A>>, Worker<A>)>,
     size: usize,
     factory: Factory<A>,
 }
@@ -104,24 +107,8 @@ where
     {
         assert_ne!(size, 0);
 
-        let workers = (0..size)
-            .map(|_| {
-                let worker = Worker {
-                    actor_ref: factory(),
-                };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            })
-            .collect();
-
-        ActorPool {
-            workers,
-            size,
-            factory: Factory::Sync(Box::new(factory)),
-        }
+        let actor_refs = (0..size).map(|_| factory()).collect();
+        ActorPool::with_workers(actor_refs, Factory::Sync(Box::new(factory)))
     }
 
     /// Creates a new `ActorPool` with the specified size and an async factory function for creating workers.
@@ -135,25 +122,32 @@ where
     {
         assert_ne!(size, 0);
 
-        let workers = join_all((0..size).map(|_| {
-            FutureExt::map(factory(), |actor_ref| {
+        let actor_refs = join_all((0..size).map(|_| factory())).await;
+        let factory = Factory::Async(Box::new(move || {
+            let mut factory = factory.clone();
+            Box::pin(async move { factory().await })
+        }));
+        ActorPool::with_workers(actor_refs, factory)
+    }
+
+    fn with_workers(actor_refs: Vec<ActorRef<A>>, factory: Factory<A>) -> Self {
+        // The workers are spawned once the pool is linked to them, so that none of them dies unnoticed
+        let unspawned: Vec<_> = actor_refs
+            .into_iter()
+            .map(|actor_ref| {
                 let worker = Worker { actor_ref };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
+                (PreparedActor::new(worker.mailbox()), worker)
             })
-        }))
-        .await;
+            .collect();
 
         ActorPool {
-            workers,
-            size,
-            factory: Factory::Async(Box::new(move || {
-                let mut factory = factory.clone();
-                Box::pin(async move { factory().await })
-            })),
+            workers: unspawned
+                .iter()
+                .map(|(prepared, _)| (prepared.actor_ref().clone(), Arc::new(())))
+                .collect(),
+            size: unspawned.len(),
+            unspawned,
+            factory,
         }
     }
 
@@ -178,8 +172,9 @@ where
     }
 
     async fn on_start(&mut self, actor_ref: ActorRef<Self>) -> Result<(), Self::Error> {
-        for (worker, _) in &self.workers {
-            worker.link(&actor_ref).await;
+        for (prepared, worker) in mem::take(&mut self.unspawned) {
+            prepared.actor_ref().link(&actor_ref).await;
+            prepared.spawn(worker);
         }
 
         Ok(())
@@ -203,27 +198,15 @@ where
             return Ok(ControlFlow::Continue(()));
         };
 
-        self.workers[i] = match &mut self.factory {
-            Factory::Sync(f) => {
-                let worker = Worker { actor_ref: f() };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
-            Factory::Async(f) => {
-                let worker = Worker {
-                    actor_ref: f().await,
-                };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
+        let worker = Worker {
+            actor_ref: match &mut self.factory {
+                Factory::Sync(f) => f(),
+                Factory::Async(f) => f().await,
+            },
         };
-        self.workers[i].0.link(&actor_ref).await;
+        let mailbox = worker.mailbox();
+        let worker_ref = spawn_link_with_mailbox(&actor_ref, worker, mailbox).await;
+        self.workers[i] = (worker_ref, Arc::new(()));
 
         Ok(ControlFlow::Continue(()))
     }
@@ -233,8 +216,32 @@ struct Worker<A: Actor> {
     actor_ref: ActorRef<A>,
 }
 
+impl<A: Actor> Worker<A> {
+    /// A mailbox like the one of the wrapped actor.
+    fn mailbox(&self) -> (MailboxSender<Self>, MailboxReceiver<Self>) {
+        match self.actor_ref.mailbox_sender() {
+            MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
+            MailboxSender::Unbounded(_) => mailbox::unbounded(),
+        }
+    }
+}
+
 impl<A: Actor> Actor for Worker<A> {
     type Error = Infallible;
+
+    /// Stops when the wrapped actor stops, which lets the pool replace it.
+    async fn next(
+        &mut self,
+        _actor_ref: WeakActorRef<Self>,
+        mailbox_rx: &mut MailboxReceiver<Self>,
+    ) -> Option<Signal<Self>> {
+        let shutdown = pin!(self.actor_ref.wait_for_shutdown());
+        let recv = pin!(mailbox_rx.recv());
+        match future::select(shutdown, recv).await {
+            Either::Left(((), _)) => None,
+            Either::Right((signal, _)) => signal,
+        }
+    }
 }
 
 /// A wrapper type which helps keep track of the load for each worker.
-- 
2.43.0


From 49642c83cf89f0162a127f75d5e569f4b62698a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 22/38] fix: messages do not take on type parameters of the
 reply

---
 macros/src/messages.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 5a7de82..5ec241e 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -165,9 +165,6 @@ impl Messages {
                                     generics.extend(contains_generic_in_param(&ty.ty, &impl_item_generics));
                                 }
                             }
-                            if let ReturnType::Type(_, ty) = &impl_item_fn.sig.output {
-                                generics.extend(contains_generic_in_param(ty, &impl_item_generics));
-                            }
 
                             generics.dedup();
                             let generics = if generics.is_empty() {
-- 
2.43.0


From e809d274ad0b34cc9bdc21255cccf78ec682a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 23/38] fix: messages using a type parameter more than once
 declare it once

---
 macros/src/messages.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 5ec241e..4f9ede5 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -162,11 +162,14 @@ impl Messages {
                                         errors.push(err);
                                     }
 
-                                    generics.extend(contains_generic_in_param(&ty.ty, &impl_item_generics));
+                                    for param in contains_generic_in_param(&ty.ty, &impl_item_generics) {
+                                        if !generics.contains(&param) {
+                                            generics.push(param);
+                                        }
+                                    }
                                 }
                             }
 
-                            generics.dedup();
                             let generics = if generics.is_empty() {
                                 impl_item_fn.sig.generics.clone()
                             } else {
-- 
2.43.0


From 3336a324a2b1cdf936bc279b89d2bf118f5e0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 24/38] fix: messages take on the type parameters nested in
 their arguments' types

---
 macros/src/messages.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 4f9ede5..9ebad36 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -6,8 +6,8 @@ use syn::{
     parse_quote, parse_quote_spanned,
     punctuated::Punctuated,
     spanned::Spanned,
-    Attribute, Field, FnArg, GenericParam, Generics, Ident, ImplItem, ItemImpl, Meta, ReturnType,
-    Signature, Token, Type, Visibility,
+    Attribute, Field, FnArg, GenericArgument, GenericParam, Generics, Ident, ImplItem, ItemImpl,
+    Meta, Path, PathArguments, ReturnType, Signature, Token, Type, Visibility,
 };
 
 pub struct Messages {
@@ -473,7 +473,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
                 }
             }
 
-            vec![]
+            contains_generic_in_path_args(&path.path, generics)
         }
         Type::Ptr(ptr) => contains_generic_in_param(&ptr.elem, generics),
         Type::Reference(reference) => {
@@ -513,7 +513,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
                         }
                     }
 
-                    vec![]
+                    contains_generic_in_path_args(&trt.path, generics)
                 }
                 syn::TypeParamBound::Lifetime(lifetime) => {
                     let is_in_generics = generics
@@ -542,3 +542,33 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
         _ => vec![],
     }
 }
+
+fn contains_generic_in_path_args(path: &Path, generics: &[GenericParam]) -> Vec<GenericParam> {
+    path.segments
+        .iter()
+        .flat_map(|segment| match &segment.arguments {
+            PathArguments::None => vec![],
+            PathArguments::AngleBracketed(args) => args
+                .args
+                .iter()
+                .filter_map(|arg| match arg {
+                    GenericArgument::Type(ty) => Some(ty),
+                    GenericArgument::AssocType(assoc) => Some(&assoc.ty),
+                    _ => None,
+                })
+                .flat_map(|ty| contains_generic_in_param(ty, generics))
+                .collect(),
+            PathArguments::Parenthesized(args) => {
+                let mut params: Vec<_> = args
+                    .inputs
+                    .iter()
+                    .flat_map(|ty| contains_generic_in_param(ty, generics))
+                    .collect();
+                if let ReturnType::Type(_, ty) = &args.output {
+                    params.extend(contains_generic_in_param(ty, generics));
+                }
+                params
+            }
+        })
+        .collect()
+}
-- 
2.43.0


From d4dfc370476678ecbf95dcb0ed43357cec881817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 25/38] fix: messages are implemented for the actor type as it
 is written

---
 macros/src/messages.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 9ebad36..1830e9b 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -12,7 +12,6 @@ use syn::{
 
 pub struct Messages {
     item_impl: ItemImpl,
-    ident: Ident,
     messages: Vec<Message>,
     errors: Option<syn::Error>,
 }
@@ -302,11 +301,10 @@ impl Messages {
     fn expand_msg_impls(&self) -> proc_macro2::TokenStream {
         let Self {
             item_impl,
-            ident: actor_ident,
             messages,
             ..
         } = self;
-        let (_, actor_ty_generics, _) = item_impl.generics.split_for_impl();
+        let actor_ty = &item_impl.self_ty;
 
         let msg_impls = messages.iter().map(
             |Message {
@@ -354,7 +352,7 @@ impl Messages {
 
                 quote_spanned! {sig.span()=>
                     #[automatically_derived]
-                    impl #impl_generics ::kameo::message::#trait_name<#msg_ident #msg_ty_generics> for #actor_ident #actor_ty_generics #where_clause {
+                    impl #impl_generics ::kameo::message::#trait_name<#msg_ident #msg_ty_generics> for #actor_ty #where_clause {
                         type Reply = #reply;
 
                         async fn handle(#self_ref, #[allow(unused_variables)] #msg, _ctx: &mut ::kameo::message::Context<Self, Self::Reply>) -> Self::Reply {
@@ -392,27 +390,16 @@ impl Parse for Messages {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         let mut item_impl: ItemImpl = input.parse()?;
 
-        let ident = match item_impl.self_ty.as_ref() {
-            Type::Path(type_path) => type_path
-                .path
-                .segments
-                .last()
-                .as_ref()
-                .ok_or_else(|| syn::Error::new(type_path.path.span(), "missing ident from path"))?
-                .ident
-                .clone(),
-            _ => {
-                return Err(syn::Error::new(
-                    item_impl.self_ty.span(),
-                    "expected a path or ident",
-                ))
-            }
-        };
+        if !matches!(item_impl.self_ty.as_ref(), Type::Path(_)) {
+            return Err(syn::Error::new(
+                item_impl.self_ty.span(),
+                "expected a path or ident",
+            ));
+        }
         let (messages, errors) = Messages::extract_messages(&mut item_impl);
 
         Ok(Messages {
             item_impl,
-            ident,
             messages,
             errors,
         })
-- 
2.43.0


From 57b465fdd0560aeb7adcfd6c7f1e36de6561f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 26/38] fix: ActorID::from_bytes returns an error for input
 shorter than a sequence id

It sliced the first 8 bytes unconditionally, so decoding truncated input
panicked instead of returning MissingSequenceID.
---
 src/actor/id.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 26f3fff..c627488 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -137,9 +137,10 @@ impl ActorID {
     pub fn from_bytes(bytes: &[u8]) -> Result<Self, ActorIDFromBytesError> {
         // Extract the ID
         let sequence_id = u64::from_le_bytes(
-            bytes[0..8]
-                .try_into()
-                .map_err(|_| ActorIDFromBytesError::MissingSequenceID)?,
+            bytes
+                .get(0..8)
+                .and_then(|bytes| bytes.try_into().ok())
+                .ok_or(ActorIDFromBytesError::MissingSequenceID)?,
         );
 
         // Extract the peer id
-- 
2.43.0


From e430bbbd35c4a8a1a5372596a1e564dcb1975d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 27/38] fix: ActorID can be deserialized from every format it
 can be serialized to

Deserialize only took bytes borrowed from the input, so an id written as JSON,
or read back from a reader, could not be read.
---
 src/actor/id.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index c627488..8452d50 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -4,7 +4,7 @@ use std::hash::Hasher;
 use std::sync::atomic::Ordering;
 use std::{fmt, sync::atomic::AtomicUsize};
 
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Serialize};
 
 use crate::error::ActorIDFromBytesError;
 #[cfg(feature = "remote")]
@@ -201,16 +201,42 @@ impl<'de> Deserialize<'de> for ActorID {
     where
         D: serde::Deserializer<'de>,
     {
-        let bytes = <&[u8]>::deserialize(deserializer)?;
-        let bytes_len = bytes.len();
+        deserializer.deserialize_bytes(ActorIDVisitor)
+    }
+}
+
+struct ActorIDVisitor;
+
+impl<'de> de::Visitor<'de> for ActorIDVisitor {
+    type Value = ActorID;
+
+    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("actor ID bytes")
+    }
+
+    fn visit_bytes<E>(self, bytes: &[u8]) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
         ActorID::from_bytes(bytes).map_err(|err| match err {
             ActorIDFromBytesError::MissingSequenceID => {
-                serde::de::Error::invalid_length(bytes_len, &"sequence ID")
+                E::invalid_length(bytes.len(), &"sequence ID")
             }
             #[cfg(feature = "remote")]
-            err @ ActorIDFromBytesError::ParsePeerID(_) => serde::de::Error::custom(err),
+            err @ ActorIDFromBytesError::ParsePeerID(_) => E::custom(err),
         })
     }
+
+    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+    where
+        A: de::SeqAccess<'de>,
+    {
+        let mut bytes = Vec::with_capacity(8 + 42);
+        while let Some(byte) = seq.next_element()? {
+            bytes.push(byte);
+        }
+        self.visit_bytes(&bytes)
+    }
 }
 
 #[cfg(feature = "remote")]
-- 
2.43.0


From 1e175b068af49cd2e7a49e491f0bbbdfd343d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 28/38] fix: an actor id's hash does not change when the swarm
 is bootstrapped

Ids of local actors hashed without a peer before bootstrap and with the local
peer after, so links made before could not be found to be removed afterwards.
---
 src/actor/id.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 8452d50..4ddc273 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -269,8 +269,15 @@ impl Eq for PeerIdKind {}
 #[cfg(feature = "remote")]
 impl Hash for PeerIdKind {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if let Some(peer_id) = self.peer_id() {
-            state.write(&peer_id.to_bytes());
+        // The local peer hashes the same before and after the swarm is bootstrapped, since ids are used as keys
+        // (such as for links) from before.
+        match self {
+            PeerIdKind::Local => {}
+            PeerIdKind::PeerId(peer_id) => {
+                if ActorSwarm::get().map(ActorSwarm::local_peer_id) != Some(peer_id) {
+                    state.write(&peer_id.to_bytes());
+                }
+            }
         }
     }
 }
-- 
2.43.0


From c996b608d5c60bf7c0da28e492e2b1e9c7cf89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 29/38] fix: malformed registry records do not panic

Records come from other peers. Looking one up locally panicked in the swarm's
task and took the whole node down, for instance after a peer unregistered a
name, which leaves an empty record.
---
 src/remote/swarm.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9715833..88a45aa 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -337,7 +337,8 @@ impl ActorSwarm {
                     let ActorRegistration {
                         actor_id,
                         remote_id,
-                    } = ActorRegistration::from_bytes(&record.value);
+                    } = ActorRegistration::from_bytes(&record.value)
+                        .ok_or(RegistryError::BadActorType)?;
                     if A::REMOTE_ID != remote_id {
                         return Err(RegistryError::BadActorType);
                     }
@@ -575,7 +576,10 @@ impl ActorSwarmHandler {
                 let registration = swarm
                     .behaviour_mut()
                     .kademlia_get_record_local(&key)
-                    .map(|record| ActorRegistration::from_bytes(&record.value).into_owned());
+                    .and_then(|record| {
+                        ActorRegistration::from_bytes(&record.value)
+                            .map(ActorRegistration::into_owned)
+                    });
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
@@ -1214,11 +1218,12 @@ impl<'a> ActorRegistration<'a> {
         bytes
     }
 
-    fn from_bytes(bytes: &'a [u8]) -> Self {
-        let peer_id_bytes_len = u8::from_le_bytes(bytes[..1].try_into().unwrap()) as usize;
-        let actor_id = ActorID::from_bytes(&bytes[1..1 + 8 + peer_id_bytes_len]).unwrap();
-        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).unwrap();
-        ActorRegistration::new(actor_id, Cow::Borrowed(remote_id))
+    /// Returns `None` for a malformed record.
+    fn from_bytes(bytes: &'a [u8]) -> Option<Self> {
+        let peer_id_bytes_len = *bytes.first()? as usize;
+        let actor_id = ActorID::from_bytes(bytes.get(1..1 + 8 + peer_id_bytes_len)?).ok()?;
+        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).ok()?;
+        Some(ActorRegistration::new(actor_id, Cow::Borrowed(remote_id)))
     }
 
     fn into_owned(self) -> ActorRegistration<'static> {
-- 
2.43.0


From 5cd91f16d0914cdd36edb4ff7b27b033a4ac793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 30/38] fix: a panic's message survives being sent to another
 node

It was sent as displayed, so the peer's stop reason said "panicked: panicked: ..."
and with_str did not give the message, once more for every hop.
---
 src/error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index b929257..5353ba7 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -779,7 +779,11 @@ impl Serialize for PanicError {
     where
         S: serde::Serializer,
     {
-        serializer.serialize_str(&self.to_string())
+        // What is read back is the error itself, which must not say "panicked" twice when displayed
+        let s = self
+            .with_str(|s| s.to_string())
+            .unwrap_or_else(|| self.with(|err| format!("{err:?}")));
+        serializer.serialize_str(&s)
     }
 }
 
-- 
2.43.0


From 4ece3ee933dac62cadb918d97e5f4532f390b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 31/38] fix: requests to this node's own actors stay on this
 node when it has peers

Whether a request is for this node was decided by whether it has any peers. With
peers connected, messages and links to a remote ref of a local actor were sent
over the network to itself, which cannot be dialed; with none, a request for an
actor of another node was not attempted.
---
 src/remote/swarm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 88a45aa..e461c61 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -623,7 +623,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::ask(
                             actor_id,
@@ -661,7 +661,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::tell(
                             actor_id,
@@ -700,7 +700,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::link(
                             sibbling_id,
@@ -730,7 +730,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result =
                             remote::unlink(sibbling_id, sibbling_remote_id, actor_id).await;
@@ -754,7 +754,7 @@ impl ActorSwarmHandler {
                 stop_reason,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if notified_actor_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::signal_link_died(
                             dead_actor_id,
-- 
2.43.0


From f5b280fc8719f9f9dfa88c25d37faf97eb2d83d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 32/38] fix: a record the local store has no room for fails its
 registration only

Registering a name beyond what the record store holds (1024 records by default)
panicked in the swarm's task, taking the whole node down.
---
 src/remote/swarm.rs | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index e461c61..b5bc239 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -1,5 +1,5 @@
 use core::task;
-use std::{borrow::Cow, collections::HashMap, io, pin, time::Duration};
+use std::{borrow::Cow, collections::HashMap, io, num::NonZero, pin, time::Duration};
 
 use futures::{ready, stream::FuturesUnordered, Future, FutureExt, StreamExt};
 use libp2p::{
@@ -583,19 +583,25 @@ impl ActorSwarmHandler {
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
+                let key = record.key.clone();
                 if swarm.network_info().num_peers() == 0 {
-                    let key = record.key.clone();
-                    swarm
-                        .behaviour_mut()
-                        .kademlia_put_record_local(record)
-                        .unwrap();
-                    let _ = reply.send(Ok(kad::PutRecordOk { key }));
+                    let res = swarm.behaviour_mut().kademlia_put_record_local(record);
+                    let _ = reply.send(match res {
+                        Ok(()) => Ok(kad::PutRecordOk { key }),
+                        Err(_) => Err(record_not_stored(key)),
+                    });
                 } else {
-                    let query_id = swarm
+                    let res = swarm
                         .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
-                    self.put_queries.insert(query_id, reply);
+                        .kademlia_put_record(record, kad::Quorum::One);
+                    match res {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(record_not_stored(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Unregister { key, reply } => {
@@ -604,12 +610,18 @@ impl ActorSwarmHandler {
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-                    let query_id = swarm
+                    let res = swarm
                         .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
+                        .kademlia_put_record(record, kad::Quorum::One);
                     swarm.behaviour_mut().kademlia_remove_record(&key);
-                    self.put_queries.insert(query_id, reply);
+                    match res {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(record_not_stored(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Ask {
@@ -1000,6 +1012,15 @@ impl ActorSwarmHandler {
     }
 }
 
+/// The local store has no room for the record, so not even this node holds it.
+fn record_not_stored(key: kad::RecordKey) -> kad::PutRecordError {
+    kad::PutRecordError::QuorumFailed {
+        key,
+        success: Vec::new(),
+        quorum: NonZero::<usize>::MIN,
+    }
+}
+
 #[derive(Clone, Debug)]
 pub(crate) struct SwarmSender(mpsc::UnboundedSender<SwarmCommand>);
 
-- 
2.43.0


From 3f8b0480deb2ef52fb72e928db9b8efd64c203a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 33/38] fix: links to a peer are lost only with the last
 connection to it

Closing one of several connections to a peer told every actor linked to actors
of that peer that the peer had disconnected.
---
 src/remote/swarm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index b5bc239..dbe01fc 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -804,7 +804,11 @@ impl ActorSwarmHandler {
         event: ActorSwarmEvent,
     ) {
         match event {
-            ActorSwarmEvent::ConnectionClosed { peer_id, .. } => {
+            ActorSwarmEvent::ConnectionClosed {
+                peer_id,
+                num_established: 0,
+                ..
+            } => {
                 tokio::spawn(async move {
                     let mut futures = FuturesUnordered::new();
                     for RemoteRegistryActorRef {
-- 
2.43.0


From 677bf969c7420981e93ae035656abb8f590cce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 34/38] fix: unregistering an actor on a node without peers
 removes its name

---
 src/remote/swarm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index dbe01fc..7adcd7c 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -606,7 +606,8 @@ impl ActorSwarmHandler {
             }
             SwarmCommand::Unregister { key, reply } => {
                 if swarm.network_info().num_peers() == 0 {
-                    swarm.behaviour_mut().kademlia_remove_record(&key);
+                    // Records put locally have no publisher, and would not be removed by `kademlia_remove_record`
+                    swarm.behaviour_mut().kademlia_remove_record_local(&key);
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-- 
2.43.0


From abef6290cdc7f523b4ad0873d206d6a89d5f7cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 35/38] fix: an actor is told once that a remote actor it is
 linked to is gone

A link to an actor of a lost peer stayed until the actor had handled the
notification, so losing the peer again, or the remote actor's death, told a busy
actor again. A death was told to actors that had unlinked, too.
---
 src/remote/_internal.rs | 11 +++++++++++
 src/remote/swarm.rs     | 29 ++++++++++++++++-------------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/remote/_internal.rs b/src/remote/_internal.rs
index 5cb8ecc..4cba017 100644
--- a/src/remote/_internal.rs
+++ b/src/remote/_internal.rs
@@ -292,6 +292,17 @@ where
             .clone()
     };
 
+    if actor_ref
+        .links
+        .lock()
+        .await
+        .remove(&dead_actor_id)
+        .is_none()
+    {
+        // Not linked anymore, or told already that its peer disconnected
+        return Ok(());
+    }
+
     actor_ref
         .weak_signal_mailbox()
         .signal_link_died(dead_actor_id, stop_reason)
diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 7adcd7c..1140fd9 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -818,20 +818,23 @@ impl ActorSwarmHandler {
                         ..
                     } in REMOTE_REGISTRY.lock().await.values()
                     {
-                        for linked_actor_id in (*links.lock().await).keys() {
-                            if linked_actor_id.peer_id() == Some(&peer_id) {
-                                let signal_mailbox = signal_mailbox.clone();
-                                let linked_actor_id = *linked_actor_id;
-                                futures.push(async move {
-                                    signal_mailbox
-                                        .signal_link_died(
-                                            linked_actor_id,
-                                            ActorStopReason::PeerDisconnected,
-                                        )
-                                        .await
-                                });
+                        // The links are gone with the peer, so losing it again tells nothing more
+                        links.lock().await.retain(|linked_actor_id, _| {
+                            if linked_actor_id.peer_id() != Some(&peer_id) {
+                                return true;
                             }
-                        }
+                            let signal_mailbox = signal_mailbox.clone();
+                            let linked_actor_id = *linked_actor_id;
+                            futures.push(async move {
+                                signal_mailbox
+                                    .signal_link_died(
+                                        linked_actor_id,
+                                        ActorStopReason::PeerDisconnected,
+                                    )
+                                    .await
+                            });
+                            false
+                        });
                     }
 
                     while (futures.next().await).is_some() {}
-- 
2.43.0


From 691bc0a94efdf7d920a12a1fbef0e0fb604dee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 36/38] fix: a remote link made again before the lost peer's
 hook returns is kept

The link was removed after the hook, so an actor that reconnected and linked again
from its on_link_died hook, or before it ran, was not linked.
---
 src/actor/kind.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 02588c0..b40faee 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -10,7 +10,7 @@ use crate::{
     reply::BoxReplySender,
 };
 
-use super::ActorID;
+use super::{actor_ref::Link, ActorID};
 
 pub(crate) trait ActorState<A: Actor>: Sized {
     fn new_from_actor(
@@ -147,7 +147,13 @@ where
         ))
         .catch_unwind()
         .await;
-        self.actor_ref.links.lock().await.remove(&id);
+        {
+            let mut links = self.actor_ref.links.lock().await;
+            // A remote link went when its death was signalled, so any that is there now is new
+            if matches!(links.get(&id), Some(Link::Local(_))) {
+                links.remove(&id);
+            }
+        }
         match res {
             Ok(Ok(flow)) => flow,
             Ok(Err(err)) => {
-- 
2.43.0


From d40cff4509511f2aa44522833b5942353eabcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 37/38] fix: a remote link that cannot be made is not left
 behind on one side

When the request to link failed, the local half of the link stayed, and losing the
peer told the actor that an actor it was never linked to had gone.
---
 src/actor/actor_ref.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index cc466ab..d07d5e7 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -608,14 +608,22 @@ where
             },
         );
 
-        self.links.lock().await.insert(
-            sibbling_ref.id,
-            Link::Remote(std::borrow::Cow::Borrowed(B::REMOTE_ID)),
-        );
-        remote::ActorSwarm::get()
-            .ok_or(error::RemoteSendError::SwarmNotBootstrapped)?
-            .link::<A, B>(self.id, sibbling_ref.id)
+        let swarm =
+            remote::ActorSwarm::get().ok_or(error::RemoteSendError::SwarmNotBootstrapped)?;
+        let already_linked = self
+            .links
+            .lock()
             .await
+            .insert(
+                sibbling_ref.id,
+                Link::Remote(std::borrow::Cow::Borrowed(B::REMOTE_ID)),
+            )
+            .is_some();
+        let res = swarm.link::<A, B>(self.id, sibbling_ref.id).await;
+        if res.is_err() && !already_linked {
+            self.links.lock().await.remove(&sibbling_ref.id);
+        }
+        res
     }
 
     /// Unlinks two previously linked sibling actors.
-- 
2.43.0


From 10370e1f785d2070a0fca0dba3be2e2edff20711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 38/38] fix: an ask racing with the drop of a prepared actor
 does not hang

---
 src/actor/spawn.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 8345644..b3c6054 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -278,8 +278,8 @@ where
 #[allow(missing_debug_implementations)]
 pub struct PreparedActor<A: Actor> {
     actor_ref: ActorRef<A>,
-    mailbox_rx: MailboxReceiver<A>,
-    abort_registration: AbortRegistration,
+    // `None` once the actor is run
+    mailbox: Option<(MailboxReceiver<A>, AbortRegistration)>,
 }
 
 impl<A: Actor> PreparedActor<A> {
@@ -320,8 +320,7 @@ impl<A: Actor> PreparedActor<A> {
 
         PreparedActor {
             actor_ref,
-            mailbox_rx,
-            abort_registration,
+            mailbox: Some((mailbox_rx, abort_registration)),
         }
     }
 
@@ -364,16 +363,22 @@ impl<A: Actor> PreparedActor<A> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// # });
     /// ```
-    pub async fn run(self, actor: A) -> (A, ActorStopReason) {
-        let id = self.actor_ref.id();
+    pub async fn run(mut self, actor: A) -> (A, ActorStopReason) {
+        let actor_ref = self.actor_ref.clone();
+        let (mailbox_rx, abort_registration) = self
+            .mailbox
+            .take()
+            .expect("a prepared actor is only run once");
+        drop(self);
+
         CURRENT_ACTOR_ID
             .scope(
-                id,
+                actor_ref.id(),
                 run_actor_lifecycle::<A, ActorBehaviour<A>>(
                     actor,
-                    self.actor_ref,
-                    self.mailbox_rx,
-                    self.abort_registration,
+                    actor_ref,
+                    mailbox_rx,
+                    abort_registration,
                 ),
             )
             .await
@@ -413,6 +418,26 @@ impl<A: Actor> PreparedActor<A> {
     }
 }
 
+impl<A: Actor> Drop for PreparedActor<A> {
+    fn drop(&mut self) {
+        let Some((mut mailbox_rx, _)) = self.mailbox.take() else {
+            return;
+        };
+
+        // The actor is never run. As when an actor stops, a message being sent right now could still end up in the
+        // mailbox after it was dropped, and would stay there for as long as its own actor ref keeps the mailbox alive.
+        mailbox_rx.close();
+        while let Some(signal) = mailbox_rx.recv().now_or_never() {
+            if signal.is_none() {
+                return;
+            }
+        }
+        if let Ok(handle) = Handle::try_current() {
+            handle.spawn(async move { while mailbox_rx.recv().await.is_some() {} });
+        }
+    }
+}
+
 #[inline]
 async fn run_actor_lifecycle<A, S>(
     mut actor: A,
-- 
2.43.0

