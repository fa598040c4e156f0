From 62bc98da808655a79d247dc57a69c45acdc90da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:18 +0000
Subject: [PATCH 01/26] fix: persisted messages take a sequence number of their
 own

A message persisted after a snapshot (or after a recovery) reused the
sequence number of the last entry: it was not replayed after the snapshot
and numbers repeated across restarts.
---
 coerce/src/persistent/journal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/persistent/journal/mod.rs b/coerce/src/persistent/journal/mod.rs
index 9ebfea7..bfb90c8 100644
--- a/coerce/src/persistent/journal/mod.rs
+++ b/coerce/src/persistent/journal/mod.rs
@@ -266,11 +266,13 @@ impl<A: PersistentActor> Journal<A> {
             .message_type_mapping::<M>()
             .expect("message type not configured");
 
+        let sequence = self.last_sequence_id + 1;
+
         self.storage
             .write_message(
                 &self.persistence_id,
                 JournalEntry {
-                    sequence: self.last_sequence_id,
+                    sequence,
                     payload_type: payload_type.clone(),
                     bytes,
                 },
@@ -283,7 +285,7 @@ impl<A: PersistentActor> Journal<A> {
             M::type_name()
         );
 
-        self.last_sequence_id += 1;
+        self.last_sequence_id = sequence;
         Ok(())
     }
 
-- 
2.43.0


From 6fd7dfe9325b2f1e8900e436d51771515b03a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:13 +0000
Subject: [PATCH 02/26] fix: in-memory journal range reads return the entries
 of the range

Ranges that ended before the last entry returned too little and ranges that
started after the first entry and ended before the last one panicked.
---
 coerce/src/persistent/journal/provider.rs | 47 +++--------------------
 1 file changed, 6 insertions(+), 41 deletions(-)

diff --git a/coerce/src/persistent/journal/provider.rs b/coerce/src/persistent/journal/provider.rs
index 8d2de5f..b26eb93 100644
--- a/coerce/src/persistent/journal/provider.rs
+++ b/coerce/src/persistent/journal/provider.rs
@@ -201,49 +201,14 @@ pub mod inmemory {
                     if journal.messages.is_empty() {
                         Ok(None)
                     } else {
-                        let first_seq = journal.messages.first().map(|m| m.sequence).unwrap();
-                        let final_seq = journal.messages.last().map(|m| m.sequence).unwrap();
-
-                        if to_sequence >= final_seq {
-                            if first_seq >= from_sequence {
-                                Ok(Some(journal.messages.clone()))
-                            } else {
-                                let starting_message = journal
-                                    .messages
-                                    .iter()
-                                    .enumerate()
-                                    .find(|(_index, j)| j.sequence > from_sequence)
-                                    .map(|(index, _j)| index);
-
-                                if let Some(starting_index) = starting_message {
-                                    Ok(Some(
-                                        journal.messages[starting_index..]
-                                            .iter()
-                                            .cloned()
-                                            .collect(),
-                                    ))
-                                } else {
-                                    Ok(Some(vec![]))
-                                }
-                            }
-                        } else if first_seq >= from_sequence {
-                            let end_message = journal
+                        Ok(Some(
+                            journal
                                 .messages
                                 .iter()
-                                .enumerate()
-                                .find(|(_index, j)| j.sequence > from_sequence)
-                                .map(|(index, _j)| index);
-
-                            if let Some(end_index) = end_message {
-                                Ok(Some(
-                                    journal.messages[..end_index].iter().cloned().collect(),
-                                ))
-                            } else {
-                                Ok(Some(vec![]))
-                            }
-                        } else {
-                            panic!("todo: this")
-                        }
+                                .filter(|m| m.sequence >= from_sequence && m.sequence <= to_sequence)
+                                .cloned()
+                                .collect(),
+                        ))
                     }
                 }
             }
-- 
2.43.0


From 1e609c1694302effe577d3564505fbc140221403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:56 +0000
Subject: [PATCH 03/26] fix: a ping timeout terminates a node only after the
 termination limit

---
 coerce/src/remote/heartbeat/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index a192a0b..4e19641 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -435,7 +435,7 @@ fn node_status(
         Some(PingResult::Timeout) => {
             let terminated = last_heartbeat.map_or(true, |h| {
                 h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
-                    >= Utc::now()
+                    <= Utc::now()
             });
 
             if terminated {
-- 
2.43.0


From 0df75f41640dd2f8a94739f3324b416bd3a501fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:56 +0000
Subject: [PATCH 04/26] fix: nodes whose id exceeds i64::MAX can be reported as
 the leader

---
 coerce/src/remote/system/cluster.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index e335a05..1871a92 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -40,7 +40,7 @@ impl RemoteActorSystem {
 
     pub fn current_leader(&self) -> Option<NodeId> {
         let n = self.inner.current_leader.load(Ordering::SeqCst);
-        if n >= 0 {
+        if n != -1 {
             Some(n as NodeId)
         } else {
             None
@@ -52,7 +52,7 @@ impl RemoteActorSystem {
             .inner
             .current_leader
             .swap(new_leader as i64, Ordering::SeqCst);
-        if n >= 0 {
+        if n != -1 {
             Some(n as NodeId)
         } else {
             None
-- 
2.43.0


From 8bb78fd41daed0733dfbbed9b70f9d4d64781b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:43 +0000
Subject: [PATCH 05/26] fix: the cluster is announced as joined once the
 minimum number of members is present

---
 coerce/src/remote/heartbeat/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index 4e19641..6f63084 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -283,21 +283,26 @@ impl Handler<HeartbeatTick> for Heartbeat {
 
         system.update_nodes(updates.clone()).await;
 
-        if let Some(new_leader_id) = new_leader_id {
-            if !self.cluster_member_up {
+        if self.last_heartbeat.is_some() && !self.cluster_member_up {
+            if let Some(leader_id) = new_leader_id.or(system.current_leader()) {
                 let min_cluster_size_reached = match self.config.minimum_cluster_size {
                     None => true,
-                    Some(n) => n >= self.node_pings.len(),
+                    Some(n) => {
+                        let healthy_nodes = updates.iter().filter(|n| n.status.is_healthy());
+                        healthy_nodes.count() >= n
+                    }
                 };
 
                 if min_cluster_size_reached {
                     self.on_min_cluster_size_reached(
-                        new_leader_id,
+                        leader_id,
                         updates.into_iter().map(|n| Arc::new(n.into())).collect(),
                     );
                 }
             }
+        }
 
+        if let Some(new_leader_id) = new_leader_id {
             self.update_leader(new_leader_id);
         }
 
-- 
2.43.0


From efc9194b1a0281a79fca64c95913ad4c6adf495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:33 +0000
Subject: [PATCH 06/26] fix: a reply sent to another node does not wait for a
 reply of its own

---
 coerce/src/remote/system/rpc.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 4e583c2..d773d3e 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -128,12 +128,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
@@ -156,12 +151,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
-- 
2.43.0


From c275cf46db13bcc4f93893f7edc9a50014a6ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:33 +0000
Subject: [PATCH 07/26] fix: a request that cannot be encoded is not left in
 flight

---
 coerce/src/remote/actor_ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/actor_ref.rs b/coerce/src/remote/actor_ref.rs
index 72ecc97..24d851a 100644
--- a/coerce/src/remote/actor_ref.rs
+++ b/coerce/src/remote/actor_ref.rs
@@ -75,11 +75,11 @@ where
     {
         let id = Uuid::new_v4();
 
+        let event = self.create_request(msg, String::new(), id, true)?;
+
         let (res_tx, res_rx) = oneshot::channel();
         self.system.push_request(id, res_tx);
 
-        let event = self.create_request(msg, String::new(), id, true)?;
-
         // TODO: we could make this fail fast if the node is known to be terminated?
         self.system.notify_node(self.node_id, event).await;
         match res_rx.await {
-- 
2.43.0


From 8ce2f6b919df6cfb94c8f7376931e3d5086f2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 08/26] fix: a remote message reaches the actor of the node it
 was sent to when another system of the process has one of the same id

---
 coerce/src/remote/handler.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/coerce/src/remote/handler.rs b/coerce/src/remote/handler.rs
index d145d1d..8196791 100644
--- a/coerce/src/remote/handler.rs
+++ b/coerce/src/remote/handler.rs
@@ -15,6 +15,8 @@ use std::time::Duration;
 
 use tokio::sync::oneshot::Sender;
 
+use uuid::Uuid;
+
 #[async_trait]
 pub trait ActorHandler: 'static + Any + Sync + Send {
     async fn create(
@@ -184,7 +186,7 @@ where
 }
 
 struct ActorRefCache {
-    inner: parking_lot::Mutex<HashMap<ActorId, BoxedActorRef>>,
+    inner: parking_lot::Mutex<HashMap<(Uuid, ActorId), BoxedActorRef>>,
 }
 
 impl ActorRefCache {
@@ -194,12 +196,17 @@ impl ActorRefCache {
         }
     }
 
-    pub fn add(&self, actor_id: &ActorId, actor_ref: BoxedActorRef) {
-        self.inner.lock().insert(actor_id.clone(), actor_ref);
+    pub fn add(&self, system_id: Uuid, actor_id: &ActorId, actor_ref: BoxedActorRef) {
+        self.inner
+            .lock()
+            .insert((system_id, actor_id.clone()), actor_ref);
     }
 
-    pub fn get(&self, actor_id: &ActorId) -> Option<BoxedActorRef> {
-        self.inner.lock().get(actor_id).cloned()
+    pub fn get(&self, system_id: Uuid, actor_id: &ActorId) -> Option<BoxedActorRef> {
+        self.inner
+            .lock()
+            .get(&(system_id, actor_id.clone()))
+            .cloned()
     }
 
     pub fn len(&self) -> usize {
@@ -221,7 +228,7 @@ async fn get_actor_ref<A: Actor>(
     system: &ActorSystem,
     actor_id: &ActorId,
 ) -> Option<LocalActorRef<A>> {
-    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(actor_id) {
+    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(*system.system_id(), actor_id) {
         let actor_ref = boxed_ref.as_actor();
         if let Some(actor_ref) = actor_ref {
             if actor_ref.is_valid() {
@@ -231,7 +238,11 @@ async fn get_actor_ref<A: Actor>(
     }
 
     if let Some(actor_ref) = system.get_tracked_actor::<A>(actor_id.clone()).await {
-        ACTOR_REF_CACHE.add(actor_id, BoxedActorRef::from(actor_ref.clone()));
+        ACTOR_REF_CACHE.add(
+            *system.system_id(),
+            actor_id,
+            BoxedActorRef::from(actor_ref.clone()),
+        );
 
         Some(actor_ref)
     } else {
-- 
2.43.0


From ef9be85e22d8d26416b9ddf4ec85b23271656c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:18 +0000
Subject: [PATCH 09/26] hook: messages between nodes can be taken over by a
 test harness (cfg coerce_verif)

---
 coerce/src/remote/system/cluster.rs | 31 +++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index 1871a92..cf3c592 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -31,6 +31,12 @@ impl RemoteActorSystem {
     }
 
     pub async fn notify_node(&self, node_id: NodeId, message: SessionEvent) {
+        #[cfg(coerce_verif)]
+        let message = match tap::pass(self.node_id(), node_id, message) {
+            Some(message) => message,
+            None => return,
+        };
+
         self.inner
             .clients_ref
             .send(ClientWrite(node_id, message))
@@ -71,3 +77,28 @@ impl RemoteActorSystem {
             .map(RemoteClientRef::from)
     }
 }
+
+/// Lets a test harness take over the messages the nodes of this thread send to each other.
+#[cfg(coerce_verif)]
+pub mod tap {
+    use super::{NodeId, SessionEvent};
+    use std::cell::RefCell;
+
+    /// sender, receiver, message; returns the message if it is to be sent as usual
+    pub type Tap = Box<dyn Fn(NodeId, NodeId, SessionEvent) -> Option<SessionEvent>>;
+
+    thread_local! {
+        static TAP: RefCell<Option<Tap>> = RefCell::new(None);
+    }
+
+    pub fn set(tap: Option<Tap>) {
+        TAP.with(|t| *t.borrow_mut() = tap);
+    }
+
+    pub(super) fn pass(from: NodeId, to: NodeId, message: SessionEvent) -> Option<SessionEvent> {
+        TAP.with(|t| match t.borrow().as_ref() {
+            Some(tap) => tap(from, to, message),
+            None => Some(message),
+        })
+    }
+}
-- 
2.43.0


From e5291a4d8fcb522d7d2609cdfd3e88b0e7dace8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:09 +0000
Subject: [PATCH 10/26] fix: a fire-and-forget message to a singleton no longer
 stops its proxy

---
 coerce/src/singleton/mod.rs        |  2 +-
 coerce/src/singleton/proxy/send.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/coerce/src/singleton/mod.rs b/coerce/src/singleton/mod.rs
index b4c2054..109ffdb 100644
--- a/coerce/src/singleton/mod.rs
+++ b/coerce/src/singleton/mod.rs
@@ -94,7 +94,7 @@ impl<A: Actor, F: SingletonFactory<Actor = A>> Singleton<A, F> {
             return Err(e);
         }
 
-        rx.await.unwrap()
+        rx.await.unwrap_or(Err(ActorRefErr::ResultChannelClosed))
     }
 
     pub async fn notify<M: Message>(&self, message: M) -> Result<(), ActorRefErr>
diff --git a/coerce/src/singleton/proxy/send.rs b/coerce/src/singleton/proxy/send.rs
index 5ffe844..56ae561 100644
--- a/coerce/src/singleton/proxy/send.rs
+++ b/coerce/src/singleton/proxy/send.rs
@@ -25,12 +25,18 @@ impl<M: Message> Deliver<M> {
         A: Handler<M>,
     {
         let message = self.message.take().unwrap();
-        let result_channel = self.result_channel.take().unwrap();
+        let result_channel = self.result_channel.take();
         tokio::spawn(async move {
             debug!(msg_type = M::type_name(), "delivering message to singleton");
 
-            let res = actor.send(message).await;
-            result_channel.send(res)
+            match result_channel {
+                Some(result_channel) => {
+                    let _ = result_channel.send(actor.send(message).await);
+                }
+                None => {
+                    let _ = actor.notify(message).await;
+                }
+            }
         });
     }
 }
-- 
2.43.0


From 290c5e8921e18c862aa8969b960df8a407f9eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:15 +0000
Subject: [PATCH 11/26] fix: singleton hand-over: leases are granted once the
 old instance has stopped, to every requester, and the instance starts once

---
 coerce/src/singleton/manager/lease.rs | 109 +++++++++++++++-----------
 coerce/src/singleton/manager/mod.rs   |  90 ++++++++++-----------
 coerce/src/singleton/manager/start.rs |  13 ++-
 3 files changed, 122 insertions(+), 90 deletions(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index f2490a7..fb83200 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -78,22 +78,13 @@ pub struct LeaseNack {
 #[async_trait]
 impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
     async fn handle(&mut self, message: RequestLease, ctx: &mut ActorContext) {
-        if !self.state.is_running() {
-            debug!(
-                source_node_id = message.source_node_id,
-                "received RequestLease"
-            );
-
-            self.grant_lease(message.source_node_id, ctx).await;
-        } else {
-            debug!(
-                node_id = self.node_id,
-                singleton = F::Actor::type_name(),
-                "singleton already running, stopping",
-            );
-
-            self.begin_stopping(message.source_node_id, ctx).await;
-        }
+        debug!(
+            source_node_id = message.source_node_id,
+            "received RequestLease"
+        );
+
+        self.pending_leases.insert(message.source_node_id);
+        self.release_lease(ctx).await;
     }
 }
 
@@ -107,7 +98,7 @@ impl<F: SingletonFactory> Handler<LeaseAck> for Manager<F> {
 impl<F: SingletonFactory> Manager<F> {
     pub async fn request_lease(&mut self, ctx: &ActorContext) {
         if self.managers.len() == 0 {
-            self.on_all_managers_acknowledged(ctx).await;
+            self.start_if_acknowledged(ctx).await;
             return;
         }
 
@@ -124,36 +115,53 @@ impl<F: SingletonFactory> Manager<F> {
         self.notify_managers(request, ctx).await;
     }
 
-    pub async fn grant_lease(&mut self, node_id: NodeId, ctx: &ActorContext) {
-        debug!(target_node_id = node_id, "sending LeaseAck");
+    /// Grants the lease to the nodes that requested it as soon as this node neither runs the
+    /// singleton nor is about to. While this node is the leader itself, or the singleton is still
+    /// starting, stopping or the manager still joining, the requests stay pending.
+    pub async fn release_lease(&mut self, ctx: &ActorContext) {
+        match &self.state {
+            State::Idle => {}
+
+            State::Starting {
+                actor_starting: false,
+                ..
+            } if !self.is_leader() => {
+                self.state = State::Idle;
+            }
 
-        match &mut self.state {
-            State::Joining {
-                acknowledgement_pending,
-            } => {
+            State::Running { .. } if !self.is_leader() && !self.pending_leases.is_empty() => {
                 debug!(
-                    target_node_id = node_id,
-                    "manager still joining, buffering acknowledgement until `MemberUp` received"
+                    node_id = self.node_id,
+                    singleton = F::Actor::type_name(),
+                    "singleton already running, stopping",
                 );
-                acknowledgement_pending.replace(node_id);
-            }
 
-            _ => {
-                self.notify_manager(
-                    node_id,
-                    LeaseAck {
-                        source_node_id: self.node_id,
-                    },
-                    ctx,
-                )
-                .await;
+                self.begin_stopping(ctx).await;
+                return;
             }
+
+            _ => return,
+        }
+
+        for node_id in std::mem::take(&mut self.pending_leases) {
+            debug!(target_node_id = node_id, "sending LeaseAck");
+
+            self.notify_manager(
+                node_id,
+                LeaseAck {
+                    source_node_id: self.node_id,
+                },
+                ctx,
+            )
+            .await;
         }
     }
 
     pub async fn on_lease_ack(&mut self, node_id: NodeId, ctx: &ActorContext) {
         match &mut self.state {
-            State::Starting { acknowledged_nodes } => {
+            State::Starting {
+                acknowledged_nodes, ..
+            } => {
                 acknowledged_nodes.insert(node_id);
 
                 info!(
@@ -162,10 +170,7 @@ impl<F: SingletonFactory> Manager<F> {
                     "received LeaseAck",
                 );
 
-                // TODO: Can we do it with a quorum rather than *all managers*?
-                if acknowledged_nodes.len() == self.managers.len() {
-                    self.on_all_managers_acknowledged(ctx).await;
-                }
+                self.start_if_acknowledged(ctx).await;
             }
 
             state => {
@@ -179,9 +184,25 @@ impl<F: SingletonFactory> Manager<F> {
         }
     }
 
-    pub async fn on_all_managers_acknowledged(&mut self, ctx: &ActorContext) {
-        debug!(node_id = self.node_id, "starting singleton");
-        self.start_actor(ctx).await;
+    pub async fn start_if_acknowledged(&mut self, ctx: &ActorContext) {
+        if let State::Starting {
+            acknowledged_nodes,
+            actor_starting,
+        } = &mut self.state
+        {
+            // TODO: Can we do it with a quorum rather than *all managers*?
+            let acknowledged = self
+                .managers
+                .keys()
+                .all(|node_id| acknowledged_nodes.contains(node_id));
+
+            if acknowledged && !*actor_starting {
+                *actor_starting = true;
+
+                debug!(node_id = self.node_id, "starting singleton");
+                self.start_actor(ctx).await;
+            }
+        }
     }
 
     pub async fn deny_lease(&self, node_id: NodeId) {}
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 9aad610..ba7c4a8 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -6,7 +6,10 @@ use crate::actor::context::ActorContext;
 use crate::actor::message::{
     FromBytes, Handler, Message, MessageUnwrapErr, MessageWrapErr, ToBytes,
 };
-use crate::actor::{Actor, ActorFactory, ActorId, ActorRef, IntoActor, LocalActorRef, ToActorId};
+use crate::actor::watch::ActorTerminated;
+use crate::actor::{
+    Actor, ActorFactory, ActorId, ActorRef, CoreActorRef, IntoActor, LocalActorRef, ToActorId,
+};
 use crate::remote::cluster::node::NodeSelector;
 use crate::remote::stream::pubsub::{PubSub, Receive, Subscription};
 use crate::remote::stream::system::{ClusterEvent, ClusterMemberUp, SystemEvent, SystemTopic};
@@ -19,7 +22,6 @@ use crate::singleton::{proto, proxy};
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Formatter};
-use std::mem;
 use std::time::Duration;
 
 pub struct Manager<F: SingletonFactory> {
@@ -30,6 +32,8 @@ pub struct Manager<F: SingletonFactory> {
     manager_actor_id: ActorId,
     singleton_actor_id: ActorId,
     managers: HashMap<NodeId, ActorRef<Self>>,
+    /// nodes that requested the lease and were not granted it yet
+    pending_leases: HashSet<NodeId>,
     factory: F,
     selector: NodeSelector,
     sys: RemoteActorSystem,
@@ -54,6 +58,7 @@ impl<F: SingletonFactory> Manager<F> {
             manager_actor_id,
             singleton_actor_id,
             managers: Default::default(),
+            pending_leases: Default::default(),
             factory,
             selector,
             sys,
@@ -65,26 +70,23 @@ impl<F: SingletonFactory> Manager<F> {
 
 impl<A: Actor> Default for State<A> {
     fn default() -> Self {
-        Self::Joining {
-            acknowledgement_pending: None,
-        }
+        Self::Joining
     }
 }
 
 pub enum State<A: Actor> {
-    Joining {
-        acknowledgement_pending: Option<NodeId>,
-    },
+    Joining,
     Idle,
     Starting {
         acknowledged_nodes: HashSet<NodeId>,
+        /// all managers acknowledged, the actor is being started
+        actor_starting: bool,
     },
     Running {
         actor_ref: LocalActorRef<A>,
     },
     Stopping {
         actor_ref: LocalActorRef<A>,
-        lease_requested_by: NodeId,
     },
 }
 
@@ -194,18 +196,20 @@ impl<F: SingletonFactory> Manager<F> {
     pub async fn begin_starting(&mut self, ctx: &ActorContext) {
         self.state = State::Starting {
             acknowledged_nodes: HashSet::new(),
+            actor_starting: false,
         };
 
         self.request_lease(ctx).await;
     }
 
-    pub async fn begin_stopping(&mut self, node_id: NodeId, ctx: &ActorContext) {
+    pub async fn begin_stopping(&mut self, ctx: &ActorContext) {
         let actor_ref = self.state.get_actor();
         let actor_ref = match actor_ref {
             Some(actor_ref) => actor_ref,
             None => return,
         };
 
+        let _ = self.proxy.notify(proxy::SingletonStopping);
         let _ = actor_ref.notify_stop();
         self.notify_managers(
             SingletonStopped {
@@ -215,14 +219,19 @@ impl<F: SingletonFactory> Manager<F> {
         )
         .await;
 
-        self.state = State::Stopping {
-            actor_ref,
-            lease_requested_by: node_id,
-        };
+        self.state = State::Stopping { actor_ref };
+    }
+
+    pub fn is_leader(&self) -> bool {
+        self.current_leader_node == Some(self.node_id)
     }
 
     pub async fn on_leader_changed(&mut self, new_leader_id: NodeId, ctx: &ActorContext) {
-        if new_leader_id == self.node_id && !self.state.is_running() {
+        self.current_leader_node = Some(new_leader_id);
+
+        if !self.is_leader() {
+            self.release_lease(ctx).await;
+        } else if matches!(self.state, State::Idle) {
             self.begin_starting(ctx).await;
         }
     }
@@ -247,8 +256,12 @@ impl<F: SingletonFactory> Actor for Manager<F> {
         )
     }
 
-    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
-        if id != &self.singleton_actor_id {
+}
+
+#[async_trait]
+impl<F: SingletonFactory> Handler<ActorTerminated> for Manager<F> {
+    async fn handle(&mut self, message: ActorTerminated, ctx: &mut ActorContext) {
+        if message.actor_ref().actor_id() != &self.singleton_actor_id {
             return;
         }
 
@@ -259,11 +272,13 @@ impl<F: SingletonFactory> Actor for Manager<F> {
                 }
             }
 
-            State::Stopping {
-                lease_requested_by, ..
-            } => {
-                self.grant_lease(*lease_requested_by, ctx).await;
+            State::Stopping { .. } => {
                 self.state = State::Idle;
+                self.release_lease(ctx).await;
+
+                if self.is_leader() {
+                    self.begin_starting(ctx).await;
+                }
             }
 
             _ => {}
@@ -303,24 +318,15 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                         );
                     }
 
-                    match mem::replace(&mut self.state, State::Idle) {
-                        State::Joining {
-                            acknowledgement_pending: Some(node_id),
-                        } => {
-                            self.notify_manager(
-                                node_id,
-                                LeaseAck {
-                                    source_node_id: self.node_id,
-                                },
-                                ctx,
-                            )
-                            .await;
-                        }
-                        _ => {}
-                    }
+                    self.current_leader_node = Some(*leader);
 
-                    if leader == &self.node_id {
-                        self.begin_starting(ctx).await;
+                    if self.state.is_joining() {
+                        self.state = State::Idle;
+                        self.release_lease(ctx).await;
+
+                        if self.is_leader() {
+                            self.begin_starting(ctx).await;
+                        }
                     }
                 }
 
@@ -372,13 +378,7 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
 
                     debug!(node_id = node.id, "node removed");
                     if !self.state.is_joining() {
-                        if let State::Starting { acknowledged_nodes } = &mut self.state {
-                            acknowledged_nodes.remove(&node.id);
-
-                            if acknowledged_nodes.len() == self.managers.len() {
-                                self.on_all_managers_acknowledged(ctx).await;
-                            }
-                        }
+                        self.start_if_acknowledged(ctx).await;
                     }
                 }
 
diff --git a/coerce/src/singleton/manager/start.rs b/coerce/src/singleton/manager/start.rs
index 9fd654a..15fbd77 100644
--- a/coerce/src/singleton/manager/start.rs
+++ b/coerce/src/singleton/manager/start.rs
@@ -1,5 +1,6 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
+use crate::actor::watch::ActorWatch;
 use crate::actor::{Actor, ActorRefErr, IntoActor, LocalActorRef, PipeTo};
 use crate::singleton::factory::SingletonFactory;
 use crate::singleton::manager::{Manager, SingletonStarted, State};
@@ -45,10 +46,17 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                     }
                 }
 
+                self.watch(&actor_ref, ctx);
                 self.state = State::Running {
                     actor_ref: actor_ref.clone(),
                 };
 
+                // another node became the leader and requested the lease in the meantime
+                self.release_lease(ctx).await;
+                if !self.state.is_running() {
+                    return;
+                }
+
                 let _ = self
                     .proxy
                     .notify(proxy::SingletonStarted::new(actor_ref.into()));
@@ -62,7 +70,10 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                 .await;
             }
             ActorStartResult::Failed(e) => {
-                error!(error = format!("{}", e), "singleton actor failed to start")
+                error!(error = format!("{}", e), "singleton actor failed to start");
+
+                self.state = State::Idle;
+                self.release_lease(ctx).await;
             }
         }
     }
-- 
2.43.0


From 67caf6f748e8d2f34c9d2d3b7dbbd843d07d0cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:07 +0000
Subject: [PATCH 12/26] fix: a singleton proxy holds messages only while no
 instance it knows of runs, and when the instance's node is gone

---
 coerce/src/singleton/manager/mod.rs |  9 +++++++--
 coerce/src/singleton/proxy/mod.rs   | 29 +++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index ba7c4a8..5bfa5ba 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -209,7 +209,7 @@ impl<F: SingletonFactory> Manager<F> {
             None => return,
         };
 
-        let _ = self.proxy.notify(proxy::SingletonStopping);
+        let _ = self.proxy.notify(proxy::SingletonStopping::new(None));
         let _ = actor_ref.notify_stop();
         self.notify_managers(
             SingletonStopped {
@@ -375,6 +375,9 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
 
                 ClusterEvent::NodeRemoved(node) => {
                     self.managers.remove(&node.id);
+                    let _ = self
+                        .proxy
+                        .notify(proxy::SingletonStopping::new(Some(node.id)));
 
                     debug!(node_id = node.id, "node removed");
                     if !self.state.is_joining() {
@@ -425,7 +428,9 @@ impl<F: SingletonFactory> Handler<SingletonStopped> for Manager<F> {
             "received stopped notification, notifying proxy"
         );
 
-        let _ = self.proxy.notify(proxy::SingletonStopping);
+        let _ = self
+            .proxy
+            .notify(proxy::SingletonStopping::new(Some(message.source_node_id)));
     }
 }
 
diff --git a/coerce/src/singleton/proxy/mod.rs b/coerce/src/singleton/proxy/mod.rs
index 2eb3892..d58e759 100644
--- a/coerce/src/singleton/proxy/mod.rs
+++ b/coerce/src/singleton/proxy/mod.rs
@@ -1,6 +1,7 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
 use crate::actor::{Actor, ActorRef, ToActorId};
+use crate::remote::system::NodeId;
 use crate::singleton::proxy::send::Buffered;
 use std::collections::VecDeque;
 
@@ -18,6 +19,8 @@ pub enum ProxyState<A: Actor> {
 
 pub struct Proxy<A: Actor> {
     state: ProxyState<A>,
+    /// instances known to have started and not known to have stopped, the latest last
+    started: Vec<ActorRef<A>>,
 }
 
 impl<A: Actor> Proxy<A> {
@@ -26,6 +29,7 @@ impl<A: Actor> Proxy<A> {
             state: ProxyState::Buffered {
                 request_queue: VecDeque::new(),
             },
+            started: vec![],
         }
     }
 }
@@ -49,7 +53,16 @@ impl<A: Actor> SingletonStarted<A> {
     }
 }
 
-pub struct SingletonStopping;
+pub struct SingletonStopping {
+    /// the node of the stopping instance, none if it is this one
+    node_id: Option<NodeId>,
+}
+
+impl SingletonStopping {
+    pub fn new(node_id: Option<NodeId>) -> Self {
+        Self { node_id }
+    }
+}
 
 impl<A: Actor> Message for SingletonStarted<A> {
     type Result = ();
@@ -85,16 +98,24 @@ impl<A: Actor> Handler<SingletonStarted<A>> for Proxy<A> {
             singleton_actor = format!("{}", actor_ref),
             "singleton proxy active - singleton started"
         );
+        self.started.retain(|a| a.node_id() != actor_ref.node_id());
+        self.started.push(actor_ref.clone());
         self.state = ProxyState::Active { actor_ref };
     }
 }
 
 #[async_trait]
 impl<A: Actor> Handler<SingletonStopping> for Proxy<A> {
-    async fn handle(&mut self, _: SingletonStopping, ctx: &mut ActorContext) {
-        debug!("singleton actor stopped, buffering messages");
+    async fn handle(&mut self, message: SingletonStopping, ctx: &mut ActorContext) {
+        self.started.retain(|a| a.node_id() != message.node_id);
+
+        if let Some(actor_ref) = self.started.last() {
+            self.state = ProxyState::Active {
+                actor_ref: actor_ref.clone(),
+            };
+        } else if self.state.is_active() {
+            debug!("singleton actor stopped, buffering messages");
 
-        if self.state.is_active() {
             self.state = ProxyState::Buffered {
                 request_queue: VecDeque::new(),
             }
-- 
2.43.0


From 584a059f54bca0ead6ce5046ec625c774b3af94d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:18:49 +0000
Subject: [PATCH 13/26] fix: a shard being moved is not allocated before its
 old host has stopped it

---
 coerce/src/sharding/coordinator/allocation.rs |  7 +++++++
 coerce/src/sharding/coordinator/balancing.rs  | 12 +++++++++++-
 coerce/src/sharding/coordinator/mod.rs        |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 7cbbfae..dadfbba 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -73,9 +73,16 @@ impl Handler<AllocateShard> for ShardCoordinator {
         }
 
         if message.rebalancing {
+            self.reallocating_shards.remove(&message.shard_id);
             return self.allocate_shard(message.shard_id, ctx).await;
         }
 
+        if self.reallocating_shards.contains_key(&message.shard_id) {
+            // the previous host has not stopped the shard yet, all hosts are told once
+            // it has stopped and the shard is allocated again
+            return AllocateShardResult::NotAllocated;
+        }
+
         match self.persist(&message, ctx).await {
             Ok(_) => self.allocate_shard(message.shard_id, ctx).await,
             Err(e) => {
diff --git a/coerce/src/sharding/coordinator/balancing.rs b/coerce/src/sharding/coordinator/balancing.rs
index b3a473f..ff5cd47 100644
--- a/coerce/src/sharding/coordinator/balancing.rs
+++ b/coerce/src/sharding/coordinator/balancing.rs
@@ -98,6 +98,7 @@ impl ShardCoordinator {
             if let Some(shard_node_id) = self.shards.remove(&shard) {
                 let shard_host = self.hosts.get_mut(&shard_node_id).unwrap();
                 let _ = shard_host.shards.remove(&shard);
+                self.reallocating_shards.insert(shard, shard_node_id);
 
                 let self_ref = self_ref.clone();
                 let shard_host_actor = shard_host.actor.clone();
@@ -148,7 +149,7 @@ impl ShardCoordinator {
     pub async fn rebalance_unavailable_node(&mut self, node_id: NodeId, ctx: &mut ActorContext) {
         debug!("beginning re-balance of shards hosted on node={}", node_id);
 
-        let shards_to_rebalance = {
+        let mut shards_to_rebalance = {
             let mut shard_host_state = match self.hosts.get_mut(&node_id) {
                 None => return,
                 Some(shard_host_state) => shard_host_state,
@@ -161,6 +162,15 @@ impl ShardCoordinator {
             mem::take(&mut shard_host_state.shards)
         };
 
+        // Shards that were about to be moved away from the node no longer have to wait for it
+        self.reallocating_shards.retain(|shard, source| {
+            if *source == node_id {
+                shards_to_rebalance.insert(*shard);
+            }
+
+            *source != node_id
+        });
+
         let shard_count = shards_to_rebalance.len();
         for shard in shards_to_rebalance {
             self.shards.remove(&shard);
diff --git a/coerce/src/sharding/coordinator/mod.rs b/coerce/src/sharding/coordinator/mod.rs
index 0a90d1a..eb2fd0a 100644
--- a/coerce/src/sharding/coordinator/mod.rs
+++ b/coerce/src/sharding/coordinator/mod.rs
@@ -54,7 +54,7 @@ pub struct ShardCoordinator {
     local_shard_host: LocalActorRef<ShardHost>,
     hosts: HashMap<NodeId, ShardHostState>,
     shards: HashMap<ShardId, NodeId>,
-    reallocating_shards: HashSet<ShardId>,
+    reallocating_shards: HashMap<ShardId, NodeId>,
     scheduled_rebalance: Option<ScheduledRebalance>,
     self_node_id: Option<NodeId>,
     system_event_subscription: Option<Subscription>,
-- 
2.43.0


From f954373ce21b3d70688f8a29cc328a7be69177a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:18:49 +0000
Subject: [PATCH 14/26] fix: hosts that are not available do not count towards
 the fair share of shards

---
 coerce/src/sharding/coordinator/balancing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/coordinator/balancing.rs b/coerce/src/sharding/coordinator/balancing.rs
index ff5cd47..909c8cd 100644
--- a/coerce/src/sharding/coordinator/balancing.rs
+++ b/coerce/src/sharding/coordinator/balancing.rs
@@ -30,7 +30,8 @@ impl Handler<Rebalance> for ShardCoordinator {
                 let self_ref = ctx.actor_ref();
 
                 let total_shards = self.shards.len();
-                let fair_shard_count_per_node = total_shards / self.hosts.len();
+                let ready_hosts = self.hosts.values().filter(|h| h.is_ready()).count();
+                let fair_shard_count_per_node = total_shards / ready_hosts.max(1);
 
                 let mut shards_to_rebalance = vec![];
                 for (node_id, shard_host) in &self.hosts {
-- 
2.43.0


From 20442deec17bd3a74833b3cc640cf89917767195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:31 +0000
Subject: [PATCH 15/26] fix: a shard host answers every stop request once the
 shard has stopped and keeps requests meanwhile

---
 coerce/src/sharding/host/mod.rs     | 182 ++++++++++++++++------------
 coerce/src/sharding/host/request.rs |   3 +-
 2 files changed, 107 insertions(+), 78 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index f3f3002..90a2ed7 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -14,6 +14,7 @@ use crate::remote::actor::BoxedActorHandler;
 use crate::remote::heartbeat::Heartbeat;
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, VecDeque};
+use std::mem;
 
 use crate::actor::scheduler::ActorType;
 use crate::sharding::coordinator::factory::CoordinatorFactory;
@@ -28,10 +29,12 @@ pub enum ShardState {
     Starting {
         actor_ref: LocalActorRef<Shard>,
         request_buffer: Vec<EntityRequest>,
-        stop_requested: Option<StopRequested>,
     },
     Ready(LocalActorRef<Shard>),
-    Stopping,
+    Stopping {
+        request_buffer: Vec<EntityRequest>,
+        stop_requested: Vec<StopRequested>,
+    },
 }
 
 pub struct StopRequested {
@@ -209,22 +212,19 @@ impl Handler<ShardAllocated> for ShardHost {
                     hosted_shard_entry.insert(ShardState::Starting {
                         actor_ref,
                         request_buffer: vec![],
-                        stop_requested: None,
                     });
 
                     debug!("local shard#{} allocated to node={}", message.0, message.1);
                 }
             }
         } else {
-            if let Some(shard) = self.hosted_shards.remove(&shard_id) {
+            if self.hosted_shards.contains_key(&shard_id) {
                 debug!(
                     "shard#{} was allocated locally but now allocated remotely on node={}, stopping shard",
                     shard_id, node_id
                 );
 
-                if let Some(shard_actor) = shard.actor_ref() {
-                    let _ = shard_actor.notify_stop();
-                }
+                self.stop_shard(shard_id, ctx, None);
             }
 
             let shard_actor =
@@ -254,30 +254,17 @@ impl Handler<ShardReady> for ShardHost {
         let shard_id = message.0;
         let actor_ref = message.1;
 
-        let shard_state = self
-            .hosted_shards
-            .insert(shard_id, ShardState::Ready(actor_ref.clone()));
+        if let Some(shard_state) = self.hosted_shards.get_mut(&shard_id) {
+            // a shard that was asked to stop while it was starting remains `Stopping`
+            if let ShardState::Starting { request_buffer, .. } = shard_state {
+                let request_buffer = mem::take(request_buffer);
+                ctx.attach_child_ref(actor_ref.clone().into());
 
-        ctx.attach_child_ref(actor_ref.clone().into());
-
-        match shard_state {
-            Some(ShardState::Starting {
-                request_buffer,
-                stop_requested,
-                ..
-            }) => {
-                if let Some(stop_requested) = stop_requested {
-                    // TODO: move the request buffer over to `requests_pending_shard_allocation`
-                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
-                } else {
-                    let mut shard_state = ShardState::Ready(actor_ref);
-                    for request in request_buffer {
-                        handle_request(request, shard_id, &mut shard_state);
-                    }
+                *shard_state = ShardState::Ready(actor_ref);
+                for request in request_buffer {
+                    handle_request(request, shard_id, shard_state);
                 }
             }
-
-            _ => {}
         }
     }
 }
@@ -292,82 +279,123 @@ impl Handler<ShardReallocating> for ShardHost {
 #[async_trait]
 impl Handler<StopShard> for ShardHost {
     async fn handle(&mut self, message: StopShard, ctx: &mut ActorContext) {
-        let shard_id = message.shard_id;
-        let shard_entry = self.hosted_shards.entry(shard_id);
         let stop_request = StopRequested {
             origin_node_id: message.origin_node_id,
             request_id: message.request_id,
         };
 
-        match shard_entry {
-            Entry::Occupied(mut shard_entry) => {
-                // TODO: is this correct? if the status is starting, should we not update that rather than re-inserting `Stopping`?
-                match shard_entry.insert(ShardState::Stopping) {
-                    ShardState::Starting {
-                        mut stop_requested, ..
-                    } => {
-                        // actor has requested to be started so we can't stop it yet, once the actor
-                        // has finished starting, we can then stop it.
-                        stop_requested = Some(stop_request);
-                    }
-
-                    ShardState::Ready(actor_ref) => {
-                        self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
-                    }
-
-                    ShardState::Stopping => {
-                        // shard already stopping
-                    }
-                }
-            }
-            Entry::Vacant(_) => {}
-        }
+        self.stop_shard(message.shard_id, ctx, Some(stop_request));
     }
 }
 
 impl ShardHost {
+    /// Stops the shard, whatever state it is in. A shard that is still starting is stopped once
+    /// it has finished starting. The stop request is answered when the shard has stopped.
     fn stop_shard(
-        &self,
+        &mut self,
         shard_id: ShardId,
-        actor_ref: LocalActorRef<Shard>,
         ctx: &ActorContext,
-        stop_requested: Option<StopRequested>,
+        stop_request: Option<StopRequested>,
     ) {
+        let (actor_ref, request_buffer) = match self.hosted_shards.remove(&shard_id) {
+            Some(ShardState::Starting {
+                actor_ref,
+                request_buffer,
+            }) => (actor_ref, request_buffer),
+
+            Some(ShardState::Ready(actor_ref)) => (actor_ref, vec![]),
+
+            Some(ShardState::Stopping {
+                request_buffer,
+                mut stop_requested,
+            }) => {
+                stop_requested.extend(stop_request);
+                self.hosted_shards.insert(
+                    shard_id,
+                    ShardState::Stopping {
+                        request_buffer,
+                        stop_requested,
+                    },
+                );
+                return;
+            }
+
+            None => {
+                if let Some(stop_request) = stop_request {
+                    notify_shard_stopped(shard_id, true, stop_request, ctx);
+                }
+                return;
+            }
+        };
+
+        self.hosted_shards.insert(
+            shard_id,
+            ShardState::Stopping {
+                request_buffer,
+                stop_requested: stop_request.into_iter().collect(),
+            },
+        );
+
         let shard_host = self.actor_ref(ctx);
-        let remote_system = ctx.system().remote_owned();
         tokio::spawn(async move {
             let result = actor_ref.stop().await;
             let _ = shard_host.notify(ShardStopped {
                 shard_id,
                 stopped_successfully: result.is_ok(),
             });
-
-            if let Some(stop_requested) = stop_requested {
-                let shard_stopped = ShardStopped {
-                    shard_id,
-                    stopped_successfully: result.is_ok(),
-                }
-                .into_envelope(EnvelopeType::Remote)
-                .unwrap()
-                .into_bytes();
-
-                let _ = remote_system
-                    .notify_raw_rpc_result(
-                        stop_requested.request_id,
-                        shard_stopped,
-                        stop_requested.origin_node_id,
-                    )
-                    .await;
-            }
         });
     }
 }
 
+fn notify_shard_stopped(
+    shard_id: ShardId,
+    stopped_successfully: bool,
+    stop_request: StopRequested,
+    ctx: &ActorContext,
+) {
+    let remote_system = ctx.system().remote_owned();
+    tokio::spawn(async move {
+        let shard_stopped = ShardStopped {
+            shard_id,
+            stopped_successfully,
+        }
+        .into_envelope(EnvelopeType::Remote)
+        .unwrap()
+        .into_bytes();
+
+        let _ = remote_system
+            .notify_raw_rpc_result(
+                stop_request.request_id,
+                shard_stopped,
+                stop_request.origin_node_id,
+            )
+            .await;
+    });
+}
+
 #[async_trait]
 impl Handler<ShardStopped> for ShardHost {
-    async fn handle(&mut self, message: ShardStopped, _ctx: &mut ActorContext) {
-        self.hosted_shards.remove(&message.shard_id);
+    async fn handle(&mut self, message: ShardStopped, ctx: &mut ActorContext) {
         info!("shard#{} stopped", message.shard_id);
+
+        if let Some(ShardState::Stopping {
+            request_buffer,
+            stop_requested,
+        }) = self.hosted_shards.remove(&message.shard_id)
+        {
+            for stop_request in stop_requested {
+                notify_shard_stopped(
+                    message.shard_id,
+                    message.stopped_successfully,
+                    stop_request,
+                    ctx,
+                );
+            }
+
+            for request in request_buffer {
+                self.handle(request, ctx).await;
+            }
+        }
     }
 }
 
diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 4466d32..7d962e9 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -62,7 +62,8 @@ pub(crate) fn handle_request(
                 }
             });
         }
-        ShardState::Stopping => {}
+        // delivered to wherever the shard is allocated, once it has stopped
+        ShardState::Stopping { request_buffer, .. } => request_buffer.push(message),
     }
 }
 
-- 
2.43.0


From 4b39638775ca45371c894a99ee53c034e44b1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:52 +0000
Subject: [PATCH 16/26] fix: a shard has stopped only once all of its entities
 have

---
 coerce/src/sharding/shard/mod.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 4940fdc..17c041a 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -16,6 +16,7 @@ use crate::sharding::shard::message::{
 };
 use crate::sharding::shard::recovery::ShardStateSnapshot;
 use chrono::{DateTime, Utc};
+use futures::future::{join, join_all};
 use futures::SinkExt;
 use protobuf::Message as ProtoMessage;
 use std::collections::hash_map::Entry;
@@ -25,6 +26,7 @@ use std::mem;
 use std::sync::Arc;
 use tokio::sync::oneshot;
 use tokio::sync::oneshot::Sender;
+use tokio::task::JoinHandle;
 
 pub mod message;
 pub(crate) mod passivation;
@@ -40,6 +42,7 @@ pub struct Shard {
     recovered_snapshot: bool,
     entity_passivation: bool,
     entities: HashMap<ActorId, Entity>,
+    starting_entities: HashMap<ActorId, JoinHandle<Option<BoxedActorRef>>>,
     host: LocalActorRef<ShardHost>,
 }
 
@@ -55,6 +58,7 @@ impl Shard {
             handler,
             persistent_entities,
             entities: HashMap::new(),
+            starting_entities: HashMap::new(),
             recovered_snapshot: false,
             entity_passivation: true,
             host,
@@ -176,6 +180,23 @@ impl PersistentActor for Shard {
             .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
     }
 
+    async fn stopped(&mut self, _ctx: &mut ActorContext) {
+        // The shard may be started on another node as soon as it has stopped here, so all entities,
+        // including those that are still starting, have to be stopped by then.
+        let starting_entities = self.starting_entities.drain().map(|(_, entity)| async move {
+            if let Ok(Some(entity)) = entity.await {
+                let _ = entity.stop().await;
+            }
+        });
+
+        let entities = self.entities.values().filter_map(|e| e.state.get_actor_ref());
+        let entities = entities.map(|entity| async move {
+            let _ = entity.stop().await;
+        });
+
+        join(join_all(starting_entities), join_all(entities)).await;
+    }
+
     async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {}
 }
 
@@ -232,6 +253,8 @@ impl Handler<EntityStartResult> for Shard {
             is_shard_recovery,
         } = message;
 
+        self.starting_entities.remove(&actor_id);
+
         match result {
             Ok(actor_ref) => {
                 if let Some(previous) = ctx.add_child_ref(actor_ref.clone()) {
@@ -300,7 +323,8 @@ impl Shard {
         let system = ctx.system().clone();
         let self_ref = self.actor_ref(ctx);
 
-        tokio::spawn(async move {
+        let entity_id = actor_id.clone();
+        let entity = tokio::spawn(async move {
             let result = handler
                 .create(
                     Some(actor_id.clone()),
@@ -310,12 +334,17 @@ impl Shard {
                 )
                 .await;
 
+            let entity = result.as_ref().ok().cloned();
             let _ = self_ref.notify(EntityStartResult {
                 actor_id,
                 result,
                 is_shard_recovery,
             });
+
+            entity
         });
+
+        self.starting_entities.insert(entity_id, entity);
     }
 }
 
-- 
2.43.0


From 7f94be756aaf613b2e9056a40bd584254b5cbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:03 +0000
Subject: [PATCH 17/26] fix: requests to an entity that failed to start are
 answered

---
 coerce/src/sharding/shard/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 17c041a..7e95d70 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -291,12 +291,18 @@ impl Handler<EntityStartResult> for Shard {
                 );
             }
             Err(e) => {
-                // TODO: we should respond to all buffered requests with a failure
-
                 error!(
                     "failed to spawn entity as a child of Shard#{}, actor_id={}, error={}, is_shard_recovery={}",
                     &self.shard_id, &actor_id, e, is_shard_recovery
-                )
+                );
+
+                if let Some(entity) = self.entities.remove(&actor_id) {
+                    if let EntityState::Starting { request_buffer } = entity.state {
+                        for request in request_buffer {
+                            request.result_channel.map(|c| c.send(Err(e.clone())));
+                        }
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 31b966c638d5761bfa1808b0e19d544f2ca00a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:14 +0000
Subject: [PATCH 18/26] fix: a request to a remote shard is answered when it
 could not be delivered

---
 coerce/src/sharding/host/request.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 7d962e9..1ebf18a 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -141,8 +141,8 @@ async fn remote_entity_request(
         system.node_id()
     );
 
-    shard_ref
-        .notify(RemoteEntityRequest {
+    let delivered = shard_ref
+        .send(RemoteEntityRequest {
             origin_node: system.node_id(),
             request_id,
             actor_id: request.actor_id.into_actor_id(),
@@ -150,8 +150,15 @@ async fn remote_entity_request(
             message: request.message,
             recipe: request.recipe.map(|r| r.as_ref().clone()),
         })
-        .await
-        .expect("shard notify");
+        .await;
+
+    if let Err(e) = delivered {
+        // the shard did not receive the request, so it will not answer it
+        if system.pop_request(request_id).is_some() {
+            result_channel.map(|result_sender| result_sender.send(Err(e.clone())));
+            return Err(e);
+        }
+    }
 
     trace!(
         "emitted RemoteEntityRequest to node_id={} from node_id={}, waiting for reply",
-- 
2.43.0


From 2a16c55f1f400ee2572f08b28da4869368f81574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:40 +0000
Subject: [PATCH 19/26] fix: requests waiting for a shard are answered when its
 allocation failed

---
 coerce/src/sharding/host/request.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 1ebf18a..cedf08b 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -112,15 +112,38 @@ impl Handler<EntityRequest> for ShardHost {
                         }
                         AllocateShardResult::Err(e) => {
                             error!("shard(#{}) failed to allocate: {}", shard_id, e);
+                            let _ = host_ref.notify(ShardNotAllocated(
+                                shard_id,
+                                ActorRefErr::ActorUnavailable,
+                            ));
                         }
                     },
-                    Err(_e) => {}
+                    Err(e) => {
+                        let _ = host_ref.notify(ShardNotAllocated(shard_id, e));
+                    }
                 }
             });
         }
     }
 }
 
+struct ShardNotAllocated(ShardId, ActorRefErr);
+
+impl Message for ShardNotAllocated {
+    type Result = ();
+}
+
+#[async_trait]
+impl Handler<ShardNotAllocated> for ShardHost {
+    async fn handle(&mut self, message: ShardNotAllocated, _ctx: &mut ActorContext) {
+        let ShardNotAllocated(shard_id, err) = message;
+        let requests = self.requests_pending_shard_allocation.remove(&shard_id);
+        for request in requests.into_iter().flatten() {
+            request.result_channel.map(|c| c.send(Err(err.clone())));
+        }
+    }
+}
+
 async fn remote_entity_request(
     shard_ref: ActorRef<Shard>,
     mut request: EntityRequest,
-- 
2.43.0


From cfb1af1522b035f4a73ae42d1c186498c1a9cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 20/26] fix: a connection that has not identified itself, or is
 refused, does not hold up the other peers of a node

---
 coerce/src/remote/net/server/session/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/net/server/session/store.rs b/coerce/src/remote/net/server/session/store.rs
index fb7f139..f1f58f9 100644
--- a/coerce/src/remote/net/server/session/store.rs
+++ b/coerce/src/remote/net/server/session/store.rs
@@ -48,12 +48,12 @@ impl Handler<NewSession> for RemoteSessionStore {
         let session_id = message.0.id;
         let session = message.0;
 
+        // the session starts once its peer has identified itself, which must not hold up the others
         let session_actor = ctx
-            .spawn(
+            .spawn_deferred(
                 format!("session-{}", session_id.to_string()).into_actor_id(),
                 session,
             )
-            .await
             .expect("unable to create session actor");
 
         let node_id = ctx.system().remote().node_id();
-- 
2.43.0


From 7e40554f5d48ef873b6465a1900d9e8af408ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 21/26] fix: a frame that cannot be decoded is rejected instead
 of ending the task that reads it

---
 coerce/src/remote/net/message.rs | 34 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/coerce/src/remote/net/message.rs b/coerce/src/remote/net/message.rs
index 64daf32..ebc7ba7 100644
--- a/coerce/src/remote/net/message.rs
+++ b/coerce/src/remote/net/message.rs
@@ -56,22 +56,22 @@ impl StreamData for ClientEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identity) => Some(ClientEvent::Identity(
-                    NodeIdentity::parse_from_bytes(message).unwrap(),
+                    NodeIdentity::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(ClientEvent::Handshake(
-                    ClientHandshake::parse_from_bytes(message).unwrap(),
+                    ClientHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Result) => Some(ClientEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Err) => Some(ClientEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientErr::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Ping) => Some(ClientEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(ClientEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
@@ -98,37 +98,37 @@ impl StreamData for SessionEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identify) => Some(SessionEvent::Identify(
-                    IdentifyEvent::parse_from_bytes(message).unwrap(),
+                    IdentifyEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(SessionEvent::Handshake(
-                    SessionHandshake::parse_from_bytes(message).unwrap(),
+                    SessionHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Ping) => Some(SessionEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(SessionEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::CreateActor) => Some(SessionEvent::CreateActor(
-                    CreateActorEvent::parse_from_bytes(message).unwrap(),
+                    CreateActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::FindActor) => Some(SessionEvent::FindActor(
-                    FindActorEvent::parse_from_bytes(message).unwrap(),
+                    FindActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::NotifyActor) => Some(SessionEvent::NotifyActor(
-                    MessageRequest::parse_from_bytes(message).unwrap(),
+                    MessageRequest::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::RegisterActor) => Some(SessionEvent::RegisterActor(
-                    ActorAddress::parse_from_bytes(message).unwrap(),
+                    ActorAddress::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::StreamPublish) => Some(SessionEvent::StreamPublish(Arc::new(
-                    StreamPublishEvent::parse_from_bytes(message).unwrap(),
+                    StreamPublishEvent::parse_from_bytes(message).ok()?,
                 ))),
                 Some(Event::Result) => Some(SessionEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Err) => Some(SessionEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientErr::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
-- 
2.43.0


From ca9af2c4ecefcfd3e1c9060661b805d6695e9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 22/26] fix: an actor deployed on the node itself is answered
 with a usable reference

---
 coerce/src/remote/system/actor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coerce/src/remote/system/actor.rs b/coerce/src/remote/system/actor.rs
index cc360b3..9dcab32 100644
--- a/coerce/src/remote/system/actor.rs
+++ b/coerce/src/remote/system/actor.rs
@@ -167,6 +167,12 @@ impl RemoteActorSystem {
         }
 
         match actor_addr {
+            Some(actor_address) if actor_address.node_id.value == self_id => self
+                .actor_system()
+                .get_tracked_actor(actor_address.actor_id.into_actor_id())
+                .await
+                .map(ActorRef::from)
+                .ok_or(RemoteActorErr::ActorUnavailable),
             Some(actor_address) => {
                 let actor_ref = RemoteActorRef::<F::Actor>::new(
                     actor_address.actor_id.into_actor_id(),
-- 
2.43.0


From 2daa8aaa734b6193cf2110f686a3491c2671f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:26 +0000
Subject: [PATCH 23/26] fix: a failed deployment on another node is answered

---
 coerce/src/remote/net/server/session/mod.rs | 43 ++++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 04d247b..d839949 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::{ActorContext, LogContext};
 use crate::actor::message::Handler;
-use crate::actor::{Actor, ActorId, IntoActorId, LocalActorRef};
+use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
 use crate::remote::cluster::discovery::{Discover, Seed};
@@ -9,14 +9,15 @@ use crate::remote::net::message::{
     datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent,
 };
 use crate::remote::net::proto::network::{
-    ActorAddress, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest, NodeIdentity,
-    PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
+    ActorAddress, ClientErr, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest,
+    NodeIdentity, PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
     SystemCapabilities,
 };
 use crate::remote::net::server::session::store::{RemoteSessionStore, SessionClosed, SessionWrite};
 use crate::remote::net::server::RemoteServerConfigRef;
 use crate::remote::net::{receive_loop, StreamData, StreamReceiver};
 use crate::remote::stream::mediator::PublishRaw;
+use crate::remote::system::actor::RemoteActorErr;
 use crate::remote::system::{NodeId, RemoteActorSystem};
 use crate::CARGO_PKG_VERSION;
 use futures::{SinkExt, StreamExt};
@@ -608,12 +609,25 @@ async fn session_create_actor(
         actor_id.as_ref().map_or_else(|| "N/A", |s| s)
     );
     match ctx
-        .handle_create_actor(actor_id, msg.actor_type, msg.recipe)
+        .handle_create_actor(actor_id.clone(), msg.actor_type.clone(), msg.recipe)
         .await
     {
         Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
-        Err(_) => {
-            error!("failed to handle message, todo: send err");
+        Err(e) => {
+            error!("failed to create actor, error={:?}", &e);
+
+            let actor_id = actor_id.unwrap_or_else(|| String::new().into_actor_id());
+            let error = match e {
+                RemoteActorErr::ActorExists => ActorRefErr::AlreadyExists(actor_id),
+                RemoteActorErr::ActorNotSupported => ActorRefErr::NotSupported {
+                    actor_id,
+                    message_type: String::new(),
+                    actor_type: msg.actor_type,
+                },
+                _ => ActorRefErr::ActorUnavailable,
+            };
+
+            send_err(msg_id, error, session_id, session).await
         }
     }
 }
@@ -645,3 +659,20 @@ async fn send_result(
         error!("failed to send result");
     }
 }
+
+async fn send_err(
+    message_id: String,
+    error: ActorRefErr,
+    session_id: i64,
+    session: LocalActorRef<RemoteSession>,
+) {
+    let event = ClientEvent::Err(ClientErr {
+        message_id,
+        error: Some(error.into()).into(),
+        ..ClientErr::default()
+    });
+
+    if session.send(SessionWrite(session_id, event)).await.is_err() {
+        error!("failed to send error");
+    }
+}
-- 
2.43.0


From 86e6077b7f6a043171a04fbc8421317f0cc572ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:37 +0000
Subject: [PATCH 24/26] fix: a node whose seed address is its own does not
 connect to itself

---
 coerce/src/remote/cluster/builder/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/cluster/builder/worker.rs b/coerce/src/remote/cluster/builder/worker.rs
index 7494470..4404899 100644
--- a/coerce/src/remote/cluster/builder/worker.rs
+++ b/coerce/src/remote/cluster/builder/worker.rs
@@ -88,7 +88,7 @@ impl ClusterWorkerBuilder {
             // TODO: this check only works if the listen addr & cluster node addr are equal,
             //        should we perform a resolution via `lookup_host` instead?
 
-            if self.seed_addr.as_ref() != Some(&cluster_node_addr) {
+            if seed_addr != cluster_node_addr {
                 discover_peers(seed_addr, &self.system).await;
             }
         }
-- 
2.43.0


From b1265c6d7cfefe8776e8bd08323e3e15620d9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:49 +0000
Subject: [PATCH 25/26] fix: a request accepted while an actor drops its
 mailbox is not left waiting for ever

---
 coerce/src/actor/refs/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/coerce/src/actor/refs/mod.rs b/coerce/src/actor/refs/mod.rs
index a06d2df..d37eacb 100644
--- a/coerce/src/actor/refs/mod.rs
+++ b/coerce/src/actor/refs/mod.rs
@@ -399,8 +399,8 @@ impl<A: Actor> LocalActorRef<A> {
             .sender
             .send(Box::new(ActorMessage::new(msg, Some(tx))))
         {
-            Ok(_) => match rx.await {
-                Ok(res) => {
+            Ok(_) => match self.receive_result(rx).await {
+                Some(res) => {
                     trace!(
                         "recv result (msg_type={msg_type} actor_type={actor_type})",
                         msg_type = message_type,
@@ -409,12 +409,22 @@ impl<A: Actor> LocalActorRef<A> {
 
                     Ok(res)
                 }
-                Err(_e) => Err(ActorRefErr::ResultChannelClosed),
+                None => Err(ActorRefErr::ResultChannelClosed),
             },
             Err(_e) => Err(ActorRefErr::InvalidRef),
         }
     }
 
+    /// Waits for the result of a message that the mailbox accepted. A message accepted at the moment
+    /// the actor drops its mailbox can remain there unhandled, so the mailbox being closed ends the wait.
+    async fn receive_result<T>(&self, mut rx: oneshot::Receiver<T>) -> Option<T> {
+        tokio::select! {
+            biased;
+            res = &mut rx => res.ok(),
+            _ = self.inner.sender.closed() => rx.try_recv().ok(),
+        }
+    }
+
     /// Sends a message to the target [`Actor`][Actor], with the added benefit of passing in a custom oneshot sender,
     /// allowing the use of a separate channel rather than creating one directly as part of the `send` operation
     pub fn deliver<M: Message>(
@@ -499,7 +509,7 @@ impl<A: Actor> LocalActorRef<A> {
         let (tx, rx) = oneshot::channel();
         let res = self.notify(Stop(Some(tx)));
         if res.is_ok() {
-            rx.await.map_err(|_| ActorRefErr::InvalidRef)
+            self.receive_result(rx).await.ok_or(ActorRefErr::InvalidRef)
         } else {
             res
         }
-- 
2.43.0


From 62bad044728bc0cc9612057a5d54e28907381eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 26/26] fix: shutting down a system does not wait for ever for
 an actor that is using it

---
 coerce/src/actor/scheduler/mod.rs | 13 +++++++++++++
 coerce/src/actor/system/mod.rs    | 12 ++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index b2a2d0c..81d2b56 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -142,6 +142,19 @@ where
     type Result = ();
 }
 
+pub struct GetTrackedActors;
+
+impl Message for GetTrackedActors {
+    type Result = Vec<BoxedActorRef>;
+}
+
+#[async_trait]
+impl Handler<GetTrackedActors> for ActorScheduler {
+    async fn handle(&mut self, _: GetTrackedActors, _ctx: &mut ActorContext) -> Vec<BoxedActorRef> {
+        self.actors.values().cloned().collect()
+    }
+}
+
 pub struct DeregisterActor(pub ActorId);
 
 impl Message for DeregisterActor {
diff --git a/coerce/src/actor/system/mod.rs b/coerce/src/actor/system/mod.rs
index 949fa01..f5181f3 100644
--- a/coerce/src/actor/system/mod.rs
+++ b/coerce/src/actor/system/mod.rs
@@ -1,8 +1,10 @@
 //! Actor System
 //!
-use crate::actor::scheduler::{start_actor, ActorScheduler, ActorType, GetActor, RegisterActor};
+use crate::actor::scheduler::{
+    start_actor, ActorScheduler, ActorType, GetActor, GetTrackedActors, RegisterActor,
+};
 use crate::actor::{
-    new_actor_id, Actor, ActorId, ActorPath, ActorRefErr, BoxedActorRef, IntoActorId,
+    new_actor_id, Actor, ActorId, ActorPath, ActorRefErr, BoxedActorRef, CoreActorRef, IntoActorId,
     LocalActorRef, ToActorId,
 };
 
@@ -217,6 +219,12 @@ impl ActorSystem {
         info!("shutting down");
 
         self.core.is_terminated.store(true, Relaxed);
+
+        // the scheduler serves the actors until they have stopped, as they may be waiting for it
+        if let Ok(actors) = self.core.scheduler.send(GetTrackedActors).await {
+            futures::future::join_all(actors.iter().map(|actor| actor.stop())).await;
+        }
+
         let _ = self.core.scheduler.stop().await;
 
         #[cfg(feature = "remote")]
-- 
2.43.0

