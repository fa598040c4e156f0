//! Nodes of one thread whose messages to each other are taken over by the driver (hook: system::tap).
use coerce::actor::system::ActorSystem;
use coerce::actor::IntoActorId;
use coerce::remote::actor::RemoteResponse;
use coerce::remote::cluster::node::{RemoteNode, RemoteNodeRef};
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::net::message::SessionEvent;
use coerce::remote::net::proto::network::MessageRequest;
use coerce::remote::stream::pubsub::PubSub;
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use coerce::remote::system::builder::RemoteSystemConfigBuilder;
use coerce::remote::system::{tap, RemoteActorSystem};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type Packet = (u64, u64, SessionEvent);

/// Everything the nodes of this thread sent since the last `take`.
#[derive(Clone)]
pub struct Wire(Arc<Mutex<Vec<Packet>>>);
impl Wire {
    pub fn install() -> Wire {
        let q: Arc<Mutex<Vec<Packet>>> = Default::default();
        let q2 = q.clone();
        tap::set(Some(Box::new(move |from, to, e| {
            q2.lock().unwrap().push((from, to, e));
            None
        })));
        Wire(q)
    }
    pub fn is_empty(&self) -> bool {
        self.0.lock().unwrap().is_empty()
    }
    pub fn take(&self) -> Vec<Packet> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}

pub fn still_heartbeat() -> HeartbeatConfig {
    HeartbeatConfig {
        interval: Duration::from_secs(1_000_000),
        ping_timeout: Duration::from_secs(1_000),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(10_000_000),
        terminated_node_heartbeat_timeout: Duration::from_secs(20_000_000),
        minimum_cluster_size: None,
    }
}

pub async fn node<F>(id: u64, sys: ActorSystem, cfg: F) -> RemoteActorSystem
where
    F: 'static + Fn(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder,
{
    RemoteActorSystem::builder().with_tag("n").with_id(id).with_actor_system(sys).configure(move |b| cfg(b).heartbeat(still_heartbeat())).build().await
}

pub fn member(id: u64) -> RemoteNodeRef {
    Arc::new(RemoteNode::new(id, format!("addr-{}", id), format!("tag-{}", id), None, Default::default()))
}

pub async fn event(sys: &RemoteActorSystem, e: ClusterEvent) {
    PubSub::publish_locally(SystemTopic, SystemEvent::Cluster(e), sys).await
}

/// What a session does with a message request: hands it to the actor and answers if asked to.
pub fn deliver(to: RemoteActorSystem, origin: RemoteActorSystem, r: MessageRequest) {
    tokio::spawn(async move {
        let res = to.handle_message(&r.handler_type, r.actor_id.clone().into_actor_id(), &r.message).await;
        if r.requires_response {
            if let Some(tx) = origin.pop_request(uuid::Uuid::from_str(&r.message_id).unwrap()) {
                let _ = tx.send(match res { Ok(b) => RemoteResponse::Ok(b), Err(e) => RemoteResponse::Err(e) });
            }
        }
    });
}
