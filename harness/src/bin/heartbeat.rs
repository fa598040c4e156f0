//! Heartbeat.tla replay (E01, E02): one node, members registered and pings supplied by the driver.
use async_trait::async_trait;
use chrono::{DateTime, Utc};
use coerce::actor::context::ActorContext;
use coerce::actor::message::Handler;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, IntoActor};
use coerce::remote::actor::message::NodeTerminated;
use coerce::remote::cluster::node::{NodeStatus, RemoteNode};
use coerce::remote::heartbeat::{HeartbeatConfig, NodePing, OnLeaderChanged, PingResult};
use coerce::remote::net::proto::network::PongEvent;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription};
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use coerce::remote::system::RemoteActorSystem;
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::oneshot;
use vh::*;

struct Sub { log: Log, sub: Option<Subscription>, ids: Vec<u64> }
#[async_trait]
impl Actor for Sub {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.sub = PubSub::subscribe::<Self, _>(SystemTopic, ctx).await.ok();
    }
}
fn index(ids: &[u64], id: u64) -> i64 {
    ids.iter().position(|x| *x == id).map_or(-1, |p| p as i64 + 1)
}
#[async_trait]
impl Handler<Receive<SystemTopic>> for Sub {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) {
        let SystemEvent::Cluster(e) = m.0.as_ref();
        self.log.push(match e {
            ClusterEvent::LeaderChanged(n) => json!({"e": "leader", "leader": index(&self.ids, *n)}),
            ClusterEvent::MemberUp(u) => {
                let mut present = vec![false; self.ids.len()];
                let mut odd = 0;
                for n in &u.nodes {
                    match index(&self.ids, n.id) {
                        i if i > 0 && !present[i as usize - 1] => present[i as usize - 1] = true,
                        _ => odd += 1,
                    }
                }
                if odd > 0 { json!({"e": "up", "odd": odd}) } else { json!({"e": "up", "leader": index(&self.ids, u.leader_id), "members": present}) }
            }
            ClusterEvent::NodeAdded(n) => json!({"e": "added", "n": index(&self.ids, n.id)}),
            ClusterEvent::NodeRemoved(n) => json!({"e": "removed", "n": index(&self.ids, n.id)}),
        });
    }
}

const TICK: u64 = 100_000;
async fn run(steps: &[Value]) -> ReplayResult {
    let t0 = tokio::time::Instant::now();
    let init = &steps[0];
    let starts: Vec<i64> = init["start"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
    let n = starts.len();
    // ids in ascending order, small and above i64::MAX
    let salt = steps.len() as u64;
    let pool: Vec<u64> = match salt % 3 {
        0 => vec![1, 2, 3, 4, 5, 6],
        1 => vec![7, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 63) + 9, u64::MAX - 2],
        _ => vec![(1 << 63) - 2, (1 << 63) + 1, (1 << 63) + 2, (1 << 63) + 3, u64::MAX - 9, u64::MAX - 8],
    };
    let ids: Vec<u64> = pool[..n].to_vec();
    let me = getu(init, "me");
    let min = getu(init, "min");
    // two configurations of the limits
    let (unhealthy, terminated) = if salt % 2 == 0 { (100_000i64, 1_000_000i64) } else { (2_000_000, 2_600_000) };
    let cfg = HeartbeatConfig {
        interval: Duration::from_secs(TICK),
        ping_timeout: Duration::from_secs(15),
        unhealthy_node_heartbeat_timeout: Duration::from_millis(unhealthy as u64),
        terminated_node_heartbeat_timeout: Duration::from_millis(terminated as u64),
        minimum_cluster_size: if min == 0 { None } else { Some(min) },
    };
    let b = RemoteActorSystem::builder().with_tag("hb").with_id(ids[me - 1]).with_actor_system(ActorSystem::new()).configure(move |c| c.heartbeat(cfg));
    let b = if init["single"] == json!(true) { b.single_node() } else { b };
    let remote = b.build().await;
    let sys = remote.actor_system().clone();
    let base = Utc::now() - chrono::Duration::hours(5);
    let node = |i: usize| -> RemoteNode {
        let started: Option<DateTime<Utc>> = if starts[i] == 0 { None } else { Some(base + chrono::Duration::milliseconds(starts[i])) };
        RemoteNode::new(ids[i], format!("10.0.0.{}:1", i), format!("tag-{}", i), started, Default::default())
    };
    settle().await;
    let log = Log::new();
    let _sub = Sub { log: log.clone(), sub: None, ids: ids.clone() }.into_actor(Some("vh-sub"), &sys).await.unwrap();
    remote.register_node(node(me - 1)).await;
    let mut waits: Vec<oneshot::Receiver<u64>> = vec![];
    let mut ticks = 0u64;
    for (i, s) in steps.iter().enumerate() {
        let alt = i % 2 == 0;
        match op(s) {
            "init" => {}
            "tick" => {
                ticks += 1;
                tokio::time::sleep_until(t0 + Duration::from_secs(ticks * TICK + TICK / 2)).await;
            }
            "reg" => remote.register_node(node(getu(s, "n") - 1)).await,
            "ping" => {
                let ok = |age: i64, latency: i64| PingResult::Ok(PongEvent::default(), Duration::from_millis(latency as u64), Utc::now() - chrono::Duration::milliseconds(age));
                let r = match s["c"].as_str().unwrap() {
                    "fresh" => if alt { ok(0, 1) } else { ok(unhealthy - 60_000, unhealthy - 1) },
                    "late" => if alt { ok(unhealthy + 1, 1) } else { ok(terminated - 60_000, 1) },
                    "old" => if alt { ok(terminated + 1, 1) } else { ok(terminated * 5, 1) },
                    "slow" => ok(if alt { 0 } else { unhealthy - 60_000 }, unhealthy + 1),
                    "timeout" => PingResult::Timeout,
                    "disc" => PingResult::Disconnected,
                    "err" => PingResult::Err,
                    o => panic!("harness: ping {}", o),
                };
                let _ = remote.heartbeat().send(NodePing(ids[getu(s, "n") - 1], r)).await;
            }
            "term" => { let _ = remote.heartbeat().send(NodeTerminated(ids[getu(s, "n") - 1])).await; }
            "wait" => {
                let (tx, rx) = oneshot::channel();
                waits.push(rx);
                let _ = remote.heartbeat().send(OnLeaderChanged(tx)).await;
            }
            o => panic!("harness: op {}", o),
        }
        settle().await;
        let nodes = tokio::time::timeout(Duration::from_secs(5), remote.get_nodes()).await.unwrap_or_default();
        let mut status: Vec<Value> = vec![json!("absent"); n];
        let mut odd = 0;
        for x in &nodes {
            match index(&ids, x.id) {
                k if k > 0 && status[k as usize - 1] == json!("absent") => {
                    let k = k as usize - 1;
                    let exp = node(k);
                    if x.addr != exp.addr || x.tag != exp.tag || x.node_started_at != exp.node_started_at { odd += 1 }
                    status[k] = json!(match x.status { NodeStatus::Joining => "Joining", NodeStatus::Healthy => "Healthy", NodeStatus::Unhealthy => "Unhealthy", NodeStatus::Terminated => "Terminated" });
                }
                _ => odd += 1,
            }
        }
        let leader = remote.current_leader().map_or(0, |l| index(&ids, l));
        let mut woke = 0;
        let mut wrong = 0;
        waits.retain_mut(|rx| match rx.try_recv() {
            Ok(l) => { woke += 1; if index(&ids, l) != leader { wrong += 1 } false }
            Err(oneshot::error::TryRecvError::Empty) => true,
            Err(_) => { wrong += 1; false }
        });
        let mut ev = log.take();
        // the two announcements of one heartbeat are published independently
        if let Value::Array(a) = &mut ev { a.sort_by_key(|e| e["e"] != json!("up")); }
        let mut got = json!({"status": status, "leader": leader, "ev": ev, "woke": woke});
        if odd > 0 { got["odd"] = json!(odd) }
        if wrong > 0 { got["wrong"] = json!(wrong) }
        check(i, &s["obs"], got, &format!("op {}", s))?;
    }
    drop(_sub);
    let _ = Arc::new(());
    Ok(())
}

fn main() {
    main_replay(|_, steps| {
        let rt = paused_rt();
        let r = rt.block_on(run(steps));
        rt.shutdown_timeout(Duration::from_millis(0));
        r
    });
}
