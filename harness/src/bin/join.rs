//! Join.tla replay (E03): nodes with a runtime each, real connections.
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorRef, IntoActor, IntoActorId};
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::net::server::RemoteServer;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription};
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use coerce::remote::system::RemoteActorSystem;
use coerce::remote::RemoteActorRef;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::net::*;
use vh::*;

#[derive(Default)]
struct Listener { seen: Arc<Mutex<HashMap<u64, usize>>>, sub: Option<Subscription> }
#[async_trait]
impl Actor for Listener {
    async fn started(&mut self, ctx: &mut ActorContext) { self.sub = PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.ok(); }
}
#[async_trait]
impl Handler<Receive<SystemTopic>> for Listener {
    async fn handle(&mut self, m: Receive<SystemTopic>, _: &mut ActorContext) {
        if let SystemEvent::Cluster(ClusterEvent::NodeAdded(n)) = m.0.as_ref() { *self.seen.lock().unwrap().entry(n.id).or_insert(0) += 1; }
    }
}
struct Echo;
struct Ask(u64);
impl Message for Ask {
    type Result = u64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(self.0.to_be_bytes().to_vec()) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { b.try_into().map(|x| Ask(u64::from_be_bytes(x))).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> { b.try_into().map(u64::from_be_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.to_be_bytes().to_vec()) }
}
impl Actor for Echo {}
#[async_trait]
impl Handler<Ask> for Echo {
    async fn handle(&mut self, m: Ask, _: &mut ActorContext) -> u64 { m.0 + 1 }
}

struct Member { rt: Option<tokio::runtime::Runtime>, sys: RemoteActorSystem, server: Arc<Mutex<Option<RemoteServer>>>, id: u64, addr: String, seen: Arc<Mutex<HashMap<u64, usize>>> }

fn address() -> String {
    let (p, n) = (std::process::id(), uniq());
    format!("127.{}.{}.{}:{}", 1 + p % 250, 1 + n / 250 % 250, 1 + n % 250, 7100 + p / 250 % 20000)
}

fn heartbeat() -> HeartbeatConfig {
    HeartbeatConfig {
        interval: Duration::from_millis(50),
        ping_timeout: Duration::from_secs(20),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(30),
        terminated_node_heartbeat_timeout: Duration::from_secs(60),
        minimum_cluster_size: None,
    }
}

fn prepare(n: usize) -> Member {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let (id, seen) = (uniq(), Arc::new(Mutex::new(HashMap::new())));
    let seen2 = seen.clone();
    let sys = rt.block_on(async move {
            let sys = RemoteActorSystem::builder().with_tag(format!("n{}", n)).with_id(id).with_actor_system(ActorSystem::builder().system_name("join").build())
                .configure(|b| b.with_handler::<Echo, Ask>("Echo.Ask").heartbeat(heartbeat())).build().await;
            Listener { seen: seen2, sub: None }.into_actor(Some("listener"), sys.actor_system()).await.unwrap();
            Echo.into_actor(Some(format!("echo-{}", id)), sys.actor_system()).await.unwrap();
            sys
    });
    Member { rt: Some(rt), sys, server: Arc::new(Mutex::new(None)), id, addr: address(), seen }
}

impl Member {
    /// starts the node; the join goes on in the background
    fn go(&self, seed: Option<String>) {
        let (sys, addr, slot) = (self.sys.clone(), self.addr.clone(), self.server.clone());
        self.rt.as_ref().unwrap().spawn(async move {
            let mut w = sys.cluster_worker().listen_addr(addr);
            if let Some(s) = seed { w = w.with_seed_addr(s); }
            let s = w.start().await;
            *slot.lock().unwrap() = Some(s);
        });
    }
}

fn run(steps: &[Value]) -> ReplayResult {
    let n = steps[0]["obs"]["known"].as_array().unwrap().len();
    let mut ms: Vec<Option<Member>> = (0..n).map(|_| None).collect();
    let mut gone: Vec<(u64, String)> = vec![(0, String::new()); n];
    let ctl = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let res = (|| {
        for (i, s) in steps.iter().enumerate() {
            match op(s) {
                "init" => {}
                "start" => { let m = prepare(1); m.go(if s["self"] == json!(true) { Some(m.addr.clone()) } else { None }); ms[0] = Some(m); }
                "join" => {
                    let who: Vec<usize> = s["who"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                    let seeds: Vec<Option<String>> = who.iter().map(|w| if *w == 0 { None } else { ms[*w - 1].as_ref().map(|m| m.addr.clone()) }).collect();
                    for (k, w) in who.iter().enumerate() { if *w != 0 { ms[k] = Some(prepare(k + 1)); } }
                    for (k, w) in who.iter().enumerate() { if *w != 0 { ms[k].as_ref().unwrap().go(seeds[k].clone()); } }
                }
                "shutdown" => {
                    let k = getu(s, "n") - 1;
                    let mut m = ms[k].take().unwrap();
                    gone[k] = (m.id, m.addr.clone());
                    let (sys, slot) = (m.sys.clone(), m.server.clone());
                    let done = m.rt.as_ref().unwrap().block_on(async move {
                        if let Some(s) = slot.lock().unwrap().as_ref() { s.stop(); }
                        tokio::time::timeout(Duration::from_secs(20), sys.actor_system().shutdown()).await.is_ok()
                    });
                    m.rt.take().unwrap().shutdown_background();
                    if !done { return Err(Mismatch::new(i, json!("the node shuts down"), json!("it does not within 20 s"), "op shutdown")); }
                }
                "crash" => {
                    let k = getu(s, "n") - 1;
                    let mut m = ms[k].take().unwrap();
                    gone[k] = (m.id, m.addr.clone());
                    m.rt.take().unwrap().shutdown_background();
                }
                o => panic!("harness: op {}", o),
            }
            let (ms, gone) = (&ms, &gone);
            let ident = |m: usize| ms[m].as_ref().map(|x| (x.id, x.addr.clone())).unwrap_or(gone[m].clone());
            let obs = || async move {
                let mut known = vec![];
                let mut added = vec![];
                let mut asked = vec![];
                for a in 0..n {
                    let (mut k, mut d, mut q) = (vec![], vec![], vec![]);
                    let nodes = match &ms[a] { Some(x) => x.sys.get_nodes().await, None => vec![] };
                    let mut strangers = 0;
                    for x in &nodes { if !(0..n).any(|m| ident(m).0 == x.id) { strangers += 1; } }
                    for m in 0..n {
                        let (id, addr) = ident(m);
                        let mine: Vec<_> = nodes.iter().filter(|x| id != 0 && x.id == id).collect();
                        k.push(if mine.is_empty() { "absent".to_string() } else if mine.len() > 1 || mine[0].addr != addr || strangers > 0 { format!("{:?} strangers {}", mine, strangers) } else { format!("{:?}", mine[0].status) });
                        d.push(match &ms[a] { Some(x) => x.seen.lock().unwrap().get(&id).cloned().unwrap_or(0).to_string(), None => "0".into() });
                        q.push(match (&ms[a], &ms[m]) {
                            (Some(x), Some(y)) if x.id != y.id && mine.len() == 1 => {
                                let r: ActorRef<Echo> = RemoteActorRef::<Echo>::new(format!("echo-{}", y.id).into_actor_id(), y.id, x.sys.clone()).into();
                                match tokio::time::timeout(Duration::from_secs(1), r.send(Ask(y.id))).await { Ok(Ok(v)) if v == y.id + 1 => "answered".to_string(), o => format!("{:?}", o.map(|r| r.is_ok())) }
                            }
                            (Some(x), Some(y)) if x.id == y.id => "answered".into(),
                            (Some(_), Some(_)) => "unknown node".into(),
                            _ => "not asked".to_string(),
                        });
                    }
                    known.push(k); added.push(d); asked.push(q);
                }
                json!({"known": known, "added": added, "asked": asked})
            };
            let got = ctl.block_on(async {
                let got = eventually(&s["obs"], 25.0, &obs).await;
                if !matches(&s["obs"], &got) || i + 1 < steps.len() { return got; }
                // and so it stays
                tokio::time::sleep(Duration::from_millis(300)).await;
                eventually(&s["obs"], 1.0, &obs).await
            });
            check(i, &s["obs"], got, &format!("op {}", s))?;
        }
        Ok(())
    })();
    for m in ms.iter_mut().flatten() { m.rt.take().unwrap().shutdown_background(); }
    ctl.shutdown_background();
    res
}

fn main() { main_replay(|_, steps| run(steps)); }
