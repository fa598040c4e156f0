//! Singleton.tla replay (D01-D03): N nodes of one thread, messages between them delivered by the driver.
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorRefErr};
use coerce::remote::net::message::SessionEvent;
use coerce::remote::net::proto::network::MessageRequest;
use coerce::remote::stream::system::{ClusterEvent, ClusterMemberUp};
use coerce::singleton::factory::SingletonFactory;
use coerce::singleton::{singleton, SingletonBuilder};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::wire::*;
use vh::*;

#[derive(Clone)]
struct Shared { inst: Arc<Mutex<Vec<Vec<&'static str>>>>, up: Vec<Gate>, down: Vec<Gate>, handled: Arc<Mutex<Vec<(u64, usize)>>> }
struct One { node: usize, slot: usize, sh: Shared }
impl One {
    fn set(&self, v: &'static str) { self.sh.inst.lock().unwrap()[self.node][self.slot] = v }
}
#[async_trait]
impl Actor for One {
    async fn started(&mut self, _: &mut ActorContext) {
        {
            let mut g = self.sh.inst.lock().unwrap();
            g[self.node].push("starting");
            self.slot = g[self.node].len() - 1;
        }
        self.sh.up[self.node].pass().await;
        self.set("running");
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        self.set("stopping");
        self.sh.down[self.node].pass().await;
        self.set("none");
    }
}
struct Make { node: usize, sh: Shared }
impl SingletonFactory for Make {
    type Actor = One;
    fn create(&self) -> One { One { node: self.node, slot: 0, sh: self.sh.clone() } }
}
struct Ask(u64);
impl Message for Ask {
    type Result = u64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(self.0.to_be_bytes().to_vec()) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { b.try_into().map(|x| Ask(u64::from_be_bytes(x))).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> { b.try_into().map(u64::from_be_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.to_be_bytes().to_vec()) }
}
#[async_trait]
impl Handler<Ask> for One {
    async fn handle(&mut self, m: Ask, _: &mut ActorContext) -> u64 {
        self.sh.handled.lock().unwrap().push((m.0, self.node));
        m.0 * 7
    }
}

fn kind(h: &str) -> &'static str {
    if h.ends_with(".RequestLease") { "req" } else if h.ends_with(".LeaseAck") { "ack" } else if h.ends_with(".SingletonStarted") { "started" } else if h.ends_with(".SingletonStopped") { "stopped" } else { "?" }
}

async fn run(steps: &[Value]) -> ReplayResult {
    let n = getu(&steps[0], "n");
    let wire = Wire::install();
    let gates = |k: usize| (0..k).map(|_| Gate::new()).collect::<Vec<_>>();
    let sh = Shared { inst: Arc::new(Mutex::new(vec![vec![]; n])), up: gates(n), down: gates(n), handled: Default::default() };
    let ids: Vec<u64> = if steps.len() % 2 == 0 { (1..=n as u64).collect() } else { (1..=n as u64).map(|i| (1 << 63) + 10 - i).collect() };
    let idx = |id: u64| ids.iter().position(|x| *x == id);
    let (mut sys, mut single) = (vec![], vec![]);
    for i in 0..n {
        let r = node(ids[i], ActorSystem::builder().system_name("s").build(), |b| singleton::<Make>(b).with_handler::<One, Ask>("One.Ask")).await;
        single.push(SingletonBuilder::new(r.clone()).factory(Make { node: i, sh: sh.clone() }).build().await);
        sys.push(r);
    }
    let mut chan: HashMap<(usize, usize), VecDeque<MessageRequest>> = HashMap::new();
    let mut pkt: HashMap<u64, (usize, usize, MessageRequest)> = HashMap::new();
    let mut calls: Vec<Call> = vec![];
    let mut mem: BTreeSet<usize> = BTreeSet::new();
    let mut dead: BTreeSet<usize> = BTreeSet::new();
    let late = steps.iter().filter(|s| op(s) == "join").map(|s| getu(s, "i") - 1).collect::<BTreeSet<_>>();
    // nodes that never join in this behaviour never appear in it either
    for i in 0..n { if !late.contains(&i) { mem.insert(i); } }
    if let Some(l) = steps[0].get("late").and_then(|v| v.as_u64()) { for i in n - l as usize..n { mem.remove(&i); } }
    let res = async {
        for (k, s) in steps.iter().enumerate() {
            let i = s.get("i").and_then(|v| v.as_u64()).map_or(0, |v| v as usize - 1);
            let j = s.get("j").and_then(|v| v.as_u64()).map_or(0, |v| v as usize - 1);
            match op(s) {
                "init" => {}
                "memberup" => event(&sys[i], ClusterEvent::MemberUp(ClusterMemberUp {
                    leader_id: ids[getu(s, "l") - 1],
                    nodes: mem.iter().filter(|m| !dead.contains(m)).map(|m| member(ids[*m])).collect(),
                })).await,
                "leader" => event(&sys[i], ClusterEvent::LeaderChanged(ids[getu(s, "l") - 1])).await,
                "join" => { mem.insert(i); }
                "added" => event(&sys[i], ClusterEvent::NodeAdded(member(ids[j]))).await,
                "removed" => event(&sys[i], ClusterEvent::NodeRemoved(member(ids[j]))).await,
                "crash" => {
                    dead.insert(i);
                    chan.retain(|(a, b), _| *a != i && *b != i);
                    pkt.retain(|_, (a, b, _)| *a != i && *b != i);
                    sh.inst.lock().unwrap()[i].iter_mut().for_each(|x| *x = "none");
                }
                "deliver" => {
                    let m = match chan.get_mut(&(i, j)).and_then(|q| q.pop_front()) { Some(m) => m, None => return Err(Mismatch::new(k, json!("a message to deliver"), json!(null), &s.to_string())) };
                    deliver(sys[j].clone(), sys[i].clone(), m);
                }
                "up" => sh.up[i].open(),
                "down" => sh.down[i].open(),
                "send" => {
                    let m = calls.len() as u64 + 1;
                    let h = single[i].clone();
                    calls.push(if gets(s, "k") == "note" {
                        Call::spawn(async move { match h.notify(Ask(m)).await { Ok(()) => json!("ok"), Err(e) => json!(format!("{:?}", e)) } })
                    } else {
                        Call::spawn(async move {
                            json!(match h.send(Ask(m)).await {
                                Ok(x) if x == m * 7 => "ok".into(),
                                Ok(x) => format!("wrong {}", x),
                                Err(ActorRefErr::NotFound(_)) => "NotFound".into(),
                                Err(ActorRefErr::ResultChannelClosed) | Err(ActorRefErr::ResultSendFailed) | Err(ActorRefErr::InvalidRef) => "closed".into(),
                                Err(e) => format!("{:?}", e),
                            })
                        })
                    });
                }
                "arrive" => {
                    let (a, b, m) = match pkt.remove(&(getu(s, "m") as u64)) { Some(x) => x, None => return Err(Mismatch::new(k, json!("a request under way"), json!(null), &s.to_string())) };
                    deliver(sys[b].clone(), sys[a].clone(), m);
                }
                o => panic!("harness: op {}", o),
            }
            tokio::time::sleep(Duration::from_millis(200)).await;
            for (from, to, e) in wire.take() {
                let (a, b) = match (idx(from), idx(to)) { (Some(a), Some(b)) => (a, b), _ => continue };
                if dead.contains(&a) || dead.contains(&b) { continue }
                if let SessionEvent::NotifyActor(m) = e {
                    if m.actor_id.starts_with("singleton-manager") {
                        chan.entry((a, b)).or_default().push_back(m);
                    } else if let Ok(x) = <[u8; 8]>::try_from(&m.message[..]) {
                        if let Some(_) = pkt.insert(u64::from_be_bytes(x), (a, b, m)) { return Err(Mismatch::new(k, json!("sent once"), json!("sent again"), &s.to_string())) }
                    }
                }
            }
            let handled = sh.handled.lock().unwrap().clone();
            let inst: Vec<Value> = sh.inst.lock().unwrap().iter().map(|v| {
                let up: Vec<_> = v.iter().filter(|x| **x != "none").collect();
                match up.len() { 0 => json!("none"), 1 => json!(up[0]), _ => json!(up) }
            }).collect();
            let got = json!({
                "inst": inst,
                "chan": (0..n).map(|a| (0..n).map(|b| chan.get(&(a, b)).map_or(vec![], |q| q.iter().map(|m| kind(&m.handler_type)).collect())).collect::<Vec<Vec<_>>>()).collect::<Vec<_>>(),
                "msg": calls.iter().enumerate().map(|(c, r)| {
                    let m = c as u64 + 1;
                    json!({"h": handled.iter().filter(|x| x.0 == m).map(|x| x.1 + 1).collect::<Vec<_>>(), "res": r.get(), "net": pkt.get(&m).map_or(0, |p| p.1 + 1)})
                }).collect::<Vec<_>>(),
            });
            check(k, &s["obs"], got, &format!("op {}", { let mut x = s.clone(); x.as_object_mut().unwrap().remove("obs"); x }))?;
        }
        Ok(())
    }
    .await;
    res
}

fn main() {
    main_replay(|_, steps| paused_rt().block_on(run(steps)));
}
