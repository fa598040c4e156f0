//! PubSub.tla replay (F03): one node on the paused clock ("local"), several nodes over TCP ("net").
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, CoreActorRef, IntoActor, LocalActorRef};
use coerce::remote::net::StreamData;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use coerce::remote::system::RemoteActorSystem;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;
use vh::net::*;
use vh::*;

#[derive(Clone)]
struct Ev { n: u64, topic: String, pad: Vec<u8> }
impl StreamData for Ev {
    fn read_from_bytes(d: Vec<u8>) -> Option<Self> {
        let n = u64::from_be_bytes(d.get(0..8)?.try_into().ok()?);
        let l = *d.get(8)? as usize;
        Some(Ev { n, topic: String::from_utf8(d.get(9..9 + l)?.to_vec()).ok()?, pad: d.get(9 + l..)?.to_vec() })
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        let mut v = self.n.to_be_bytes().to_vec();
        v.push(self.topic.len() as u8);
        v.extend(self.topic.as_bytes());
        v.extend(&self.pad);
        Some(v)
    }
}
fn ev(n: u64, topic: &str) -> Ev {
    Ev { n, topic: topic.to_string(), pad: vec![n as u8; (n as usize % 5) * 700] }
}
// key: the run's own prefix keeps behaviours on one cluster apart
struct One(String);
struct Two(String);
impl Topic for One { type Message = Ev; fn topic_name() -> &'static str { "one" } fn key(&self) -> String { self.0.clone() } }
impl Topic for Two { type Message = Ev; fn topic_name() -> &'static str { "two" } fn key(&self) -> String { self.0.clone() } }

struct S { log: Log, gate: Gate, tag: u64 }
impl Actor for S {}
impl S {
    fn got(&self, name: &str, e: &Ev) {
        let good = e.pad == ev(e.n, "").pad && e.topic.starts_with(name);
        self.log.push(if good { json!([e.topic, e.n]) } else { json!(["corrupt", name, e.topic, e.n]) });
    }
}
#[async_trait]
impl Handler<Receive<One>> for S { async fn handle(&mut self, m: Receive<One>, _: &mut ActorContext) { self.got("one", &m.0) } }
#[async_trait]
impl Handler<Receive<Two>> for S { async fn handle(&mut self, m: Receive<Two>, _: &mut ActorContext) { self.got("two", &m.0) } }
struct Join(String);
impl Message for Join { type Result = Option<Subscription>; }
fn key(tag: u64, t: &str) -> String {
    let k = t.split('/').nth(1).unwrap_or("");
    if tag == 0 { k.to_string() } else { format!("{}:{}", tag, k) }
}
#[async_trait]
impl Handler<Join> for S {
    async fn handle(&mut self, m: Join, ctx: &mut ActorContext) -> Option<Subscription> {
        let k = key(self.tag, &m.0);
        if m.0.starts_with("one") { PubSub::subscribe::<Self, One>(One(k), ctx).await.ok() } else { PubSub::subscribe::<Self, Two>(Two(k), ctx).await.ok() }
    }
}
struct Block;
impl Message for Block { type Result = (); }
#[async_trait]
impl Handler<Block> for S { async fn handle(&mut self, _: Block, _: &mut ActorContext) { self.gate.pass().await } }

async fn run(nodes: &[RemoteActorSystem], tag: u64, real: bool, steps: &[Value]) -> ReplayResult {
    let at: Vec<usize> = steps[0]["at"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
    let mut subs: Vec<(LocalActorRef<S>, Log, Gate)> = vec![];
    for n in &at {
        let (log, gate) = (Log::new(), Gate::new());
        let r = S { log: log.clone(), gate: gate.clone(), tag }.into_actor(None::<&str>, nodes[n - 1].actor_system()).await.unwrap();
        subs.push((r, log, gate));
    }
    // over TCP a subscriber of the driver's own on every node tells when a publication has arrived there
    let mut watch: Vec<(LocalActorRef<S>, Log, Vec<Subscription>)> = vec![];
    if real {
        let topics: std::collections::BTreeSet<String> = steps.iter().filter_map(|s| s["t"].as_str().map(|x| x.to_string())).collect();
        for n in nodes {
            let log = Log::new();
            let r = S { log: log.clone(), gate: Gate::new(), tag }.into_actor(None::<&str>, n.actor_system()).await.unwrap();
            let mut v = vec![];
            for t in &topics { if let Ok(Some(x)) = r.send(Join(t.clone())).await { v.push(x) } }
            watch.push((r, log, v));
        }
    }
    let mut arrived: Vec<Vec<Value>> = vec![vec![]; nodes.len()];
    let mut held: HashMap<(usize, String), Subscription> = HashMap::new();
    let mut pubs = 0;
    let res = async {
        for (i, s) in steps.iter().enumerate() {
            match op(s) {
                "init" => {}
                "sub" => {
                    let (a, t) = (getu(s, "a"), gets(s, "t"));
                    match subs[a - 1].0.send(Join(t.clone())).await {
                        Ok(Some(x)) => { held.insert((a, t), x); }
                        _ => return Err(Mismatch::new(i, json!("subscribed"), json!("error"), "subscribe")),
                    }
                }
                "unsub" => { held.remove(&(getu(s, "a"), gets(s, "t"))); }
                "stop" => { let _ = subs[getu(s, "a") - 1].0.stop().await; }
                "block" => { let _ = subs[getu(s, "a") - 1].0.notify(Block); }
                "unblock" => subs[getu(s, "a") - 1].2.open(),
                "pub" => {
                    let (n, t) = (getu(s, "n"), gets(s, "t"));
                    let sys = &nodes[n - 1];
                    for _ in 0..geti(s, "c") {
                        pubs += 1;
                        for m in 0..nodes.len() { if s["r"] == json!("cluster") || m + 1 == n { arrived[m].push(json!([t, pubs])) } }
                        let k = key(tag, &t);
                        let e = ev(pubs, &t);
                        match (t.starts_with("one"), s["r"] == json!("local")) {
                            (true, true) => PubSub::publish_locally(One(k), e, sys).await,
                            (true, false) => PubSub::publish(One(k), e, sys).await,
                            (false, true) => PubSub::publish_locally(Two(k), e, sys).await,
                            (false, false) => PubSub::publish(Two(k), e, sys).await,
                        }
                    }
                }
                o => panic!("harness: op {}", o),
            }
            let obs = || { let v = json!({"seen": subs.iter().map(|x| x.1.get()).collect::<Vec<_>>()}); async move { v } };
            if real {
                let exp = json!(arrived);
                let got = eventually(&exp, 3.0, || { let v = json!(watch.iter().map(|x| x.1.get()).collect::<Vec<_>>()); async move { v } }).await;
                check(i, &exp, got, "what a subscriber on each node received")?;
                if op(s) == "block" { tokio::time::sleep(Duration::from_millis(2)).await; }
                let got = eventually(&s["obs"], 3.0, obs).await;
                check(i, &s["obs"], got, &format!("op {}", s))?;
                if i + 1 == steps.len() {
                    // whatever should not have been sent has had time to arrive
                    tokio::time::sleep(Duration::from_millis(15)).await;
                    check(i, &s["obs"], obs().await, "later")?;
                }
            } else {
                settle().await;
                check(i, &s["obs"], obs().await, &format!("op {}", s))?;
            }
        }
        Ok(())
    }
    .await;
    for (r, _, _) in &watch { let _ = r.notify_stop(); }
    for (r, _, g) in &subs {
        g.open_forever();
        let _ = r.notify_stop();
    }
    res
}

thread_local! { static NET: std::cell::RefCell<Option<(tokio::runtime::Runtime, Cluster)>> = std::cell::RefCell::new(None); }

fn main() {
    main_replay(|sub, steps| match sub {
        "local" => {
            let rt = paused_rt();
            let r = rt.block_on(async {
                let remote = RemoteActorSystem::builder().with_tag("ps").with_id(uniq()).with_actor_system(ActorSystem::new()).build().await;
                run(&[remote], 0, false, steps).await
            });
            rt.shutdown_timeout(Duration::from_millis(0));
            r
        }
        _ => NET.with(|c| {
            let mut c = c.borrow_mut();
            if c.is_none() {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                let n = std::env::var("VH_NODES").ok().and_then(|s| s.parse().ok()).unwrap_or(2);
                let cl = rt.block_on(Cluster::start(n, |_, b| b));
                *c = Some((rt, match cl { Some(x) => x, None => return Err(Mismatch::new(0, json!("the cluster forms"), json!("it does not"), "")) }));
            }
            let (rt, cl) = c.as_ref().unwrap();
            rt.block_on(run(&cl.nodes, uniq(), true, steps))
        }),
    });
}
