//! Locate.tla replay (F02) over a real cluster.
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorId, ActorRecipe, ActorRef, CoreActorRef, IntoActorId};
use coerce::remote::system::actor::RemoteActorErr;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::Duration;
use vh::net::*;
use vh::*;

static RUNNING: Mutex<Option<HashMap<String, i64>>> = Mutex::new(None);
fn bump(id: &str, d: i64) { *RUNNING.lock().unwrap().get_or_insert_with(HashMap::new).entry(id.to_string()).or_insert(0) += d; }
fn running(id: &str) -> i64 { RUNNING.lock().unwrap().get_or_insert_with(HashMap::new).get(id).cloned().unwrap_or(0) }

struct A { val: String, node: usize }
#[async_trait]
impl Actor for A {
    async fn started(&mut self, ctx: &mut ActorContext) { bump(ctx.id(), 1); }
    async fn stopped(&mut self, ctx: &mut ActorContext) { bump(ctx.id(), -1); }
}
struct Other;
impl Actor for Other {}

struct Who;
impl Message for Who {
    type Result = String;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![1]) }
    fn from_bytes(_: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Ok(Who) }
    fn read_remote_result(b: Vec<u8>) -> Result<String, MessageUnwrapErr> { String::from_utf8(b).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: String) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.into_bytes()) }
}
#[async_trait]
impl Handler<Who> for A {
    async fn handle(&mut self, _: Who, _: &mut ActorContext) -> String { format!("{}@{}", self.val, self.node) }
}

struct R(String);
impl ActorRecipe for R {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> { let s = String::from_utf8(b.clone()).ok()?; if s == "unreadable" { None } else { Some(R(s)) } }
    fn write_to_bytes(&self) -> Option<Vec<u8>> { if self.0 == "unwritable" { None } else { Some(self.0.clone().into_bytes()) } }
}
#[derive(Clone)]
struct F(usize);
#[async_trait]
impl ActorFactory for F {
    type Actor = A;
    type Recipe = R;
    async fn create(&self, r: R) -> Result<A, ActorCreationErr> {
        if r.0 == "refused" { return Err(ActorCreationErr::InvalidRecipe("refused".into())); }
        Ok(A { val: r.0, node: self.0 })
    }
}
#[derive(Clone)]
struct FO;
#[async_trait]
impl ActorFactory for FO {
    type Actor = Other;
    type Recipe = R;
    async fn create(&self, _: R) -> Result<Other, ActorCreationErr> { Ok(Other) }
}

fn outcome<X>(r: Result<Result<X, RemoteActorErr>, tokio::time::error::Elapsed>, exists: bool) -> String {
    match r {
        Err(_) => "no answer after 8 s".into(),
        Ok(Ok(_)) => "ok".into(),
        // which error a refused deployment gets is not specified
        Ok(Err(_)) => if exists { "exists" } else { "failed" }.into(),
    }
}

async fn run(cl: &Cluster, steps: &[Value]) -> ReplayResult {
    let ni = steps[0]["obs"]["inst"].as_array().unwrap().len();
    let n = steps[0]["obs"]["loc"][0].as_array().unwrap().len();
    let mut ids: Vec<ActorId> = (0..ni).map(|_| format!("id-{}", uniq()).into_actor_id()).collect();
    let index: HashMap<u64, usize> = cl.ids.iter().enumerate().map(|(i, x)| (*x, i + 1)).collect();
    let mut all: Vec<ActorRef<A>> = vec![];
    let mut refs: Vec<Option<ActorRef<A>>> = vec![None; ni];
    let res = async {
        for (k, s) in steps.iter().enumerate() {
            let mut out = String::new();
            match op(s) {
                "init" => {}
                "create" | "anon" => {
                    let (node, i) = (getu(s, "n"), getu(s, "i") - 1);
                    let ty = if op(s) == "create" { ActorType::Tracked } else { ActorType::Anonymous };
                    match cl.nodes[node - 1].actor_system().new_actor(ids[i].clone(), A { val: "made".into(), node }, ty).await {
                        Ok(r) => { out = "ok".into(); all.push(r.clone().into()); if op(s) == "create" { refs[i] = Some(r.into()); } }
                        Err(e) => out = format!("{:?}", e),
                    }
                }
                "deploy" | "auto" => {
                    let (f, node, i, kind) = (getu(s, "f"), getu(s, "n"), getu(s, "i") - 1, gets(s, "k"));
                    let id = if op(s) == "deploy" { Some(ids[i].clone()) } else { None };
                    let target = if f == node && (k + i) % 2 == 0 { None } else { Some(cl.ids[node - 1]) };
                    let exists = s["obs"]["res"] == "exists";
                    if kind == "untyped" {
                        let r = tokio::time::timeout(Duration::from_secs(8), cl.nodes[f - 1].deploy_actor::<FO>(id, R("x".into()), target)).await;
                        out = outcome(r, exists);
                    } else {
                        let r = tokio::time::timeout(Duration::from_secs(8), cl.nodes[f - 1].deploy_actor::<F>(id, R(kind.clone()), target)).await;
                        if let Ok(Ok(r)) = &r {
                            all.push(r.clone());
                            if op(s) == "auto" { ids[i] = r.actor_id().clone(); }
                            if !exists { refs[i] = Some(r.clone()); }
                            // the reference returned reaches the new actor
                            let w = tokio::time::timeout(Duration::from_secs(8), r.send(Who)).await;
                            if !matches!(&w, Ok(Ok(x)) if x == &format!("{}@{}", kind, node)) { return Err(Mismatch::new(k, json!(format!("{}@{}", kind, node)), json!(format!("{:?}", w)), "reference returned by the deployment")); }
                        }
                        out = outcome(r, exists);
                    }
                }
                "stop" => {
                    let i = getu(s, "i") - 1;
                    let at = cl.nodes[s["obs"]["loc"].as_array().map(|_| 0).unwrap()].clone();
                    let _ = at;
                    // stopped on the node it runs on
                    for node in &cl.nodes {
                        if let Some(r) = node.actor_system().get_tracked_actor::<A>(ids[i].clone()).await { let _ = r.stop().await; out = "ok".into(); }
                    }
                    refs[i] = None;
                }
                o => panic!("harness: op {}", o),
            }
            let (ids, index) = (&ids, &index);
            let obs = || {
                let out = out.clone();
                async move {
                    let per = ids.iter().map(|id| async move {
                        let at = futures::future::join_all((0..n).map(|k| async move {
                            let node = &cl.nodes[k];
                            let l = node.locate_actor_node(id.clone()).await;
                            let w = match node.actor_ref::<A>(id.clone()).await {
                                None => "nobody".to_string(),
                                Some(r) => match tokio::time::timeout(Duration::from_secs(8), r.send(Who)).await { Ok(Ok(x)) => x, Ok(Err(_)) => "nobody".into(), Err(_) => "no answer".into() },
                            };
                            (l.map(|x| index.get(&x).map(|i| i.to_string()).unwrap_or("elsewhere".into())).unwrap_or("0".into()), w)
                        })).await;
                        (at.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), at.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), running(id))
                    });
                    let per = futures::future::join_all(per).await;
                    json!({"res": out, "loc": per.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "who": per.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "inst": per.iter().map(|x| x.2).collect::<Vec<_>>()})
                }
            };
            let got = eventually(&s["obs"], 4.0, obs).await;
            check(k, &s["obs"], got, &format!("op {}", s))?;
        }
        Ok(())
    }
    .await;
    for r in &all {
        for node in &cl.nodes { if let Some(r) = node.actor_system().get_tracked_actor::<A>(r.actor_id().clone()).await { let _ = r.notify_stop(); } }
    }
    res
}

thread_local! { static NET: std::cell::RefCell<Option<(tokio::runtime::Runtime, Cluster)>> = std::cell::RefCell::new(None); }

fn main() {
    let n: usize = std::env::var("VH_NODES").ok().and_then(|s| s.parse().ok()).unwrap_or(2);
    main_replay(move |_, steps| {
        NET.with(|net| {
            let mut net = net.borrow_mut();
            if net.is_none() {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                let cl = rt.block_on(Cluster::start(n, |i, b| b.with_handler::<A, Who>("A.Who").with_actor(F(i + 1)))).expect("harness: no cluster");
                *net = Some((rt, cl));
            }
            let (rt, cl) = net.as_ref().unwrap();
            rt.block_on(run(cl, steps))
        })
    });
}
