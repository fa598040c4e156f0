//! Registry.tla (A03), Tree.tla (A04), Watch.tla (A05), Timers.tla (A06), Worker.tla (A07).
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::timer::{Timer, TimerTick};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::watch::{ActorTerminated, ActorWatch};
use coerce::actor::worker::{IntoWorker, WorkerRef, WorkerRefExt};
use coerce::actor::{Actor, ActorId, ActorRefErr, CoreActorRef, IntoActor, IntoActorId, LocalActorRef, ScheduledNotify};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::*;

fn main() {
    let sub = std::env::args().nth(1).unwrap_or_default();
    if sub == "workertrace" {
        let a: Vec<String> = std::env::args().collect();
        let (seed, runs): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
        record(&a[2], 4, move |log| Box::pin(worker_trace(seed, runs, log)));
        return;
    }
    main_replay(|sub, steps| {
        let rt = paused_rt();
        rt.block_on(async {
            match sub {
                "registry" => registry(steps).await,
                "tree" => tree(steps).await,
                "watch" => watch(steps).await,
                "timers" => timers(steps).await,
                "worker" => worker(steps).await,
                s => panic!("harness: sub {}", s),
            }
        })
    })
}

// ---------------------------------------------------------------- registry
#[derive(Clone)]
struct Unit {
    ph: Arc<Mutex<&'static str>>,
    hooks: Arc<Mutex<usize>>,
    start: Gate,
    stop: Gate,
    work: Arc<Mutex<Gate>>,
    kind: String,
    n: usize,
}
struct Helper;
impl Actor for Helper {}
impl Unit {
    fn new(n: usize, kind: &str) -> Self {
        Unit { ph: Arc::new(Mutex::new("none")), hooks: Default::default(), start: Gate::new(), stop: Gate::new(), work: Arc::new(Mutex::new(Gate::new())), kind: kind.to_string(), n }
    }
    async fn worked(&self, w: Work, ctx: &mut ActorContext) {
        *self.ph.lock().unwrap() = "busy";
        let g = self.work.lock().unwrap().clone();
        g.pass().await;
        let sys = ctx.system().clone();
        match w.0.as_str() {
            "make" => { let _ = sys.new_actor(format!("helper-{}", uniq()), Helper, ActorType::Tracked).await; }
            _ => { let _ = sys.get_tracked_actor::<Helper>("nobody".into_actor_id()).await; }
        }
        *self.ph.lock().unwrap() = "running";
    }
    async fn started(&self, ctx: &mut ActorContext) {
        *self.ph.lock().unwrap() = "starting";
        self.start.pass().await;
        *self.ph.lock().unwrap() = "running";
        if self.kind == "fail" {
            ctx.stop(None);
        }
    }
    async fn stopped(&self, ctx: &mut ActorContext) {
        *self.hooks.lock().unwrap() += 1;
        *self.ph.lock().unwrap() = "hook";
        self.stop.pass().await;
        if self.kind == "closer" {
            let _ = ctx.system().get_tracked_actor::<Helper>("nobody".into_actor_id()).await;
        }
        *self.ph.lock().unwrap() = if *self.hooks.lock().unwrap() == 1 { "gone" } else { "stopped twice" };
    }
}
struct P(Unit);
struct Q(Unit);
struct Work(String);
impl Message for Work {
    type Result = ();
}
struct Who;
impl Message for Who {
    type Result = usize;
}
macro_rules! unit_actor {
    ($t:ident) => {
        #[async_trait]
        impl Actor for $t {
            async fn started(&mut self, ctx: &mut ActorContext) {
                self.0.started(ctx).await
            }
            async fn stopped(&mut self, ctx: &mut ActorContext) {
                self.0.stopped(ctx).await
            }
        }
        #[async_trait]
        impl Handler<Work> for $t {
            async fn handle(&mut self, w: Work, ctx: &mut ActorContext) {
                let u = self.0.clone();
                u.worked(w, ctx).await
            }
        }
        #[async_trait]
        impl Handler<Who> for $t {
            async fn handle(&mut self, _m: Who, _ctx: &mut ActorContext) -> usize {
                self.0.n
            }
        }
    };
}
unit_actor!(P);
unit_actor!(Q);

async fn look<A: Actor + Handler<Who>>(sys: &ActorSystem, id: &str) -> Value {
    match tokio::time::timeout(Duration::from_millis(5), sys.get_tracked_actor::<A>(id.to_string().into_actor_id())).await {
        Err(_) => json!("lookup hangs"),
        Ok(None) => json!("none"),
        Ok(Some(r)) => match tokio::time::timeout(Duration::from_millis(5), r.send(Who)).await {
            Err(_) => json!("stopping"),
            Ok(Ok(n)) => json!(n.to_string()),
            Ok(Err(_)) => json!("dead"),
        },
    }
}

enum Ref {
    P(LocalActorRef<P>),
    Q(LocalActorRef<Q>),
}

async fn registry(steps: &[Value]) -> ReplayResult {
    let sys = ActorSystem::new();
    let mut units: Vec<Unit> = vec![];
    let mut creates: Vec<Call> = vec![];
    let refs: Arc<Mutex<HashMap<usize, Ref>>> = Default::default();
    let mut stops: Vec<Option<Call>> = vec![];
    let mut down: Option<Call> = None;
    for (i, st) in steps.iter().enumerate() {
        match op(st) {
            "create" => {
                let kind = gets(st, "kind");
                let n = units.len() + 1;
                let u = Unit::new(n, &kind);
                units.push(u.clone());
                stops.push(None);
                let (sys, id, refs, p) = (sys.clone(), gets(st, "id"), refs.clone(), st["ty"] == "P");
                let variant = i % 2;
                creates.push(Call::spawn(async move {
                    macro_rules! go {
                        ($c:ident) => {{
                            let a = $c(u);
                            let r: Result<LocalActorRef<$c>, ActorRefErr> = match (kind.as_str(), variant) {
                                ("deferred", _) => Ok(sys.new_actor_deferred(id, a, ActorType::Tracked).await),
                                ("anon", 0) => sys.new_actor(id, a, ActorType::Anonymous).await,
                                ("anon", _) => a.into_anon_actor(Some(id), &sys).await,
                                (_, 0) => sys.new_actor(id, a, ActorType::Tracked).await,
                                _ => a.into_actor(Some(id), &sys).await,
                            };
                            match r {
                                Ok(r) => {
                                    refs.lock().unwrap().insert(n, Ref::$c(r));
                                    json!("ok")
                                }
                                Err(_) => json!("err"),
                            }
                        }};
                    }
                    if p {
                        go!(P)
                    } else {
                        go!(Q)
                    }
                }));
            }
            "start" => units[getu(st, "i") - 1].start.open(),
            "stop" => {
                let n = getu(st, "i");
                let rs = refs.lock().unwrap();
                let c = match rs.get(&n).expect("harness: ref") {
                    Ref::P(r) => {
                        let r = r.clone();
                        Call::spawn(async move { json!(if r.stop().await.is_ok() { "ok" } else { "err" }) })
                    }
                    Ref::Q(r) => {
                        let r = r.clone();
                        Call::spawn(async move { json!(if r.stop().await.is_ok() { "ok" } else { "err" }) })
                    }
                };
                drop(rs);
                stops[n - 1] = Some(c);
            }
            "work" => {
                let n = getu(st, "i");
                *units[n - 1].work.lock().unwrap() = Gate::new();
                let w = Work(gets(st, "w"));
                let _ = match refs.lock().unwrap().get(&n).expect("harness: ref") { Ref::P(r) => r.notify(w), Ref::Q(r) => r.notify(w) };
            }
            "go" => units[getu(st, "i") - 1].work.lock().unwrap().open(),
            "release" => units[getu(st, "i") - 1].stop.open(),
            "shutdown" => {
                let sys = sys.clone();
                down = Some(Call::spawn(async move {
                    sys.shutdown().await;
                    json!("ok")
                }));
            }
            o => panic!("harness: op {}", o),
        }
        settle().await;
        let mut lk = Map::new();
        for id in st["obs"]["look"].as_object().unwrap().keys() {
            let v = if down.is_some() { json!({"P": "skipped", "Q": "skipped"}) } else { json!({"P": look::<P>(&sys, id).await, "Q": look::<Q>(&sys, id).await}) };
            lk.insert(id.clone(), v);
        }
        let got = json!({"look": lk,
            "ph": units.iter().map(|u| *u.ph.lock().unwrap()).collect::<Vec<_>>(),
            "create": creates.iter().map(|c| c.get()).collect::<Vec<_>>(),
            "stop": stops.iter().map(|c| c.as_ref().map_or(json!("none"), |c| c.get())).collect::<Vec<_>>(),
            "down": down.as_ref().map_or(json!("none"), |c| c.get())});
        check(i, &st["obs"], got, "registry")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- supervision
struct TreeShared {
    refs: HashMap<usize, LocalActorRef<Node>>,
    heard: HashMap<usize, Vec<Value>>,
}
struct Node {
    u: Unit,
    sh: Arc<Mutex<TreeShared>>,
}
struct SpawnChild {
    id: String,
    node: Node,
    mode: String,
}
impl Message for SpawnChild {
    type Result = &'static str;
}
struct Kids(Vec<String>);
impl Message for Kids {
    type Result = Value;
}
#[async_trait]
impl Actor for Node {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.sh.lock().unwrap().refs.insert(self.u.n, self.actor_ref(ctx));
        self.u.started(ctx).await
    }
    async fn stopped(&mut self, ctx: &mut ActorContext) {
        self.u.stopped(ctx).await
    }
    async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {
        self.sh.lock().unwrap().heard.entry(self.u.n).or_default().push(json!(id.to_string()));
    }
}
#[async_trait]
impl Handler<SpawnChild> for Node {
    async fn handle(&mut self, m: SpawnChild, ctx: &mut ActorContext) -> &'static str {
        let n = m.node.u.n;
        let r = match m.mode.as_str() {
            "attach" => {
                let sys = ctx.system().clone();
                let r = m.node.into_anon_actor(Some(m.id), &sys).await.unwrap();
                ctx.attach_child_ref(r.clone().into());
                Ok(r)
            }
            "deferred" => ctx.spawn_deferred(m.id.into_actor_id(), m.node),
            _ => ctx.spawn(m.id.into_actor_id(), m.node).await,
        };
        match r {
            Ok(r) => {
                self.sh.lock().unwrap().refs.insert(n, r);
                "ok"
            }
            Err(ActorRefErr::AlreadyExists(_)) => "exists",
            Err(_) => "err",
        }
    }
}
#[async_trait]
impl Handler<Kids> for Node {
    async fn handle(&mut self, m: Kids, ctx: &mut ActorContext) -> Value {
        let mut o = Map::new();
        let mut n = 0;
        for k in m.0 {
            let there = ctx.boxed_child_ref(&k.clone().into_actor_id()).is_some();
            if there != ctx.child_ref::<Node>(&k.clone().into_actor_id()).is_some() {
                return json!("typed and untyped child lookups disagree");
            }
            n += there as usize;
            o.insert(k, json!(there));
        }
        if ctx.supervised_count() != n {
            return json!(format!("count {} but {} listed", ctx.supervised_count(), n));
        }
        Value::Object(o)
    }
}

async fn tree(steps: &[Value]) -> ReplayResult {
    let sys = ActorSystem::new();
    let sh = Arc::new(Mutex::new(TreeShared { refs: HashMap::new(), heard: HashMap::new() }));
    let root = Unit::new(1, "");
    root.start.open_forever();
    let mut units = vec![root.clone()];
    Node { u: root, sh: sh.clone() }.into_actor(Some(format!("root{}", uniq())), &sys).await.unwrap();
    let mut stops: Vec<Option<Call>> = vec![None];
    let mut res: Vec<Call> = vec![];
    for (i, st) in steps.iter().enumerate() {
        match op(st) {
            "spawn" => {
                let mode = gets(st, "mode");
                // a refused spawn creates no actor: the number is taken only if one is created
                let n = units.len() + 1;
                let u = Unit::new(n, &mode);
                if mode != "deferred" {
                    u.start.open_forever();
                }
                if mode == "fail" {
                    u.stop.open_forever();
                }
                let r = sh.lock().unwrap().refs[&getu(st, "p")].clone();
                let node = Node { u: u.clone(), sh: sh.clone() };
                let id = gets(st, "name");
                let c = Call::spawn(async move {
                    match r.send(SpawnChild { id, node, mode }).await {
                        Ok(v) => json!(v),
                        Err(_) => json!("parent err"),
                    }
                });
                settle().await;
                let refused = c.get() == json!("exists");
                res.push(c);
                if refused {
                    if *u.ph.lock().unwrap() != "none" {
                        return Err(Mismatch::new(i, json!("refused, not started"), json!(*u.ph.lock().unwrap()), "a refused spawn ran the actor"));
                    }
                } else {
                    units.push(u);
                    stops.push(None);
                }
            }
            "stop" => {
                let n = getu(st, "i");
                let r = sh.lock().unwrap().refs[&n].clone();
                stops[n - 1] = Some(Call::spawn(async move { json!(if r.stop().await.is_ok() { "ok" } else { "err" }) }));
            }
            "started" => units[getu(st, "i") - 1].start.open(),
            "release" => units[getu(st, "i") - 1].stop.open(),
            o => panic!("harness: op {}", o),
        }
        settle().await;
        let mut kids = vec![];
        let exp = &st["obs"]["kids"];
        for (k, u) in units.iter().enumerate() {
            if *u.ph.lock().unwrap() != "running" {
                kids.push(json!("-"));
                continue;
            }
            let names: Vec<String> = match exp[k].as_str().and_then(|s| serde_json::from_str::<Value>(s).ok()) {
                Some(Value::Object(o)) => o.keys().cloned().collect(),
                _ => vec![],
            };
            let r = sh.lock().unwrap().refs[&(k + 1)].clone();
            kids.push(match tokio::time::timeout(Duration::from_millis(5), r.send(Kids(names))).await {
                Ok(Ok(v)) => v,
                _ => json!("no answer"),
            });
        }
        let mut e = st["obs"].clone();
        for k in e["kids"].as_array_mut().unwrap() {
            if let Some(v) = k.as_str().and_then(|s| serde_json::from_str::<Value>(s).ok()) {
                *k = v;
            }
        }
        let got = json!({"ph": units.iter().map(|u| { let p = *u.ph.lock().unwrap(); if p == "gone" { "stopped" } else { p } }).collect::<Vec<_>>(),
            "kids": kids,
            "heard": (1..=units.len()).map(|n| sh.lock().unwrap().heard.get(&n).cloned().unwrap_or_default()).collect::<Vec<_>>(),
            "stop": stops.iter().map(|c| c.as_ref().map_or(json!("none"), |c| c.get())).collect::<Vec<_>>(),
            "res": res.iter().map(|c| c.get()).collect::<Vec<_>>()});
        check(i, &e, got, "tree")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- watching
struct W {
    u: Unit,
    name: String,
    busy: Gate,
    seen: Arc<Mutex<HashMap<String, Vec<Value>>>>,
    me: Arc<Mutex<HashMap<String, LocalActorRef<W>>>>,
}
struct DoWatch(LocalActorRef<W>, bool);
impl Message for DoWatch {
    type Result = ();
}
struct Busy;
impl Message for Busy {
    type Result = ();
}
struct SelfStop;
impl Message for SelfStop {
    type Result = ();
}
#[async_trait]
impl Actor for W {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.me.lock().unwrap().insert(self.name.clone(), self.actor_ref(ctx));
        self.u.started(ctx).await
    }
    async fn stopped(&mut self, ctx: &mut ActorContext) {
        self.u.stopped(ctx).await
    }
}
#[async_trait]
impl Handler<DoWatch> for W {
    async fn handle(&mut self, m: DoWatch, ctx: &mut ActorContext) {
        if m.1 {
            self.watch(&m.0, ctx)
        } else {
            self.unwatch(&m.0, ctx)
        }
    }
}
#[async_trait]
impl Handler<Busy> for W {
    async fn handle(&mut self, _m: Busy, _ctx: &mut ActorContext) {
        self.busy.pass().await
    }
}
#[async_trait]
impl Handler<SelfStop> for W {
    async fn handle(&mut self, _m: SelfStop, ctx: &mut ActorContext) {
        ctx.stop(None)
    }
}
#[async_trait]
impl Handler<ActorTerminated> for W {
    async fn handle(&mut self, m: ActorTerminated, _ctx: &mut ActorContext) {
        let id = m.actor_ref().actor_id().to_string();
        let id = id.split('.').next().unwrap().to_string();
        self.seen.lock().unwrap().entry(self.name.clone()).or_default().push(json!(id));
    }
}
struct Holder(Option<W>);
struct NeverMsg;
impl Message for NeverMsg {
    type Result = ();
}
#[async_trait]
impl Actor for Holder {
    async fn started(&mut self, ctx: &mut ActorContext) {
        let w = self.0.take().unwrap();
        let id = format!("{}.{}", w.name, uniq());
        ctx.spawn(id.into_actor_id(), w).await.unwrap();
    }
}

async fn watch(steps: &[Value]) -> ReplayResult {
    let sys = ActorSystem::new();
    let seen: Arc<Mutex<HashMap<String, Vec<Value>>>> = Default::default();
    let me: Arc<Mutex<HashMap<String, LocalActorRef<W>>>> = Default::default();
    let mut us: HashMap<String, (Unit, Gate, LocalActorRef<Holder>)> = HashMap::new();
    let names: Vec<String> = steps[0]["obs"]["ph"].as_object().unwrap().keys().cloned().collect();
    for n in &names {
        let u = Unit::new(0, "");
        u.start.open_forever();
        let busy = Gate::new();
        let h = Holder(Some(W { u: u.clone(), name: n.clone(), busy: busy.clone(), seen: seen.clone(), me: me.clone() }))
            .into_actor(Some(format!("h{}", uniq())), &sys)
            .await
            .unwrap();
        us.insert(n.clone(), (u, busy, h));
    }
    let get = |n: &str| me.lock().unwrap()[n].clone();
    for (i, st) in steps.iter().enumerate() {
        let x = gets(st, "x");
        match op(st) {
            "watch" | "unwatch" => {
                let _ = get(&gets(st, "w")).notify(DoWatch(get(&x), op(st) == "watch"));
            }
            "work" => {
                let _ = get(&x).notify(Busy);
            }
            "done" => us[&x].1.open(),
            "stop" => match st["how"].as_str().unwrap() {
                "stop" => {
                    let r = get(&x);
                    tokio::spawn(async move { r.stop().await });
                }
                "nstop" => {
                    let _ = get(&x).notify_stop();
                }
                "self" => {
                    let _ = get(&x).notify(SelfStop);
                }
                _ => {
                    let _ = us[&x].2.notify_stop();
                }
            },
            "release" => us[&x].0.stop.open(),
            o => panic!("harness: op {}", o),
        }
        settle().await;
        let mut s = Map::new();
        let mut p = Map::new();
        for n in &names {
            s.insert(n.clone(), Value::Array(seen.lock().unwrap().get(n).cloned().unwrap_or_default()));
            p.insert(n.clone(), json!(*us[n].0.ph.lock().unwrap()));
        }
        check(i, &st["obs"], json!({"seen": s, "ph": p}), "watch")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- timers
struct Clock {
    n: Arc<Mutex<Vec<usize>>>,
}
impl Actor for Clock {}
#[derive(Clone)]
struct Tick(usize);
impl Message for Tick {
    type Result = ();
}
impl TimerTick for Tick {}
#[async_trait]
impl Handler<Tick> for Clock {
    async fn handle(&mut self, m: Tick, _ctx: &mut ActorContext) {
        self.n.lock().unwrap()[m.0] += 1;
    }
}
enum H {
    T(Option<Timer>),
    O(Option<ScheduledNotify<Clock, Tick>>),
}
const UNIT: u64 = 1000;
async fn timers(steps: &[Value]) -> ReplayResult {
    let sys = ActorSystem::new();
    let n: Arc<Mutex<Vec<usize>>> = Default::default();
    let a = Clock { n: n.clone() }.into_actor(Some(format!("c{}", uniq())), &sys).await.unwrap();
    let mut hs: Vec<H> = vec![];
    for (i, st) in steps.iter().enumerate() {
        let k = hs.len();
        match op(st) {
            "timer" => {
                n.lock().unwrap().push(0);
                let d = Duration::from_millis(UNIT * getu(st, "p") as u64);
                hs.push(H::T(Some(if st["now"].as_bool().unwrap() { Timer::start_immediately(a.clone(), d, Tick(k)) } else { Timer::start(a.clone(), d, Tick(k)) })));
            }
            "once" => {
                n.lock().unwrap().push(0);
                hs.push(H::O(Some(a.scheduled_notify(Tick(k), Duration::from_millis(UNIT * getu(st, "d") as u64)))));
            }
            "cancel" => match &mut hs[getu(st, "i") - 1] {
                H::T(t) => {
                    if !t.take().expect("harness: timer").stop() {
                        return Err(Mismatch::new(i, json!("running timer stopped"), json!("stop returned false"), "timers"));
                    }
                }
                H::O(o) => match o {
                    Some(o) => o.cancel(),
                    None => return Ok(()), // handle given up before: cannot be cancelled
                },
            },
            "drop" => {
                if let H::O(o) = &mut hs[getu(st, "i") - 1] {
                    *o = None
                }
            }
            "stop" => {
                let _ = a.stop().await;
            }
            "pass" => tokio::time::sleep(Duration::from_millis(UNIT * getu(st, "k") as u64)).await,
            o => panic!("harness: op {}", o),
        }
        settle().await;
        check(i, &st["obs"], json!({"n": *n.lock().unwrap()}), "timers")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- workers
#[derive(Clone)]
struct Wk {
    log: Arc<Mutex<Vec<(String, usize)>>>,
    gates: Arc<Mutex<HashMap<String, Gate>>>,
}
impl Actor for Wk {}
struct Job(usize);
impl Message for Job {
    type Result = usize;
}
#[async_trait]
impl Handler<Job> for Wk {
    async fn handle(&mut self, m: Job, ctx: &mut ActorContext) -> usize {
        let me = ctx.id().to_string();
        self.log.lock().unwrap().push((me.clone(), m.0));
        let g = self.gates.lock().unwrap().entry(me).or_default().clone();
        g.pass().await;
        m.0 * 7 + 3
    }
}
async fn worker(steps: &[Value]) -> ReplayResult {
    let mut sys = ActorSystem::new();
    let wk = Wk { log: Default::default(), gates: Default::default() };
    let mut pool: Option<WorkerRef<Wk>> = None;
    let mut res: Vec<Call> = vec![];
    let mut names: Vec<String> = vec![];
    for (i, st) in steps.iter().enumerate() {
        match op(st) {
            "pool" => pool = Some(wk.clone().into_worker(getu(st, "n"), "wk", &mut sys).await.unwrap()),
            "dispatch" => {
                let mut p = pool.clone().unwrap();
                let id = res.len() + 1;
                res.push(Call::spawn(async move {
                    match p.dispatch(Job(id)).await {
                        Ok(v) if v == id * 7 + 3 => json!("ok"),
                        Ok(v) => json!(format!("wrong {}", v)),
                        Err(_) => json!("err"),
                    }
                }));
            }
            "release" => {
                let g = wk.gates.lock().unwrap().entry(names[getu(st, "w") - 1].clone()).or_default().clone();
                g.open();
            }
            o => panic!("harness: op {}", o),
        }
        settle().await;
        let log: Vec<Value> = wk.log.lock().unwrap().iter().map(|(w, r)| {
            let k = names.iter().position(|x| x == w).unwrap_or_else(|| { names.push(w.clone()); names.len() - 1 });
            json!([k + 1, r])
        }).collect();
        check(i, &st["obs"], json!({"res": res.iter().map(|c| c.get()).collect::<Vec<_>>(), "log": log}), "worker")?;
    }
    Ok(())
}

struct TJob(usize, usize);
impl Message for TJob {
    type Result = usize;
}
#[derive(Clone)]
struct TWk(Log);
impl Actor for TWk {}
#[async_trait]
impl Handler<TJob> for TWk {
    async fn handle(&mut self, m: TJob, ctx: &mut ActorContext) -> usize {
        let w = ctx.id().to_string();
        self.0.push(json!({"e": "begin", "w": w, "m": m.0}));
        for _ in 0..m.1 {
            tokio::task::yield_now().await;
        }
        self.0.push(json!({"e": "end", "w": w, "m": m.0}));
        m.0 * 7 + 3
    }
}
async fn worker_trace(seed: u64, runs: u64, log: Log) {
    use rand::{Rng, SeedableRng};
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    for _ in 0..runs {
        let mut sys = ActorSystem::new();
        let size = rng.gen_range(1..5usize);
        let total = rng.gen_range(5..24usize);
        log.push(json!({"e": "pool", "size": size, "total": total}));
        let p = TWk(log.clone()).into_worker(size, "wk", &mut sys).await.unwrap();
        let mut hs = vec![];
        for id in 1..=total {
            let (mut p, log, y) = (p.clone(), log.clone(), rng.gen_range(0..4));
            hs.push(tokio::spawn(async move {
                log.push(json!({"e": "call", "m": id}));
                let r = p.dispatch(TJob(id, y)).await;
                log.push(json!({"e": "ret", "m": id, "r": r.map(|v| v).unwrap_or(0)}));
            }));
            if rng.gen_bool(0.3) {
                tokio::task::yield_now().await;
            }
        }
        for h in hs {
            let _ = h.await;
        }
        log.push(json!({"e": "done"}));
    }
}
