//! Actor.tla replay (A01, A02).
use async_trait::async_trait;
use coerce::actor::context::{ActorContext, ActorStatus};
use coerce::actor::lifecycle::Status;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, IntoActor, LocalActorRef};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use vh::*;

#[derive(Clone, Default)]
struct Shared {
    log: Log,
    start: Gate,
    start_stop: Arc<Mutex<bool>>,
    handler: Gate,
    stop: Gate,
    me: Arc<Mutex<Option<LocalActorRef<Probe>>>>,
}
struct Probe {
    sh: Shared,
}
struct Work {
    id: usize,
    gated: bool,
    stop: bool,
}
impl Message for Work {
    type Result = usize;
}

#[async_trait]
impl Actor for Probe {
    async fn started(&mut self, ctx: &mut ActorContext) {
        *self.sh.me.lock().unwrap() = Some(self.actor_ref(ctx));
        self.sh.log.push(json!(["starting", 0]));
        self.sh.start.pass().await;
        self.sh.log.push(json!(["started", 0]));
        if *self.sh.start_stop.lock().unwrap() {
            ctx.stop(None);
        }
    }
    async fn stopped(&mut self, _ctx: &mut ActorContext) {
        self.sh.log.push(json!(["stopping", 0]));
        self.sh.stop.pass().await;
        self.sh.log.push(json!(["stopped", 0]));
    }
}
#[async_trait]
impl Handler<Work> for Probe {
    async fn handle(&mut self, m: Work, ctx: &mut ActorContext) -> usize {
        if m.gated {
            self.sh.log.push(json!(["begin", m.id]));
            if m.stop {
                ctx.stop(None);
            }
            self.sh.handler.pass().await;
            self.sh.log.push(json!(["end", m.id]));
        } else {
            self.sh.log.push(json!(["run", m.id]));
        }
        m.id * 7 + 3
    }
}

fn okv(r: Result<usize, coerce::actor::ActorRefErr>, id: usize) -> Value {
    match r {
        Ok(v) if v == id * 7 + 3 => json!("ok"),
        Ok(v) => json!(format!("wrong:{}", v)),
        Err(_) => json!("err"),
    }
}

async fn run(steps: &[Value]) -> ReplayResult {
    let sys = ActorSystem::new();
    let sh = Shared::default();
    let mut create = json!("none");
    let mut create_call: Option<Call> = None;
    let mut res: Vec<Call> = vec![];
    for (i, st) in steps.iter().enumerate() {
        match op(st) {
            "create" => {
                let (s2, sys2) = (sh.clone(), sys.clone());
                let variant = steps.len() % 3;
                if st["mode"] == "deferred" {
                    let ty = if variant == 0 { ActorType::Anonymous } else { ActorType::Tracked };
                    let r = sys2.new_actor_deferred(format!("p{}", uniq()), Probe { sh: s2 }, ty).await;
                    *sh.me.lock().unwrap() = Some(r);
                    create = json!("ok");
                } else {
                    create_call = Some(Call::spawn(async move {
                        let p = Probe { sh: s2 };
                        let r = match variant {
                            0 => sys2.new_anon_actor(p).await,
                            1 => p.into_actor(Some(format!("p{}", uniq())), &sys2).await,
                            _ => sys2.new_tracked_actor(p).await,
                        };
                        json!(if r.is_ok() { "ok" } else { "err" })
                    }));
                }
            }
            "start" => {
                *sh.start_stop.lock().unwrap() = st["stop"].as_bool().unwrap();
                sh.start.open();
            }
            "msg" => {
                let id = res.len() + 1;
                let r = sh.me.lock().unwrap().clone().expect("harness: no ref");
                let log = sh.log.clone();
                let call = match st["kind"].as_str().unwrap() {
                    "send" => Call::spawn(async move { okv(r.send(Work { id, gated: true, stop: false }).await, id) }),
                    "selfstop" => Call::spawn(async move { okv(r.send(Work { id, gated: true, stop: true }).await, id) }),
                    "fast" => Call::spawn(async move { okv(r.send(Work { id, gated: false, stop: false }).await, id) }),
                    "deliver" => Call::spawn(async move {
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        match r.deliver(Work { id, gated: true, stop: false }, tx) {
                            Ok(()) => match rx.await {
                                Ok(v) => okv(Ok(v), id),
                                Err(_) => json!("err"),
                            },
                            Err(_) => json!("err"),
                        }
                    }),
                    "exec" => Call::spawn(async move {
                        okv(r.exec(move |_a| { log.push(json!(["run", id])); id * 7 + 3 }).await, id)
                    }),
                    "nexec" => { let x = r.notify_exec(move |_a| { log.push(json!(["run", id])); });
                        Call(Arc::new(Mutex::new(json!(if x.is_ok() { "ok" } else { "err" })))) }
                    "notify" => { let x = r.notify(Work { id, gated: true, stop: false });
                        Call(Arc::new(Mutex::new(json!(if x.is_ok() { "ok" } else { "err" })))) }
                    "stop" => Call::spawn(async move { json!(if r.stop().await.is_ok() { "ok" } else { "err" }) }),
                    "nstop" => { let x = r.notify_stop();
                        Call(Arc::new(Mutex::new(json!(if x.is_ok() { "ok" } else { "err" })))) }
                    "status" => Call::spawn(async move {
                        match r.send(Status).await { Ok(ActorStatus::Started) => json!("Started"), Ok(o) => json!(format!("{:?}", o)), Err(_) => json!("err") }
                    }),
                    k => panic!("harness: kind {}", k),
                };
                res.push(call);
            }
            "release" => sh.handler.open(),
            "stopped" => sh.stop.open(),
            o => panic!("harness: op {}", o),
        }
        settle().await;
        if let Some(c) = &create_call {
            create = c.get();
        }
        let got = json!({"create": create, "res": res.iter().map(|c| c.get()).collect::<Vec<_>>(), "log": sh.log.get()});
        check(i, &st["obs"], got, "actor")?;
    }
    Ok(())
}

struct TWork {
    id: usize,
    yields: usize,
}
impl Message for TWork {
    type Result = usize;
}
struct Rec {
    log: Log,
}
impl Actor for Rec {}
#[async_trait]
impl Handler<TWork> for Rec {
    async fn handle(&mut self, m: TWork, _ctx: &mut ActorContext) -> usize {
        self.log.push(json!({"e": "begin", "m": m.id}));
        for _ in 0..m.yields {
            tokio::task::yield_now().await;
        }
        self.log.push(json!({"e": "end", "m": m.id}));
        m.id * 7 + 3
    }
}

async fn trace_run(seed: u64, log: Log) {
    use rand::{Rng, SeedableRng};
    let sys = ActorSystem::new();
    let a = Rec { log: log.clone() }.into_actor(Some(format!("t{}", uniq())), &sys).await.unwrap();
    let mut hs = vec![];
    for s in 0..4usize {
        let (a, log) = (a.clone(), log.clone());
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed * 31 + s as u64);
        hs.push(tokio::spawn(async move {
            let mut waits = vec![];
            for i in 0..10usize {
                let id = s * 10 + i + 1;
                let w = TWork { id, yields: rng.gen_range(0..3) };
                log.push(json!({"e": "call", "m": id}));
                match rng.gen_range(0..5) {
                    0 => {
                        let r = a.send(w).await;
                        log.push(json!({"e": "sent", "m": id}));
                        log.push(json!({"e": "ret", "m": id, "wait": true, "r": r.unwrap_or(0)}));
                    }
                    1 | 2 => {
                        let _ = a.notify(w);
                        log.push(json!({"e": "sent", "m": id}));
                        log.push(json!({"e": "ret", "m": id, "wait": false, "r": 0}));
                    }
                    3 => {
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        let _ = a.deliver(w, tx);
                        log.push(json!({"e": "sent", "m": id}));
                        let log = log.clone();
                        waits.push(tokio::spawn(async move {
                            let r = rx.await;
                            log.push(json!({"e": "ret", "m": id, "wait": true, "r": r.unwrap_or(0)}));
                        }));
                    }
                    _ => {
                        let l2 = log.clone();
                        let r = a.exec(move |_| { l2.push(json!({"e": "begin", "m": id})); l2.push(json!({"e": "end", "m": id})); id * 7 + 3 }).await;
                        log.push(json!({"e": "sent", "m": id}));
                        log.push(json!({"e": "ret", "m": id, "wait": true, "r": r.unwrap_or(0)}));
                    }
                }
                if rng.gen_bool(0.3) {
                    tokio::task::yield_now().await;
                }
            }
            for w in waits {
                let _ = w.await;
            }
        }));
    }
    for h in hs {
        let _ = h.await;
    }
    let _ = a.stop().await;
    log.push(json!({"e": "reset"}));
}

struct Stopper {
    log: Log,
}
#[async_trait]
impl Actor for Stopper {
    async fn stopped(&mut self, _ctx: &mut ActorContext) {
        self.log.push(json!({"e": "hook"}));
        self.log.push(json!({"e": "hookend"}));
    }
}
#[async_trait]
impl Handler<TWork> for Stopper {
    async fn handle(&mut self, m: TWork, _ctx: &mut ActorContext) -> usize {
        self.log.push(json!({"e": "begin", "m": m.id}));
        self.log.push(json!({"e": "end", "m": m.id}));
        m.id * 7 + 3
    }
}

/// one actor, stopped while several tasks keep sending to it; true if somebody was left waiting
async fn stop_run(seed: u64, sys: ActorSystem, log: Log) -> bool {
    use rand::{Rng, SeedableRng};
    const LONG: std::time::Duration = std::time::Duration::from_secs(20);
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let anon = rng.gen_bool(0.7);
    let x = Stopper { log: log.clone() };
    let a = if anon { x.into_anon_actor(Some(format!("s{}", uniq())), &sys).await.unwrap() } else { x.into_actor(Some(format!("s{}", uniq())), &sys).await.unwrap() };
    let mut hs = vec![];
    for s in 0..3usize {
        let (a, log) = (a.clone(), log.clone());
        hs.push(tokio::spawn(async move {
            let mut hang = false;
            for i in 0..40usize {
                let id = s * 40 + i + 1;
                log.push(json!({"e": "call", "m": id}));
                let r = match tokio::time::timeout(LONG, a.send(TWork { id, yields: 0 })).await {
                    Ok(Ok(r)) if r == id * 7 + 3 => "ok",
                    Ok(Ok(_)) => "wrong",
                    Ok(Err(_)) => "err",
                    Err(_) => { hang = true; "hang" }
                };
                log.push(json!({"e": "ret", "m": id, "r": r}));
                if r != "ok" { break; }
            }
            hang
        }));
    }
    for k in 1..=rng.gen_range(1..=2usize) {
        let (a, log, wait, n) = (a.clone(), log.clone(), rng.gen_bool(0.8), rng.gen_range(0..6));
        hs.push(tokio::spawn(async move {
            for _ in 0..n { tokio::task::yield_now().await; }
            log.push(json!({"e": "stopcall", "m": k}));
            let r = if wait {
                match tokio::time::timeout(LONG, a.stop()).await { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "hang" }
            } else if a.notify_stop().is_ok() { "queued" } else { "err" };
            log.push(json!({"e": "stopret", "m": k, "r": r}));
            r == "hang"
        }));
    }
    let mut hang = false;
    for h in hs { hang |= h.await.unwrap_or(true); }
    // the last to hear of it may have been a stop that is not waited for
    for _ in 0..1000 {
        if log.get().as_array().unwrap().iter().any(|e| e["e"] == "hookend") { break; }
        tokio::time::sleep(std::time::Duration::from_millis(2)).await;
    }
    log.push(json!({"e": "reset"}));
    drop(a);
    hang
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "trace" {
        let (path, seed, runs) = (args[2].clone(), args[3].parse::<u64>().unwrap(), args[4].parse::<u64>().unwrap());
        record(&path, 4, move |log| Box::pin(async move {
            for r in 0..runs { trace_run(seed * 1000 + r, log.clone()).await; }
        }));
        return;
    }
    if args[1] == "stops" {
        // every 50th execution is checked in full, of the others those that did not come to an end
        let (path, seed, runs) = (args[2].clone(), args[3].parse::<u64>().unwrap(), args[4].parse::<u64>().unwrap());
        record(&path, 6, move |log| Box::pin(async move {
            let sys = ActorSystem::new();
            let mut r = 0;
            let mut set = tokio::task::JoinSet::new();
            while r < runs || !set.is_empty() {
                while r < runs && set.len() < 4 {
                    let (sys, s) = (sys.clone(), seed * 1_000_000 + r);
                    set.spawn(async move { let l = Log::new(); let hang = stop_run(s, sys, l.clone()).await; (s, hang, l) });
                    r += 1;
                }
                if let Some(Ok((s, hang, l))) = set.join_next().await {
                    if hang || s % 50 == 0 { for e in l.get().as_array().unwrap() { log.push(e.clone()); } }
                }
            }
        }));
        return;
    }
    main_replay(|_sub, steps| {
        let rt = paused_rt();
        rt.block_on(run(steps))
    });
}
