//! Rpc.tla replay (F01) over real connections, and recorded bursts for RpcTrace.tla.
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::{Actor, ActorRef, ActorRefErr, CoreActorRef, IntoActor, IntoActorId, LocalActorRef};
use coerce::remote::RemoteActorRef;
use serde_json::{json, Value};
use std::time::Duration;
use vh::net::*;
use vh::*;

struct A { log: Log, gate: Gate }
impl Actor for A {}
struct B;
impl Actor for B {}

macro_rules! msg {
    ($name:ident, $as:expr, $from:expr, $wr:expr, $rr:expr) => {
        struct $name(u64);
        impl Message for $name {
            type Result = u64;
            fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { if $as { Ok(self.0.to_be_bytes().to_vec()) } else { Err(MessageWrapErr::SerializationErr) } }
            fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
                if $from { b.try_into().map(|x| $name(u64::from_be_bytes(x))).map_err(|_| MessageUnwrapErr::DeserializationErr) } else { Err(MessageUnwrapErr::DeserializationErr) }
            }
            fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> {
                if $rr { b.try_into().map(u64::from_be_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr) } else { Err(MessageUnwrapErr::DeserializationErr) }
            }
            fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { if $wr { Ok(r.to_be_bytes().to_vec()) } else { Err(MessageWrapErr::SerializationErr) } }
        }
    };
}
msg!(Hold, true, true, true, true);
msg!(Fast, true, true, true, true);
msg!(BadRes, true, true, false, true);
msg!(BadReply, true, true, true, false);
msg!(BadMsg, true, false, true, true);
msg!(Unwrap, false, true, true, true);
msg!(Local, true, true, true, true);
msg!(Remote1, true, true, true, true);
msg!(Remote2, true, true, true, true);
msg!(Remote3, true, true, true, true);

#[async_trait]
impl Handler<Hold> for A {
    async fn handle(&mut self, m: Hold, _: &mut ActorContext) -> u64 { self.log.push(json!(m.0)); self.gate.pass().await; m.0 }
}
macro_rules! plain { ($($t:ident),*) => { $(
#[async_trait]
impl Handler<$t> for A { async fn handle(&mut self, m: $t, _: &mut ActorContext) -> u64 { self.log.push(json!(m.0)); m.0 } }
)* } }
plain!(Fast, BadRes, BadReply, BadMsg, Unwrap, Local, Remote1, Remote2, Remote3);

fn kind(r: Result<u64, ActorRefErr>) -> Value {
    json!(match r {
        Ok(n) => n.to_string(),
        Err(ActorRefErr::Serialisation(_)) => "Serialisation".into(),
        Err(ActorRefErr::Deserialisation(_)) => "Deserialisation".into(),
        Err(ActorRefErr::NotSupported { .. }) => "NotSupported".into(),
        Err(ActorRefErr::NotFound(_)) => "NotFound".into(),
        Err(ActorRefErr::ResultChannelClosed) | Err(ActorRefErr::ResultSendFailed) | Err(ActorRefErr::InvalidRef) => "closed".into(),
        Err(e) => format!("other {:?}", e),
    })
}

async fn call(k: String, r: ActorRef<A>, n: u64, from: usize) -> Value {
    match k.as_str() {
        "hold" => kind(r.send(Hold(n)).await),
        "fast" => kind(r.send(Fast(n)).await),
        "note" | "notemissing" => match r.notify(Fast(n)).await { Ok(()) => json!("ok"), Err(e) => kind(Err(e)) },
        "badres" => kind(r.send(BadRes(n)).await),
        "badreply" => kind(r.send(BadReply(n)).await),
        "badmsg" => kind(r.send(BadMsg(n)).await),
        "unwrap" => kind(r.send(Unwrap(n)).await),
        "local" => kind(r.send(Local(n)).await),
        "remote" => match from { 1 => kind(r.send(Remote1(n)).await), 2 => kind(r.send(Remote2(n)).await), _ => kind(r.send(Remote3(n)).await) },
        "missing" | "wrong" => kind(r.send(Fast(n)).await),
        o => panic!("harness: kind {}", o),
    }
}

async fn run(cl: &Cluster, steps: &[Value]) -> ReplayResult {
    let at: Vec<usize> = steps[0]["at"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
    let mut acts: Vec<(LocalActorRef<A>, Log, Gate)> = vec![];
    let mut wrongs: Vec<LocalActorRef<B>> = vec![];
    // actors of different nodes may have the same id
    let run = uniq();
    for (i, n) in at.iter().enumerate() {
        let (log, gate) = (Log::new(), Gate::new());
        let sys = cl.nodes[n - 1].actor_system();
        let id = format!("a-{}-{}", run, at[..i].iter().filter(|m| m == &n).count());
        acts.push((A { log: log.clone(), gate: gate.clone() }.into_actor(Some(id), sys).await.unwrap(), log, gate));
        wrongs.push(B.into_actor(Some(format!("w-{}", uniq())), sys).await.unwrap());
    }
    let mut calls: Vec<Call> = vec![];
    let res = async {
        for (i, s) in steps.iter().enumerate() {
            match op(s) {
                "init" => {}
                "req" => {
                    let (n, a, k) = (getu(s, "n"), getu(s, "a"), gets(s, "k"));
                    let id = match k.as_str() {
                        "missing" | "notemissing" => format!("nobody-{}", uniq()).into_actor_id(),
                        "wrong" => wrongs[a - 1].actor_id().clone(),
                        _ => acts[a - 1].0.actor_id().clone(),
                    };
                    let r: ActorRef<A> = RemoteActorRef::<A>::new(id, cl.ids[at[a - 1] - 1], cl.nodes[n - 1].clone()).into();
                    let no = calls.len() as u64 + 1;
                    calls.push(Call::spawn(call(k, r, no, n)));
                }
                "release" => acts[getu(s, "a") - 1].2.open(),
                "stop" => { let _ = acts[getu(s, "a") - 1].0.notify_stop(); }
                o => panic!("harness: op {}", o),
            }
            let (acts, calls, nodes) = (&acts, &calls, &cl.nodes);
            let obs = || {
                let v = json!({
                    "res": calls.iter().map(|c| c.get()).collect::<Vec<_>>(),
                    "done": acts.iter().map(|x| x.1.get()).collect::<Vec<_>>(),
                    "inflight": nodes.iter().map(|n| n.inflight_remote_request_count()).collect::<Vec<_>>(),
                });
                async move { v }
            };
            let got = eventually(&s["obs"], 4.0, obs).await;
            check(i, &s["obs"], got, &format!("op {}", s))?;
        }
        Ok(())
    }
    .await;
    for (r, _, g) in &acts { g.open_forever(); let _ = r.notify_stop(); }
    for r in &wrongs { let _ = r.notify_stop(); }
    res
}

fn cluster(n: usize) -> (tokio::runtime::Runtime, Option<Cluster>) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let cl = rt.block_on(Cluster::start(n, |i, b| {
        let b = b
            .with_handler::<A, Hold>("A.Hold").with_handler::<A, Fast>("A.Fast").with_handler::<A, BadRes>("A.BadRes")
            .with_handler::<A, BadReply>("A.BadReply").with_handler::<A, BadMsg>("A.BadMsg").with_handler::<A, Unwrap>("A.Unwrap");
        match i { 0 => b.with_handler::<A, Remote1>("A.R1"), 1 => b.with_handler::<A, Remote2>("A.R2"), _ => b.with_handler::<A, Remote3>("A.R3") }
    }));
    (rt, cl)
}

thread_local! { static NET: std::cell::RefCell<Option<(tokio::runtime::Runtime, Cluster)>> = std::cell::RefCell::new(None); }

/// many concurrent requests in every direction
async fn burst(cl: &Cluster, log: Log, seed: u64) {
    use rand::prelude::*;
    let mut rng = StdRng::seed_from_u64(seed);
    let k = rng.gen_range(1..4);
    let mut acts = vec![];
    for a in 0..k {
        let n = rng.gen_range(0..cl.nodes.len());
        let l = Log::new();
        let g = Gate::new();
        g.open_forever();
        acts.push((n, A { log: l.clone(), gate: g }.into_actor(Some(format!("b-{}", uniq())), cl.nodes[n].actor_system()).await.unwrap(), l, a));
    }
    let total = rng.gen_range(8..40u64);
    let mut hs = vec![];
    for m in 1..=total {
        let (n, r, _, _) = &acts[rng.gen_range(0..acts.len())];
        let from = (n + 1 + rng.gen_range(0..cl.nodes.len() - 1)) % cl.nodes.len();
        let rr: ActorRef<A> = RemoteActorRef::<A>::new(r.actor_id().clone(), cl.ids[*n], cl.nodes[from].clone()).into();
        let wait = rng.gen_bool(0.8);
        let log = log.clone();
        let y = rng.gen_range(0..3);
        hs.push(tokio::spawn(async move {
            for _ in 0..y { tokio::task::yield_now().await }
            log.push(json!({"e": "call", "m": m, "wait": wait}));
            let r = if wait { match rr.send(Hold(m)).await { Ok(x) => x, Err(_) => 0 } } else { match rr.notify(Fast(m)).await { Ok(()) => m, Err(_) => 0 } };
            log.push(json!({"e": "ret", "m": m, "r": r}));
        }));
    }
    for h in hs { let _ = h.await; }
    // what the actors handled, once everything has arrived
    let t = std::time::Instant::now();
    while acts.iter().map(|a| a.2.get().as_array().unwrap().len() as u64).sum::<u64>() < total && t.elapsed() < Duration::from_secs(5) { tokio::time::sleep(Duration::from_millis(2)).await; }
    let t = std::time::Instant::now();
    while cl.nodes.iter().map(|n| n.inflight_remote_request_count()).sum::<usize>() > 0 && t.elapsed() < Duration::from_secs(5) { tokio::time::sleep(Duration::from_millis(1)).await; }
    for a in &acts {
        for m in a.2.get().as_array().unwrap() { log.push(json!({"e": "handled", "m": m})); }
        let _ = a.1.notify_stop();
    }
    log.push(json!({"e": "end", "total": total, "inflight": cl.nodes.iter().map(|n| n.inflight_remote_request_count()).sum::<usize>()}));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "burst" {
        let (seed, runs): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
        record(&args[2], 4, move |log| Box::pin(async move {
            let cl = Cluster::start(3, |_, b| b.with_handler::<A, Hold>("A.Hold").with_handler::<A, Fast>("A.Fast")).await;
            if let Some(cl) = cl { for r in 0..runs { burst(&cl, log.clone(), seed * 1000 + r).await; } }
        }));
        return;
    }
    main_replay(|_, steps| {
        NET.with(|c| {
            let mut c = c.borrow_mut();
            if c.is_none() {
                let n = std::env::var("VH_NODES").ok().and_then(|s| s.parse().ok()).unwrap_or(2);
                let (rt, cl) = cluster(n);
                *c = Some((rt, match cl { Some(x) => x, None => return Err(Mismatch::new(0, json!("the cluster forms"), json!("it does not"), "")) }));
            }
            let (rt, cl) = c.as_ref().unwrap();
            rt.block_on(run(cl, steps))
        })
    });
}
