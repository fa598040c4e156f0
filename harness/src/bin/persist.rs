//! Persist.tla replay (B01, B02, B03) and Recovery.tla replay (B04).
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Envelope, Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::LocalActorRef;
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::snapshot::Snapshot;
use coerce::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use coerce::persistent::journal::types::JournalTypes;
use coerce::persistent::journal::RecoveryErr;
use coerce::persistent::{PersistFailurePolicy, Persistence, PersistentActor, Recover, RecoverSnapshot, RecoveryFailurePolicy, Retry};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;
use vh::*;

// ---------------------------------------------------------------- storage with faults
#[derive(Default)]
struct Ctl {
    reject: usize,
    attempts: Vec<Instant>,
    crash: Option<bool>,
    written: HashMap<String, Vec<i64>>,
    snaps: HashMap<String, Vec<i64>>,
    trim_ok: bool,
    // recovery faults
    fail_snap: usize,
    fail_msgs: usize,
    snap_reads: usize,
    msg_reads: usize,
    read_at: Vec<Instant>,
}
#[derive(Clone)]
struct Faulty {
    inner: JournalStorageRef,
    c: Arc<Mutex<Ctl>>,
}
struct Prov(Faulty);
impl StorageProvider for Prov {
    fn journal_storage(&self) -> Option<JournalStorageRef> {
        Some(Arc::new(self.0.clone()))
    }
}
impl Faulty {
    /// Ok(true): perform; Ok(false): perform then hang
    async fn gate(&self) -> anyhow::Result<bool> {
        let crash = {
            let mut c = self.c.lock().unwrap();
            c.attempts.push(Instant::now());
            if c.reject > 0 {
                c.reject -= 1;
                return Err(anyhow::anyhow!("rejected"));
            }
            c.crash
        };
        match crash {
            None => Ok(true),
            Some(true) => Ok(false),
            Some(false) => std::future::pending().await,
        }
    }
}
#[async_trait]
impl JournalStorage for Faulty {
    async fn write_snapshot(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> {
        let go = self.gate().await?;
        let seq = e.sequence;
        self.inner.write_snapshot(id, e).await?;
        {
            let mut c = self.c.lock().unwrap();
            c.written.entry(id.to_string()).or_default().push(seq);
            c.snaps.entry(id.to_string()).or_default().push(seq);
        }
        if !go { std::future::pending::<()>().await }
        Ok(())
    }
    async fn write_message(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> {
        let go = self.gate().await?;
        let seq = e.sequence;
        self.inner.write_message(id, e).await?;
        self.c.lock().unwrap().written.entry(id.to_string()).or_default().push(seq);
        if !go { std::future::pending::<()>().await }
        Ok(())
    }
    async fn write_message_batch(&self, id: &str, es: Vec<JournalEntry>) -> anyhow::Result<()> {
        let go = self.gate().await?;
        let seqs: Vec<i64> = es.iter().map(|e| e.sequence).collect();
        self.inner.write_message_batch(id, es).await?;
        self.c.lock().unwrap().written.entry(id.to_string()).or_default().extend(seqs);
        if !go { std::future::pending::<()>().await }
        Ok(())
    }
    async fn read_latest_snapshot(&self, id: &str) -> anyhow::Result<Option<JournalEntry>> {
        {
            let mut c = self.c.lock().unwrap();
            c.snap_reads += 1;
            c.read_at.push(Instant::now());
            if c.fail_snap > 0 {
                c.fail_snap -= 1;
                return Err(anyhow::anyhow!("snapshot read failed"));
            }
        }
        self.inner.read_latest_snapshot(id).await
    }
    async fn read_latest_messages(&self, id: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        {
            let mut c = self.c.lock().unwrap();
            c.msg_reads += 1;
            if c.fail_msgs > 0 {
                c.fail_msgs -= 1;
                return Err(anyhow::anyhow!("message read failed"));
            }
        }
        self.inner.read_latest_messages(id, from).await
    }
    async fn read_message(&self, id: &str, s: i64) -> anyhow::Result<Option<JournalEntry>> {
        self.inner.read_message(id, s).await
    }
    async fn read_messages(&self, id: &str, a: i64, b: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        self.inner.read_messages(id, a, b).await
    }
    async fn delete_messages_to(&self, id: &str, to: i64) -> anyhow::Result<()> {
        {
            let mut c = self.c.lock().unwrap();
            let s = c.snaps.get(id).and_then(|v| v.iter().max().copied());
            if s.map_or(true, |s| to > s) { c.trim_ok = false; }
        }
        self.inner.delete_messages_to(id, to).await
    }
    async fn delete_all(&self, id: &str) -> anyhow::Result<()> {
        self.inner.delete_all(id).await
    }
}

// ---------------------------------------------------------------- the actor
struct E1(i64, String);
struct E2(i64, String);
struct S1(i64, String);
struct S2(i64, String);
fn enc(id: i64, k: &str) -> Vec<u8> {
    format!("{}@{}", id, k).into_bytes()
}
fn dec(b: Vec<u8>) -> Result<(i64, String), MessageUnwrapErr> {
    let s = String::from_utf8(b).map_err(|_| MessageUnwrapErr::DeserializationErr)?;
    let (a, k) = s.split_once('@').ok_or(MessageUnwrapErr::DeserializationErr)?;
    Ok((a.parse().map_err(|_| MessageUnwrapErr::DeserializationErr)?, k.to_string()))
}
macro_rules! event {
    ($t:ident) => {
        impl Message for $t {
            type Result = ();
            fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(enc(self.0, &self.1)) }
            fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { dec(b).map(|(a, k)| $t(a, k)) }
        }
        #[async_trait]
        impl Recover<$t> for PA {
            async fn recover(&mut self, m: $t, _ctx: &mut ActorContext) {
                let id = if m.1 == self.key { m.0 } else { -m.0 };
                self.log.push(json!(["event", id]));
            }
        }
    };
}
macro_rules! snap {
    ($t:ident) => {
        impl Snapshot for $t {
            fn into_remote_envelope(self) -> Result<Envelope<Self>, MessageWrapErr> { Ok(Envelope::Remote(enc(self.0, &self.1))) }
            fn from_remote_envelope(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { dec(b).map(|(a, k)| $t(a, k)) }
        }
        #[async_trait]
        impl RecoverSnapshot<$t> for PA {
            async fn recover(&mut self, m: $t, _ctx: &mut ActorContext) {
                let id = if m.1 == self.key { m.0 } else { -m.0 };
                self.log.push(json!(["snap", id]));
            }
        }
    };
}
event!(E1);
event!(E2);
snap!(S1);
snap!(S2);

struct PA {
    key: String,
    own_key: bool,
    log: Log,
    persist: PersistFailurePolicy,
    recovery: RecoveryFailurePolicy,
}
#[async_trait]
impl PersistentActor for PA {
    fn persistence_key(&self, ctx: &ActorContext) -> String {
        if self.own_key { self.key.clone() } else { ctx.id().to_string() }
    }
    fn configure(types: &mut JournalTypes<Self>) {
        types.message::<E1>("E1").message::<E2>("E2").snapshot::<S1>("S1").snapshot::<S2>("S2");
    }
    async fn pre_recovery(&mut self, _ctx: &mut ActorContext) {
        self.log.push(json!(["pre", 0]));
    }
    async fn post_recovery(&mut self, _ctx: &mut ActorContext) {
        self.log.push(json!(["post", 0]));
    }
    async fn stopped(&mut self, _ctx: &mut ActorContext) {
        self.log.push(json!(["stopped", 0]));
    }
    fn recovery_failure_policy(&self) -> RecoveryFailurePolicy {
        self.recovery
    }
    fn persist_failure_policy(&self) -> PersistFailurePolicy {
        self.persist
    }
    async fn on_recovery_err(&mut self, _e: RecoveryErr, _ctx: &mut ActorContext) {
        self.log.push(json!(["err", 0]));
    }
    async fn on_recovery_failed(&mut self, _ctx: &mut ActorContext) {
        self.log.push(json!(["failed", 0]));
    }
}
enum Do {
    Persist(i64),
    Batch(Vec<i64>),
    Snap(i64),
    Trim,
    Last,
}
impl Message for Do {
    type Result = (String, i64);
}
#[async_trait]
impl Handler<Do> for PA {
    async fn handle(&mut self, m: Do, ctx: &mut ActorContext) -> (String, i64) {
        let k = self.key.clone();
        let r = match m {
            Do::Persist(id) => {
                let r = if id % 2 == 1 { self.persist(&E1(id, k), ctx).await } else { self.persist(&E2(id, k), ctx).await };
                if r.is_ok() { "ok" } else { "err" }
            }
            Do::Batch(ids) => {
                let mut b = self.event_batch(ctx);
                for id in ids {
                    if id % 2 == 1 { b.message(E1(id, k.clone())); } else { b.message(E2(id, k.clone())); }
                }
                if self.persist_batch(b, ctx).await.is_ok() { "ok" } else { "err" }
            }
            Do::Snap(id) => {
                let r = if id % 2 == 1 { self.snapshot(S1(id, k), ctx).await } else { self.snapshot(S2(id, k), ctx).await };
                if r.is_ok() { "ok" } else { "err" }
            }
            Do::Trim => if self.clear_old_messages(ctx).await { "ok" } else { "no" },
            Do::Last => { self.log.push(json!(["handled", 0])); "ok" }
        };
        (r.to_string(), self.last_sequence_id(ctx))
    }
}

const DELAY: u64 = 20;
fn retry(pol: &str, max: usize, delay: Option<Duration>) -> Retry {
    match pol {
        "until" => Retry::UntilSuccess { delay },
        _ => Retry::MaxAttempts { max_attempts: max, delay },
    }
}
fn ppolicy(pol: &str, max: usize, delay: Option<Duration>) -> PersistFailurePolicy {
    match pol {
        "return" => PersistFailurePolicy::ReturnErr,
        "stop" => PersistFailurePolicy::StopActor,
        "panic" => PersistFailurePolicy::Panic,
        p => PersistFailurePolicy::Retry(retry(p, max, delay)),
    }
}
fn rpolicy(pol: &str, max: usize, delay: Option<Duration>) -> RecoveryFailurePolicy {
    match pol {
        "stop" => RecoveryFailurePolicy::StopActor,
        "panic" => RecoveryFailurePolicy::Panic,
        p => RecoveryFailurePolicy::Retry(retry(p, max, delay)),
    }
}

fn spaced(ts: &[Instant], delay: Option<Duration>) -> bool {
    match delay {
        None => true,
        Some(d) => ts.windows(2).all(|w| {
            let g = w[1] - w[0];
            g + Duration::from_millis(1) >= d && g <= d + Duration::from_millis(5)
        }),
    }
}

struct World {
    store: Faulty,
    sys: ActorSystem,
}
impl World {
    fn new() -> World {
        let prov = InMemoryStorageProvider::new();
        let store = Faulty { inner: prov.journal_storage().unwrap(), c: Arc::new(Mutex::new(Ctl { trim_ok: true, ..Default::default() })) };
        World { sys: Self::system(&store), store }
    }
    fn system(store: &Faulty) -> ActorSystem {
        ActorSystem::new().to_persistent(Persistence::from(Prov(store.clone())))
    }
}

async fn persist_run(steps: &[Value], fields: &[&str]) -> ReplayResult {
    let mut w = World::new();
    let first = &steps[0];
    let (pol, max) = (gets(first, "pol"), getu(first, "max"));
    let delay = if steps.len() % 2 == 0 { Some(Duration::from_millis(DELAY)) } else { None };
    let mut actors: HashMap<String, (LocalActorRef<PA>, Log)> = HashMap::new();
    let mut next_id: i64 = 0;
    for (i, st) in steps.iter().enumerate().skip(1) {
        let key = gets(st, "key");
        {
            let mut c = w.store.c.lock().unwrap();
            c.attempts.clear();
            c.reject = st["f"].as_u64().unwrap_or(0) as usize;
            c.crash = None;
        }
        let mut res = json!("ok");
        let mut snap = json!(0);
        let mut events: Vec<Value> = vec![];
        let mut last: Option<i64> = None;
        let ids = |next: &mut i64, c: usize| -> Vec<i64> { (0..c).map(|_| { *next += 1; *next }).collect() };
        let mut ask: Option<Do> = None;
        match op(st) {
            "start" => {
                let log = Log::new();
                let own = steps.len() % 3 == 0;
                let a = PA { key: key.clone(), own_key: own, log: log.clone(), persist: ppolicy(&pol, max, delay), recovery: RecoveryFailurePolicy::StopActor };
                let id = if own { format!("actor-{}", uniq()) } else { key.clone() };
                match w.sys.new_actor(id, a, ActorType::Anonymous).await {
                    Ok(r) => {
                        actors.insert(key.clone(), (r, log.clone()));
                    }
                    Err(_) => res = json!("err"),
                }
                let mut seen_event = false;
                for v in log.get().as_array().unwrap() {
                    match v[0].as_str().unwrap() {
                        "snap" if !seen_event && snap == json!(0) => snap = v[1].clone(),
                        "snap" => snap = json!("late or repeated snapshot"),
                        "event" => { seen_event = true; events.push(v[1].clone()) }
                        _ => {}
                    }
                }
            }
            "persist" => ask = Some(Do::Persist(ids(&mut next_id, 1)[0])),
            "batch" => ask = Some(Do::Batch(ids(&mut next_id, getu(st, "c")))),
            "snap" => ask = Some(Do::Snap(ids(&mut next_id, 1)[0])),
            "trim" => ask = Some(Do::Trim),
            "stop" => { let (a, _) = actors.remove(&key).expect("harness: no actor"); res = json!(if a.stop().await.is_ok() { "ok" } else { "err" }); }
            "crash" => { actors.remove(&key); w.sys = World::system(&w.store); }
            "crashin" => {
                let m = match (st["kind"].as_str().unwrap(), getu(st, "c")) {
                    ("snap", _) => Do::Snap(ids(&mut next_id, 1)[0]),
                    (_, 1) => Do::Persist(ids(&mut next_id, 1)[0]),
                    (_, c) => Do::Batch(ids(&mut next_id, c)),
                };
                w.store.c.lock().unwrap().crash = Some(st["stored"].as_bool().unwrap());
                let (a, _) = actors.remove(&key).expect("harness: no actor");
                let call = Call::spawn(async move { json!(a.send(m).await.map(|r| r.0).unwrap_or("err".into())) });
                tokio::time::sleep(Duration::from_millis(500)).await;
                res = if call.get() == "pending" { json!("crash") } else { call.get() };
                w.sys = World::system(&w.store);
            }
            o => panic!("harness: op {}", o),
        }
        if let Some(m) = ask {
            let a = actors.get(&key).expect("harness: no actor").0.clone();
            let out: Arc<Mutex<Option<i64>>> = Default::default();
            let o2 = out.clone();
            let call = Call::spawn(async move {
                match a.send(m).await {
                    Ok((r, l)) => { *o2.lock().unwrap() = Some(l); json!(r) }
                    Err(_) => json!("err"),
                }
            });
            tokio::time::sleep(Duration::from_millis(500)).await;
            res = call.get();
            last = *out.lock().unwrap();
        }
        let mut up = false;
        if let Some((a, _)) = actors.get(&key) {
            let a = a.clone();
            match tokio::time::timeout(Duration::from_secs(5), a.send(Do::Last)).await {
                Ok(Ok((_, l))) => {
                    up = true;
                    if let Some(p) = last { if p != l { last = Some(-999) } } else { last = Some(l) }
                }
                _ => {}
            }
        }
        if !up { actors.remove(&key); }
        let (attempts, mono, lastok, trimok) = {
            let c = w.store.c.lock().unwrap();
            let n = if spaced(&c.attempts, delay) { c.attempts.len() as i64 } else { -1 };
            let mono = c.written.values().all(|v| v.windows(2).all(|x| x[0] < x[1]));
            let lastok = match (up, last, c.written.get(&key).and_then(|v| v.iter().max())) {
                (true, Some(l), Some(m)) => l == *m,
                _ => true,
            };
            (n, mono, lastok, c.trim_ok)
        };
        let got = json!({"res": res, "attempts": attempts, "up": up, "mono": mono, "lastok": lastok, "trimok": trimok, "snap": snap, "events": events});
        let mut exp = serde_json::Map::new();
        let mut g = serde_json::Map::new();
        for f in fields {
            exp.insert(f.to_string(), st["obs"][*f].clone());
            g.insert(f.to_string(), got[*f].clone());
        }
        check(i, &Value::Object(exp), Value::Object(g), "persistent actor")?;
        // the alternatives that end an actor must agree with the model or later steps make no sense
        if st["obs"]["up"] != json!(up) {
            return if fields.contains(&"up") { Err(Mismatch::new(i, st["obs"].clone(), got, "actor up/down")) } else { Ok(()) };
        }
    }
    Ok(())
}

async fn recovery_run(steps: &[Value]) -> ReplayResult {
    let w = World::new();
    let first = &steps[0];
    let (pol, max) = (gets(first, "pol"), getu(first, "max"));
    let delay = if steps.len() % 2 == 0 { Some(Duration::from_millis(DELAY)) } else { None };
    let key = format!("rec-{}", uniq());
    let mut js: Vec<(String, bool)> = vec![];
    let mut actor: Option<LocalActorRef<PA>> = None;
    let mut log = Log::new();
    let mut create = json!("none");
    let mut msg = json!("none");
    let mut reads: usize = 0;
    for (i, st) in steps.iter().enumerate().skip(1) {
        match op(st) {
            "seed" | "repair" => {
                if op(st) == "seed" { js.push((gets(st, "kind"), st["bad"].as_bool().unwrap())); } else { for j in js.iter_mut() { j.1 = false; } }
                w.store.inner.delete_all(&key).await.unwrap();
                for (n, (kind, bad)) in js.iter().enumerate() {
                    let id = n as i64 + 1;
                    let bytes = if *bad { vec![0xff, 0xfe, 7] } else { enc(id, &key) };
                    let ty = format!("{}{}", if kind == "snap" { "S" } else { "E" }, if id % 2 == 1 { 1 } else { 2 });
                    let e = JournalEntry { sequence: id, payload_type: ty.as_str().into(), bytes: Arc::new(bytes) };
                    if kind == "snap" { w.store.inner.write_snapshot(&key, e).await.unwrap(); } else { w.store.inner.write_message(&key, e).await.unwrap(); }
                }
            }
            "start" => {
                {
                    let mut c = w.store.c.lock().unwrap();
                    c.fail_snap = getu(st, "fs");
                    c.fail_msgs = getu(st, "fm");
                    c.snap_reads = 0;
                    c.msg_reads = 0;
                    c.read_at.clear();
                }
                log = Log::new();
                let a = PA { key: key.clone(), own_key: true, log: log.clone(), persist: PersistFailurePolicy::ReturnErr, recovery: rpolicy(&pol, max, delay) };
                let (tx, rx) = tokio::sync::oneshot::channel::<LocalActorRef<PA>>();
                // the reference is taken before recovery ends, and a message is sent at once
                let sys = w.sys.clone();
                let id = format!("ra-{}", uniq());
                let id2 = id.clone();
                let c1 = Call::spawn(async move { json!(match sys.new_actor(id2, a, ActorType::Tracked).await { Ok(_) => "ok", Err(_) => "err" }) });
                let sys = w.sys.clone();
                let c2 = Call::spawn(async move {
                    tokio::task::yield_now().await;
                    match sys.get_tracked_actor::<PA>(id.as_str().into()).await {
                        Some(r) => { let _ = tx.send(r.clone()); json!(match r.send(Do::Last).await { Ok(_) => "ok", Err(_) => "err" }) }
                        None => json!("err"),
                    }
                });
                tokio::time::sleep(Duration::from_millis(2000)).await;
                create = c1.get();
                msg = c2.get();
                actor = rx.await.ok();
                let c = w.store.c.lock().unwrap();
                reads = if spaced(&c.read_at, delay) { c.snap_reads } else { 9999 };
            }
            "stop" => {
                if let Some(a) = actor.take() { let _ = a.stop().await; }
                settle().await;
            }
            o => panic!("harness: op {}", o),
        }
        if st["obs"]["create"] == "any" { continue; }
        let up = match &actor { Some(a) => a.status().await.is_ok(), None => false };
        let got = json!({"create": create, "msg": msg, "log": log.get(), "reads": reads, "up": up});
        check(i, &st["obs"], got, "recovery")?;
    }
    Ok(())
}

fn main() {
    main_replay(|sub, steps| {
        let rt = paused_rt();
        match sub {
            "recover" => rt.block_on(persist_run(steps, &["res", "up", "snap", "events"])),
            "seq" => rt.block_on(persist_run(steps, &["mono", "lastok", "trimok"])),
            "policy" => rt.block_on(persist_run(steps, &["res", "attempts", "up", "snap", "events"])),
            "recovery" => rt.block_on(recovery_run(steps)),
            s => panic!("harness: sub {}", s),
        }
    });
}
