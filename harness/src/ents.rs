//! Sharded entities whose start and stop the driver holds back, and a journal shared by all nodes.
use crate::Gate;
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorId, ActorRecipe, ActorRefErr};
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use coerce::sharding::coordinator::ShardId;
use coerce::sharding::host::ShardAllocator;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------------------------------------ journal
#[derive(Default)]
pub struct Faults { pub reject: HashSet<String>, pub writes: HashMap<String, usize> }
/// Reads wait at the gate of their key if there is one; writes to listed keys fail.
#[derive(Clone)]
pub struct Store { pub inner: JournalStorageRef, pub gates: Arc<Mutex<HashMap<String, Gate>>>, pub faults: Arc<Mutex<Faults>> }
impl Store {
    pub fn new(inner: JournalStorageRef) -> Store { Store { inner, gates: Default::default(), faults: Default::default() } }
    pub fn with_gates(&self) -> Store { Store { inner: self.inner.clone(), gates: Default::default(), faults: self.faults.clone() } }
    pub fn gate(&self, key: &str) -> Gate { self.gates.lock().unwrap().entry(key.to_string()).or_default().clone() }
    fn write(&self, id: &str) -> anyhow::Result<()> {
        let mut f = self.faults.lock().unwrap();
        if f.reject.contains(id) { return Err(anyhow::anyhow!("rejected")) }
        *f.writes.entry(id.to_string()).or_default() += 1;
        Ok(())
    }
}
impl StorageProvider for Store {
    fn journal_storage(&self) -> Option<JournalStorageRef> { Some(Arc::new(self.clone())) }
}
#[async_trait]
impl JournalStorage for Store {
    async fn write_snapshot(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> { self.write(id)?; self.inner.write_snapshot(id, e).await }
    async fn write_message(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> { self.write(id)?; self.inner.write_message(id, e).await }
    async fn write_message_batch(&self, id: &str, es: Vec<JournalEntry>) -> anyhow::Result<()> { self.write(id)?; self.inner.write_message_batch(id, es).await }
    async fn read_latest_snapshot(&self, id: &str) -> anyhow::Result<Option<JournalEntry>> {
        let g = self.gates.lock().unwrap().get(id).cloned();
        if let Some(g) = g { g.pass().await }
        self.inner.read_latest_snapshot(id).await
    }
    async fn read_latest_messages(&self, id: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { self.inner.read_latest_messages(id, from).await }
    async fn read_message(&self, id: &str, s: i64) -> anyhow::Result<Option<JournalEntry>> { self.inner.read_message(id, s).await }
    async fn read_messages(&self, id: &str, a: i64, b: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> { self.inner.read_messages(id, a, b).await }
    async fn delete_messages_to(&self, id: &str, to: i64) -> anyhow::Result<()> { self.inner.delete_messages_to(id, to).await }
    async fn delete_all(&self, id: &str) -> anyhow::Result<()> { self.inner.delete_all(id).await }
}

// ------------------------------------------------------------------------------------------------ entities
pub struct Inst { pub node: usize, pub id: String, pub recipe: u64, pub state: &'static str }
#[derive(Clone, Default)]
pub struct World {
    pub inst: Arc<Mutex<Vec<Inst>>>,
    pub handled: Arc<Mutex<Vec<(u64, usize, String)>>>,
    pub gates: Arc<Mutex<HashMap<(bool, usize, String), Gate>>>,
    pub gated: Arc<Mutex<(bool, bool)>>,
}
impl World {
    pub fn gate(&self, up: bool, node: usize, id: &str) -> Gate {
        let open = { let g = self.gated.lock().unwrap(); !(if up { g.0 } else { g.1 }) };
        self.gates.lock().unwrap().entry((up, node, id.to_string())).or_insert_with(|| { let g = Gate::new(); if open { g.open_forever() } g }).clone()
    }
    /// State of the entity on the node: the one live instance, or all of them if there are several.
    pub fn state(&self, node: usize, id: &str) -> serde_json::Value {
        let g = self.inst.lock().unwrap();
        let up: Vec<_> = g.iter().filter(|i| i.node == node && i.id == id && i.state != "none").map(|i| i.state).collect();
        match up.len() { 0 => "none".into(), 1 => up[0].into(), _ => serde_json::json!(up) }
    }
}
/// What an entity is made of: a number, and whether it can be made at all.
#[derive(Clone)]
pub struct Rec(pub u64);
impl ActorRecipe for Rec {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> { b.clone().try_into().ok().map(|x| Rec(u64::from_be_bytes(x))) }
    fn write_to_bytes(&self) -> Option<Vec<u8>> { Some(self.0.to_be_bytes().to_vec()) }
}
#[derive(Clone)]
pub struct Make { pub node: usize, pub w: World }
#[async_trait]
impl ActorFactory for Make {
    type Actor = Ent;
    type Recipe = Rec;
    async fn create(&self, r: Rec) -> Result<Ent, ActorCreationErr> {
        if r.0 == 0 { return Err(ActorCreationErr::InvalidRecipe("0".into())) }
        // small numbers: nothing can be made of them, and it takes a while to find out
        if r.0 < 10 {
            self.w.gate(true, self.node, &format!("bad-{}", r.0)).pass().await;
            return Err(ActorCreationErr::InvalidRecipe("small".into()))
        }
        Ok(Ent { node: self.node, slot: 0, id: String::new(), recipe: r.0, w: self.w.clone() })
    }
}
pub struct Ent { pub node: usize, slot: usize, pub id: String, recipe: u64, w: World }
impl Ent {
    fn set(&self, v: &'static str) { self.w.inst.lock().unwrap()[self.slot].state = v }
}
#[async_trait]
impl Actor for Ent {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.id = ctx.id().to_string();
        {
            let mut g = self.w.inst.lock().unwrap();
            g.push(Inst { node: self.node, id: self.id.clone(), recipe: self.recipe, state: "starting" });
            self.slot = g.len() - 1;
        }
        self.w.gate(true, self.node, &self.id).pass().await;
        self.set("running");
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        self.set("stopping");
        self.w.gate(false, self.node, &self.id).pass().await;
        self.set("none");
    }
}
/// Asks the entity for a number made of the message, the entity and its recipe.
pub struct Ask(pub u64);
pub fn answer(m: u64, id: &str, recipe: u64) -> u64 { m * 1_000_003 + recipe * 1009 + id.bytes().map(|b| b as u64).sum::<u64>() }
impl Message for Ask {
    type Result = u64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(self.0.to_be_bytes().to_vec()) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { b.try_into().map(|x| Ask(u64::from_be_bytes(x))).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> { b.try_into().map(u64::from_be_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.to_be_bytes().to_vec()) }
}
#[async_trait]
impl Handler<Ask> for Ent {
    async fn handle(&mut self, m: Ask, ctx: &mut ActorContext) -> u64 {
        self.w.handled.lock().unwrap().push((m.0, self.node, ctx.id().to_string()));
        answer(m.0, ctx.id(), self.recipe)
    }
}
/// A message the entity handles but the nodes were never configured for.
pub struct Odd;
impl Message for Odd {
    type Result = u64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![]) }
    fn from_bytes(_: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Ok(Odd) }
    fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> { b.try_into().map(u64::from_be_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.to_be_bytes().to_vec()) }
}
#[async_trait]
impl Handler<Odd> for Ent {
    async fn handle(&mut self, _: Odd, _: &mut ActorContext) -> u64 { 7 }
}
/// Asks the entity to stop.
pub struct Quit;
impl Message for Quit {
    type Result = u64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(vec![]) }
    fn from_bytes(_: Vec<u8>) -> Result<Self, MessageUnwrapErr> { Ok(Quit) }
    fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> { b.try_into().map(u64::from_be_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.to_be_bytes().to_vec()) }
}
#[async_trait]
impl Handler<Quit> for Ent {
    async fn handle(&mut self, _: Quit, ctx: &mut ActorContext) -> u64 { ctx.stop(None); 7 }
}
/// Entity "x-3-b" is in shard 3.
pub struct BySuffix;
impl ShardAllocator for BySuffix {
    fn allocate(&mut self, id: &ActorId) -> ShardId { id.split('-').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0) }
}
/// As `outcome`, naming the recipe the answer was made with.
pub fn outcome_of(m: u64, id: &str, recipes: &[u64], r: Result<u64, ActorRefErr>) -> serde_json::Value {
    if let Ok(x) = r { if let Some(q) = recipes.iter().find(|q| answer(m, id, **q) == x) { return format!("ok{}", q).into() } }
    match outcome(m, id, u64::MAX / 4096, r) { serde_json::Value::String(s) if s == "Unavailable" => "error".into(), v => v }
}
pub fn outcome(m: u64, id: &str, recipe: u64, r: Result<u64, ActorRefErr>) -> serde_json::Value {
    match r {
        Ok(x) if x == answer(m, id, recipe) => "ok".into(),
        Ok(x) => format!("wrong {}", x).into(),
        Err(ActorRefErr::NotFound(_)) => "NotFound".into(),
        Err(ActorRefErr::NotSupported { .. }) => "NotSupported".into(),
        Err(ActorRefErr::ResultChannelClosed) | Err(ActorRefErr::ResultSendFailed) | Err(ActorRefErr::InvalidRef) => "closed".into(),
        Err(ActorRefErr::ActorUnavailable) => "Unavailable".into(),
        Err(e) => format!("{:?}", e).into(),
    }
}
