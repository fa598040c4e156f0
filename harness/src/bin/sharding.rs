//! Sharding.tla replay (C03, C04): N nodes of one thread, messages between them delivered by the driver.
use coerce::actor::system::ActorSystem;
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::Persistence;
use coerce::remote::actor::RemoteResponse;
use coerce::remote::cluster::node::RemoteNode;
use coerce::remote::net::message::SessionEvent;
use coerce::remote::net::proto::network::MessageRequest;
use coerce::remote::stream::system::{ClusterEvent, ClusterMemberUp};
use coerce::sharding::coordinator::balancing::Rebalance;
use coerce::sharding::coordinator::stats::GetShardingStats;
use coerce::sharding::host::GetCoordinator;
use coerce::sharding::proto::sharding as proto;
use coerce::sharding::{sharding, Sharding};
use protobuf::Message as _;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::str::FromStr;
use std::time::Duration;
use uuid::Uuid;
use vh::ents::*;
use vh::wire::*;
use vh::*;

enum End { Done(ReplayResult), Diverged }

struct Flight { from: usize, to: usize, kind: &'static str, shard: usize, k: usize, m: u64, ev: SessionEvent }

async fn run(steps: &[Value]) -> End {
    let (n, ns) = (getu(&steps[0], "n"), getu(&steps[0], "s"));
    let g = &steps[0]["gates"];
    let wire = Wire::install();
    let w = World::default();
    *w.gated.lock().unwrap() = (g["up"].as_bool().unwrap(), g["down"].as_bool().unwrap());
    let ids: Vec<u64> = if steps.len() % 2 == 0 { (1..=n as u64).collect() } else { (1..=n as u64).map(|i| (1 << 63) + 10 - i).collect() };
    let idx = |id: u64| ids.iter().position(|x| *x == id);
    let base = Store::new(InMemoryStorageProvider::new().journal_storage().unwrap());
    let (mut sys, mut sharded, mut stores) = (vec![], vec![], vec![]);
    for i in 0..n {
        let store = base.with_gates();
        if g["shard"].as_bool().unwrap() { for x in 1..=ns { store.gate(&format!("Thing-Shard-{}", x)); } }
        let mk = Make { node: i, w: w.clone() };
        let a = ActorSystem::builder().system_name("s").build().to_persistent(Persistence::from(store.clone()));
        let r = node(ids[i], a, move |b| sharding(b).with_actor(mk.clone()).with_handler::<Ent, Ask>("Ent.Ask")).await;
        for j in 0..n { if j != i { r.register_node(RemoteNode::new(ids[j], format!("addr-{}", ids[j]), format!("tag-{}", ids[j]), None, Default::default())).await; } }
        sharded.push(Sharding::<Make>::start("Thing".into(), r.clone(), Some(Box::new(BySuffix))).await);
        sys.push(r);
        stores.push(store);
    }
    for i in 0..n {
        event(&sys[i], ClusterEvent::MemberUp(ClusterMemberUp { leader_id: ids[0], nodes: ids.iter().map(|x| member(*x)).collect() })).await;
    }
    for _ in 0..6 {
        tokio::time::sleep(Duration::from_millis(200)).await;
        for (from, to, e) in wire.take() {
            if let (Some(a), Some(b), SessionEvent::NotifyActor(m)) = (idx(from), idx(to), e) { deliver(sys[b].clone(), sys[a].clone(), m) }
        }
    }
    let coord = sharded[0].shard_host().send(GetCoordinator).await.unwrap();
    let mut fly: Vec<Flight> = vec![];
    let mut stop_ids: HashMap<String, (usize, usize)> = HashMap::new();
    let mut req_ids: HashMap<String, u64> = HashMap::new();
    let mut calls: Vec<Call> = vec![];
    let mut dead: BTreeSet<usize> = BTreeSet::new();
    let ent = |x: usize| format!("e-{}", x);
    macro_rules! bad { ($k:expr, $s:expr, $e:expr, $g:expr) => { return End::Done(Err(Mismatch::new($k, json!($e), json!($g), &{ let mut x = $s.clone(); x.as_object_mut().unwrap().remove("obs"); x }.to_string()))) } }
    for (k, s) in steps.iter().enumerate() {
        let i = s.get("i").and_then(|v| v.as_u64()).map_or(0, |v| v as usize - 1);
        let x = s.get("s").and_then(|v| v.as_u64()).map_or(0, |v| v as usize);
        // the message the step delivers
        let want: Option<Box<dyn Fn(&Flight) -> bool>> = match op(s) {
            "areq" => Some(Box::new(move |f| f.kind == "areq" && f.from == i && f.shard == x)),
            "ctl" => { let (t, kk) = (gets(s, "t"), getu(s, "k")); Some(Box::new(move |f| f.kind == t && f.to == i && f.shard == x && (t == "stop" || f.k == kk))) }
            "realloc" => Some(Box::new(move |f| f.kind == "realloc" && f.to == i && f.shard == x)),
            "stopped" => Some(Box::new(move |f| f.kind == "stopped" && f.from == i && f.shard == x)),
            "arrive" => { let m = getu(s, "m") as u64; Some(Box::new(move |f| f.kind == "ereq" && f.m == m)) }
            "reply" => { let m = getu(s, "m") as u64; Some(Box::new(move |f| f.kind == "reply" && f.m == m)) }
            _ => None,
        };
        if let Some(p) = want {
            let at = match fly.iter().position(|f| p(f)) { Some(a) => a, None => bad!(k, s, "a message to deliver", "none under way") };
            let f = fly.remove(at);
            match f.ev {
                SessionEvent::NotifyActor(m) => deliver(sys[f.to].clone(), sys[f.from].clone(), m),
                SessionEvent::Result(r) => { if let Some(tx) = sys[f.to].pop_request(Uuid::from_str(&r.message_id).unwrap()) { let _ = tx.send(RemoteResponse::Ok(r.result)); } }
                SessionEvent::Err(r) => { if let Some(tx) = sys[f.to].pop_request(Uuid::from_str(&r.message_id).unwrap()) { let _ = tx.send(RemoteResponse::Err(r.error.unwrap().into())); } }
                _ => {}
            }
        }
        match op(s) {
            "send" => {
                let m = calls.len() as u64 + 1;
                let h = sharded[i].get(ent(x), Some(Rec(x as u64 + 40)));
                let id = ent(x);
                calls.push(Call::spawn(async move { outcome(m, &id, x as u64 + 40, h.send(Ask(m)).await) }));
            }
            "open" => stores[i].gate(&format!("Thing-Shard-{}", x)).open(),
            "up" => w.gate(true, i, &ent(x)).open(),
            "down" => w.gate(false, i, &ent(x)).open(),
            "move" => { let c = coord.clone(); tokio::spawn(async move { let _ = c.send(Rebalance::Shards(vec![x as u32])).await; }); }
            "crash" => {
                dead.insert(i);
                fly.retain(|f| f.from != i && f.to != i);
                w.inst.lock().unwrap().iter_mut().filter(|e| e.node == i).for_each(|e| e.state = "none");
            }
            "removed" => event(&sys[0], ClusterEvent::NodeRemoved(member(ids[i]))).await,
            _ => {}
        }
        tokio::time::sleep(Duration::from_millis(300)).await;
        for (from, to, e) in wire.take() {
            let (a, b) = match (idx(from), idx(to)) { (Some(a), Some(b)) => (a, b), _ => continue };
            if dead.contains(&a) || dead.contains(&b) { continue }
            let mut f = Flight { from: a, to: b, kind: "", shard: 0, k: 0, m: 0, ev: e };
            let body = |m: &MessageRequest| m.message.clone();
            match &f.ev {
                SessionEvent::NotifyActor(m) => match m.handler_type.as_str() {
                    "ShardCoordinator.AllocateShard" => { f.kind = "areq"; f.shard = proto::AllocateShard::parse_from_bytes(&body(m)).unwrap().shard_id as usize; }
                    "ShardHost.ShardAllocated" => { let p = proto::ShardAllocated::parse_from_bytes(&body(m)).unwrap().shard.unwrap(); f.kind = "alloc"; f.shard = p.shard_id as usize; f.k = idx(p.node_id).map_or(0, |i| i + 1); }
                    "ShardHost.ShardReallocating" => { f.kind = "realloc"; f.shard = proto::ShardReallocating::parse_from_bytes(&body(m)).unwrap().shard_id as usize; }
                    "ShardHost.StopShard" => { let p = proto::StopShard::parse_from_bytes(&body(m)).unwrap(); f.kind = "stop"; f.shard = p.shard_id as usize; stop_ids.insert(p.request_id, (b, p.shard_id as usize)); }
                    "Shard.RemoteEntityRequest" => {
                        let p = proto::RemoteEntityRequest::parse_from_bytes(&body(m)).unwrap();
                        f.kind = "ereq"; f.m = p.message.clone().try_into().map_or(0, u64::from_be_bytes);
                        req_ids.insert(p.request_id, f.m);
                    }
                    _ => { deliver(sys[b].clone(), sys[a].clone(), m.clone()); continue }
                },
                SessionEvent::Result(r) => tag(&mut f.kind, &mut f.shard, &mut f.m, &r.message_id, &stop_ids, &req_ids),
                SessionEvent::Err(r) => tag(&mut f.kind, &mut f.shard, &mut f.m, &r.message_id, &stop_ids, &req_ids),
                _ => continue,
            }
            fly.push(f);
        }
        let handled = w.handled.lock().unwrap().clone();
        let c = coord.clone();
        let mut alloc = vec![0usize; ns];
        match tokio::time::timeout(Duration::from_secs(2), c.send(GetShardingStats)).await {
            Ok(Ok(st)) => {
                let mut per: HashMap<u64, u64> = HashMap::new();
                for r in &st.shards { alloc[r.shard_id as usize - 1] = idx(r.node_id).map_or(99, |i| i + 1); *per.entry(r.node_id).or_default() += 1; }
                if st.nodes.iter().any(|x| x.shard_count != per.get(&x.node_id).copied().unwrap_or(0)) || st.total_shards as usize != st.shards.len() {
                    bad!(k, s, "views by shard and by node agree", format!("{:?} vs {:?}", per, st.nodes.iter().map(|x| (x.node_id, x.shard_count)).collect::<Vec<_>>()));
                }
            }
            _ => bad!(k, s, "statistics", "no answer"),
        }
        let got = json!({
            "alloc": alloc,
            "ent": (0..n).map(|i| (1..=ns).map(|x| if dead.contains(&i) { json!("none") } else { w.state(i, &ent(x)) }).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "msg": calls.iter().enumerate().map(|(c, r)| json!({"h": handled.iter().filter(|x| x.0 == c as u64 + 1).map(|x| x.1 + 1).collect::<Vec<_>>(), "res": r.get()})).collect::<Vec<_>>(),
        });
        if s["obs"]["alloc"] != got["alloc"] && s.get("alts").and_then(|a| a.as_array()).map_or(false, |a| a.iter().any(|x| *x == got["alloc"])) { return End::Diverged }
        if let Err(e) = check(k, &s["obs"], got, &{ let mut x = s.clone(); x.as_object_mut().unwrap().remove("obs"); x }.to_string()) { return End::Done(Err(e)) }
    }
    End::Done(Ok(()))
}

fn tag(kind: &mut &'static str, shard: &mut usize, m: &mut u64, id: &str, stop: &HashMap<String, (usize, usize)>, req: &HashMap<String, u64>) {
    if let Some((_, x)) = stop.get(id) { *kind = "stopped"; *shard = *x; }
    else if let Some(x) = req.get(id) { *kind = "reply"; *m = *x; }
}

fn main() {
    main_replay(|_, steps| {
        // the host of a new shard is chosen among equals: try again until the choice is the one of the behaviour
        for _ in 0..24 {
            match paused_rt().block_on(run(steps)) { End::Done(r) => return r, End::Diverged => {} }
        }
        if std::env::var("VH_DIVERGED").is_ok() { eprintln!("DIVERGED") }
        Ok(())
    });
}
