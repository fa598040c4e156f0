//! Coordinator.tla traces (C01, C02): a real shard coordinator on node 1; the other hosts are played by the driver.
use coerce::actor::system::ActorSystem;
use coerce::actor::{IntoActor, LocalActorRef};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::Persistence;
use coerce::remote::actor::message::NodeTerminated;
use coerce::remote::actor::RemoteResponse;
use coerce::remote::cluster::node::RemoteNode;
use coerce::remote::net::message::SessionEvent;
use coerce::remote::stream::system::ClusterEvent;
use coerce::sharding::coordinator::allocation::{AllocateShard, AllocateShardResult};
use coerce::sharding::coordinator::balancing::Rebalance;
use coerce::sharding::coordinator::stats::GetShardingStats;
use coerce::sharding::coordinator::{ShardCoordinator, ShardHostStatus};
use coerce::sharding::proto::sharding as proto;
use coerce::sharding::{sharding, Sharding};
use protobuf::Message as _;
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use uuid::Uuid;
use vh::ents::*;
use vh::wire::*;
use vh::*;

const N: usize = 4;
const S: usize = 6;

/// One run: `choose` gives the next operation, given the shards whose host was asked to stop them.
async fn run(known: &[usize], mut choose: impl FnMut(usize, &[usize]) -> Option<Value>, flip: bool) -> Vec<Value> {
    let wire = Wire::install();
    let ids: Vec<u64> = if flip { (1..=N as u64).map(|i| (1 << 63) + 10 - i).collect() } else { (1..=N as u64).collect() };
    let shard = |x: usize| if flip { u32::MAX - x as u32 } else { x as u32 - 1 };
    let back = |id: u32| (1..=S).find(|x| shard(*x) == id).unwrap_or(99);
    let idx = |id: u64| ids.iter().position(|x| *x == id).map_or(99, |i| i + 1);
    let store = Store::new(InMemoryStorageProvider::new().journal_storage().unwrap());
    let a = ActorSystem::builder().system_name("s").build().to_persistent(Persistence::from(store.clone()));
    let mk = Make { node: 0, w: World::default() };
    let sys = node(ids[0], a.clone(), move |b| sharding(b).with_actor(mk.clone())).await;
    let reg = |n: usize| RemoteNode::new(ids[n - 1], format!("addr-{}", n), format!("tag-{}", n), None, Default::default());
    for n in known { sys.register_node(reg(*n)).await; }
    // no member-up event: the coordinator of the sharding itself does not start, only the host is used
    let sharded = Sharding::<Make>::start("Thing".into(), sys.clone(), Some(Box::new(BySuffix))).await;
    let host = sharded.shard_host().clone();
    let mut gen = 0;
    let mut coord: LocalActorRef<ShardCoordinator> = ShardCoordinator::new("Thing".into(), host.clone()).into_actor(Some("coord-0".to_string()), sys.actor_system()).await.unwrap();
    let mut stops: HashMap<usize, Uuid> = HashMap::new();
    let mut out = vec![];
    let (mut k, mut pend) = (0, false);
    loop {
        let mut open: Vec<usize> = stops.keys().copied().collect();
        open.sort();
        let mut s = if k == 0 { json!({"op": "init"}) } else { match choose(k, &open) { Some(s) => s, None => break } };
        let (prev_alloc, prev_host): (Vec<u64>, Vec<String>) = out.last().map_or((vec![0; S], vec![]), |e: &Value| (serde_json::from_value(e["alloc"].clone()).unwrap(), serde_json::from_value(e["host"].clone()).unwrap()));
        // a rejected write takes 500 ms, in which a scheduled rebalance would take place
        if op(&s) == "late" && pend { s["op"] = json!("alloc") }
        let x = s.get("x").and_then(|v| v.as_u64()).unwrap_or(1) as usize;
        let n = s.get("n").and_then(|v| v.as_u64()).unwrap_or(1) as usize;
        let mut res = json!(["none", 0]);
        match op(&s) { "add" if prev_host[n - 1] != "ready" => pend = true, "tick" | "restart" => pend = false, _ => {} }
        match op(&s) {
            "alloc" | "late" => {
                let late = op(&s) == "late";
                if late { store.faults.lock().unwrap().reject.insert("Thing-ShardCoordinator".into()); }
                let c = coord.clone();
                let y = shard(x);
                let mut call = tokio::spawn(async move { c.send(AllocateShard { shard_id: y, rebalancing: false }).await });
                let mut early = false;
                if late {
                    // nothing is allocated, nor is anyone told, while the journal does not take it
                    tokio::time::sleep(Duration::from_millis(20)).await;
                    early = prev_alloc[x - 1] == 0 && !open.contains(&x) && (call.is_finished() || !wire.is_empty());
                    store.faults.lock().unwrap().reject.clear();
                }
                res = match tokio::time::timeout(Duration::from_millis(if late { 600 } else { 1 }), &mut call).await.map(|r| r.unwrap()) {
                    _ if early => json!(["early", 0]),
                    Ok(Ok(AllocateShardResult::Allocated(y, n))) if y == shard(x) => json!(["allocated", idx(n)]),
                    Ok(Ok(AllocateShardResult::AlreadyAllocated(y, n))) if y == shard(x) => json!(["already", idx(n)]),
                    Ok(Ok(AllocateShardResult::NotAllocated)) => json!(["not", 0]),
                    Ok(Ok(r)) => json!([format!("{:?}", r), 0]),
                    Ok(Err(e)) => json!([format!("{:?}", e), 0]),
                    Err(_) => json!(["hang", 0]),
                };
            }
            "add" => { sys.register_node(reg(n)).await; event(&sys, ClusterEvent::NodeAdded(member(ids[n - 1]))).await }
            "del" => { let _ = sys.registry().send(NodeTerminated(ids[n - 1])).await; event(&sys, ClusterEvent::NodeRemoved(member(ids[n - 1]))).await }
            "tick" => tokio::time::sleep(Duration::from_millis(600)).await,
            "all" => { let _ = coord.notify(Rebalance::All); }
            "move" => { let _ = coord.notify(Rebalance::Shards(s["xs"].as_array().unwrap().iter().map(|x| shard(x.as_u64().unwrap() as usize)).collect())); }
            "stopped" => {
                let id = stops.remove(&x).unwrap();
                if let Some(tx) = sys.pop_request(id) {
                    let m = proto::ShardStopped { shard_id: shard(x), is_successful: true, ..Default::default() };
                    let _ = tx.send(RemoteResponse::Ok(m.write_to_bytes().unwrap()));
                }
            }
            "restart" => {
                let _ = coord.stop().await;
                gen += 1;
                stops.clear();
                coord = ShardCoordinator::new("Thing".into(), host.clone()).into_actor(Some(format!("coord-{}", gen)), sys.actor_system()).await.unwrap();
            }
            _ => {}
        }
        // hosts acknowledge allocations as soon as they are told
        let (mut told, mut stop, mut moved): (Vec<Value>, Vec<Value>, Vec<Value>) = Default::default();
        for _ in 0..4 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            for (_, to, e) in wire.take() {
                if let SessionEvent::NotifyActor(m) = e {
                    match m.handler_type.as_str() {
                        "ShardHost.ShardAllocated" => { let p = proto::ShardAllocated::parse_from_bytes(&m.message).unwrap().shard.unwrap(); told.push(json!([idx(to), back(p.shard_id), idx(p.node_id)])); }
                        "ShardHost.ShardReallocating" => moved.push(json!([idx(to), back(proto::ShardReallocating::parse_from_bytes(&m.message).unwrap().shard_id)])),
                        "ShardHost.StopShard" => {
                            let p = proto::StopShard::parse_from_bytes(&m.message).unwrap();
                            stops.insert(back(p.shard_id), Uuid::from_str(&p.request_id).unwrap());
                            stop.push(json!([idx(to), back(p.shard_id)]));
                        }
                        _ => {}
                    }
                    if m.requires_response { if let Some(tx) = sys.pop_request(Uuid::from_str(&m.message_id).unwrap()) { let _ = tx.send(RemoteResponse::Ok(vec![])); } }
                }
            }
        }
        if op(&s) == "del" {
            // a lost node answers no more
            let lost = n;
            let gone: Vec<usize> = stops.keys().copied().filter(|y| out.iter().rev().find_map(|e: &Value| e["stop"].as_array().unwrap().iter().find(|m| m[1] == json!(y)).map(|m| m[0] == json!(lost))).unwrap_or(false)).collect();
            for y in gone { stops.remove(&y); }
        }
        let (mut alloc, mut count, mut hosts, mut total, mut twice) = (vec![0usize; S], vec![0u64; N], vec!["none"; N], 0, false);
        if let Ok(Ok(st)) = tokio::time::timeout(Duration::from_millis(1), coord.send(GetShardingStats)).await {
            total = st.total_shards as usize;
            for r in &st.shards { let y = back(r.shard_id); if y <= S { twice |= alloc[y - 1] != 0; alloc[y - 1] = idx(r.node_id); } else { twice = true } }
            for r in &st.nodes { let i = idx(r.node_id); if i <= N { count[i - 1] = r.shard_count; hosts[i - 1] = if r.status == ShardHostStatus::Ready { "ready" } else { "gone" }; } else { twice = true } }
        } else { twice = true }
        let o = s.as_object_mut().unwrap();
        for (k, v) in [("res", res), ("alloc", json!(alloc)), ("count", json!(count)), ("host", json!(hosts)), ("total", json!(if twice { 99 } else { total })), ("told", json!(told)), ("stop", json!(stop)), ("moved", json!(moved))] { o.insert(k.into(), v); }
        out.push(s);
        k += 1;
    }
    out
}

fn pick(rng: &mut StdRng, mode: usize, n: usize, ns: usize, open: &[usize]) -> Value {
    // operations by weight: allocation, rejected write, join, loss, tick, full rebalance, move, stopped, restart
    let w: [u32; 9] = [[10, 2, 3, 3, 4, 2, 3, 8, 1], [6, 1, 5, 5, 6, 3, 1, 10, 0], [10, 4, 2, 2, 2, 1, 2, 5, 4], [8, 0, 4, 1, 6, 4, 5, 3, 1]][mode % 4];
    loop {
        let mut t = rng.gen_range(0..w.iter().sum());
        let mut i = 0;
        while t >= w[i] { t -= w[i]; i += 1; }
        let x = rng.gen_range(1..=ns);
        let m = rng.gen_range(2..=n);
        return match i {
            0 => json!({"op": "alloc", "x": x}),
            1 => json!({"op": "late", "x": x}),
            2 => json!({"op": "add", "n": m}),
            3 => json!({"op": "del", "n": m}),
            4 => json!({"op": "tick"}),
            5 => json!({"op": "all"}),
            6 => { let mut v: Vec<usize> = (1..=ns).collect(); v.shuffle(rng); v.truncate(rng.gen_range(1..=2)); json!({"op": "move", "xs": v}) }
            7 => { if open.is_empty() { continue } json!({"op": "stopped", "x": open[rng.gen_range(0..open.len())]}) }
            _ => json!({"op": "restart"}),
        };
    }
}

/// All sequences of operations of the given length on two nodes and two shards; stop requests are answered by "stopped".
fn sequences(len: u32) -> Vec<Vec<Value>> {
    let ops: Vec<Value> = vec![
        json!({"op": "alloc", "x": 1}), json!({"op": "alloc", "x": 2}), json!({"op": "late", "x": 1}), json!({"op": "add", "n": 2}), json!({"op": "del", "n": 2}),
        json!({"op": "tick"}), json!({"op": "all"}), json!({"op": "move", "xs": [1]}), json!({"op": "move", "xs": [2, 1]}), json!({"op": "stopped"}), json!({"op": "restart"}),
    ];
    (0..(ops.len() as u64).pow(len)).map(|mut c| (0..len).map(|_| { let o = ops[(c % ops.len() as u64) as usize].clone(); c /= ops.len() as u64; o }).collect()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (sub, path, seed, runs): (String, String, u64, usize) = (args[1].clone(), args[2].clone(), args[3].parse().unwrap(), args[4].parse().unwrap());
    quiet_panics();
    let all = if sub == "every" { sequences(runs as u32) } else { vec![] };
    let total = if sub == "every" { all.len() } else { runs };
    let (all, next, outs) = (Arc::new(all), Arc::new(AtomicUsize::new(0)), Arc::new(Mutex::new(vec![String::new(); total])));
    let fails: Arc<Mutex<Vec<Value>>> = Default::default();
    let hs: Vec<_> = (0..8).map(|_| {
        let (all, next, outs, fails, sub) = (all.clone(), next.clone(), outs.clone(), fails.clone(), sub.clone());
        std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= total { break }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| paused_rt().block_on(async {
                if sub == "every" {
                    let q = all[i].clone();
                    // both nodes known from the start, or the second one not yet
                    let known = if i % 2 == 0 { vec![2] } else { vec![] };
                    run(&known, move |k, open| {
                        let mut s = q.get(k - 1)?.clone();
                        if s["op"] == "stopped" { s = match open.first() { Some(x) => json!({"op": "stopped", "x": x}), None => json!({"op": "tick"}) } }
                        Some(s)
                    }, i % 3 == 0).await
                } else {
                    let mut rng = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
                    let balance = sub == "balance";
                    let (n, ns, len) = (rng.gen_range(2..=N), rng.gen_range(1..=S), rng.gen_range(8..=36));
                    let known: Vec<usize> = (2..=n).filter(|_| rng.gen_bool(0.5)).collect();
                    run(&known, move |k, open| if k > len { None } else { Some(pick(&mut rng, if balance { 1 + 2 * (i % 2) } else { i }, n, ns, open)) }, i % 2 == 0).await
                }
            })));
            match r {
                Ok(es) => outs.lock().unwrap()[i] = es.iter().map(|e| e.to_string() + "\n").collect(),
                Err(_) => fails.lock().unwrap().push(json!({"step": 0, "expected": "no panic", "got": take_panics().join(" | "), "note": format!("run {}", i)})),
            }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    std::fs::write(&path, outs.lock().unwrap().concat()).unwrap();
    println!("REPORT {}", json!({"fails": *fails.lock().unwrap(), "runs": total}));
    std::process::exit(0);
}
