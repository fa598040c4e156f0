//! Shard.tla replay (C05): the entities of one shard, requests from its node and from another one, moves and restarts of the node.
use coerce::actor::system::ActorSystem;
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::Persistence;
use coerce::remote::actor::RemoteResponse;
use coerce::remote::cluster::node::RemoteNode;
use coerce::remote::net::message::SessionEvent;
use coerce::remote::stream::system::{ClusterEvent, ClusterMemberUp};
use coerce::remote::system::RemoteActorSystem;
use coerce::sharding::coordinator::balancing::Rebalance;
use coerce::sharding::host::GetCoordinator;
use coerce::sharding::{sharding, Sharding};
use serde_json::{json, Value};
use std::str::FromStr;
use std::time::Duration;
use uuid::Uuid;
use vh::ents::*;
use vh::wire::*;
use vh::*;

struct Cluster { sys: Vec<RemoteActorSystem>, sh: Vec<Sharding<Make>> }

/// Node 1 holds every shard (node 2 is not in its registry, so it is no host to the coordinator); node 2 only sends.
async fn cluster(base: &Store, w: &World, gen: usize, ids: &[u64]) -> Cluster {
    let (mut sys, mut sh) = (vec![], vec![]);
    for i in 0..2 {
        let mk = Make { node: gen, w: w.clone() };
        let a = ActorSystem::builder().system_name("s").build().to_persistent(Persistence::from(base.clone()));
        let r = node(ids[i], a, move |b| {
            let b = sharding(b).with_actor(mk.clone()).with_handler::<Ent, Ask>("Ent.Ask").with_handler::<Ent, Quit>("Ent.Quit");
            // known to the sender only
            if i == 1 { b.with_handler::<Ent, Odd>("Ent.Odd") } else { b }
        }).await;
        if i == 1 { r.register_node(RemoteNode::new(ids[0], "addr-1".into(), "tag-1".into(), None, Default::default())).await; }
        sh.push(Sharding::<Make>::start("Thing".into(), r.clone(), Some(Box::new(BySuffix))).await);
        sys.push(r);
    }
    for i in 0..2 {
        event(&sys[i], ClusterEvent::MemberUp(ClusterMemberUp { leader_id: ids[0], nodes: ids.iter().map(|x| member(*x)).collect() })).await;
    }
    Cluster { sys, sh }
}

async fn settle(c: &Cluster, wire: &Wire, ids: &[u64]) {
    for _ in 0..12 {
        tokio::time::sleep(Duration::from_millis(30)).await;
        for (from, to, e) in wire.take() {
            if std::env::var("VH_WIRE").is_ok() { eprintln!("{} -> {} {:?}", from, to, match &e { SessionEvent::NotifyActor(m) => m.handler_type.clone(), SessionEvent::Result(_) => "result".into(), SessionEvent::Err(r) => format!("{:?}", r), _ => "?".into() }) }
            let at = |id: u64| ids.iter().position(|x| *x == id);
            let (a, b) = match (at(from), at(to)) { (Some(a), Some(b)) => (a, b), _ => continue };
            match e {
                SessionEvent::NotifyActor(m) => deliver(c.sys[b].clone(), c.sys[a].clone(), m),
                SessionEvent::Result(r) => { if let Some(tx) = c.sys[b].pop_request(Uuid::from_str(&r.message_id).unwrap()) { let _ = tx.send(RemoteResponse::Ok(r.result)); } }
                SessionEvent::Err(r) => { if let Some(tx) = c.sys[b].pop_request(Uuid::from_str(&r.message_id).unwrap()) { let _ = tx.send(RemoteResponse::Err(r.error.unwrap().into())); } }
                _ => {}
            }
        }
    }
}

async fn run(steps: &[Value]) -> ReplayResult {
    let n = getu(&steps[0], "k");
    let wire = Wire::install();
    let w = World::default();
    *w.gated.lock().unwrap() = (true, false);
    let base = Store::new(InMemoryStorageProvider::new().journal_storage().unwrap());
    let mut gen = 0;
    let ids_of = |g: usize| vec![10 * g as u64 + 1, 10 * g as u64 + 2];
    let mut ids = ids_of(gen);
    let mut c = cluster(&base, &w, gen, &ids).await;
    settle(&c, &wire, &ids).await;
    let ent = |k: usize| format!("e-1-{}", k);
    let mut calls: Vec<Call> = vec![];
    let mut bad: Vec<bool> = vec![false; n];
    for (i, s) in steps.iter().enumerate() {
        let k = s.get("k").and_then(|v| v.as_u64()).unwrap_or(1) as usize;
        match op(s) {
            "send" => {
                let from = if s["from"] == "far" { 1 } else { 0 };
                let r = s["r"].as_u64().unwrap();
                let h = c.sh[from].get(ent(k), if r == 99 { None } else { Some(Rec(r)) });
                let (m, id) = (calls.len() as u64 + 1, ent(k));
                let odd = s["odd"] == true;
                calls.push(Call::spawn(async move {
                    let r = if odd { h.send(Odd).await } else { h.send(Ask(m)).await };
                    outcome_of(m, &id, &[41, 42], r)
                }));
            }
            "up" => {
                // the specification knows whether an instance or a recipe of nothing waits
                let waiting = w.inst.lock().unwrap().iter().any(|x| x.node == gen && x.id == ent(k) && x.state == "starting");
                let g = if waiting { ent(k) } else { bad[k - 1] = true; format!("bad-{}", k) };
                w.gate(true, gen, &g).open();
            }
            "move" => {
                let coord = c.sh[0].shard_host().send(GetCoordinator).await.unwrap();
                tokio::spawn(async move { let _ = coord.send(Rebalance::Shards(vec![1])).await; });
            }
            "quit" => { let h = c.sh[0].get(ent(k), None); tokio::spawn(async move { let _ = h.send(Quit).await; }); }
            "crash" => {
                w.inst.lock().unwrap().iter_mut().for_each(|e| e.state = "none");
                gen += 1;
                ids = ids_of(gen);
                c = cluster(&base, &w, gen, &ids).await;
            }
            _ => {}
        }
        settle(&c, &wire, &ids).await;
        let live = |k: usize| w.inst.lock().unwrap().iter().filter(|x| x.id == ent(k) && x.state != "none").map(|x| x.recipe).collect::<Vec<_>>();
        let handled = w.handled.lock().unwrap().clone();
        let got = json!({
            "est": (1..=n).map(|k| w.state(gen, &ent(k))).collect::<Vec<_>>(),
            "rec": (1..=n).map(|k| match live(k).as_slice() { [] => json!(99), [r] => json!(r), x => json!(x) }).collect::<Vec<_>>(),
            "cnt": (1..=n).map(|k| w.inst.lock().unwrap().iter().filter(|x| x.id == ent(k)).count()).collect::<Vec<_>>(),
            "msg": calls.iter().enumerate().map(|(c, r)| json!({"res": r.get(), "h": handled.iter().filter(|x| x.0 == c as u64 + 1).count()})).collect::<Vec<_>>(),
        });
        check(i, &s["obs"], got, &{ let mut x = s.clone(); x.as_object_mut().unwrap().remove("obs"); x }.to_string())?;
    }
    Ok(())
}

fn main() {
    main_replay(|_, steps| paused_rt().block_on(run(steps)));
}
