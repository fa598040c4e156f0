//! Journal.tla replay (B05): in-memory storage, and Redis when a URL is given (sub "redis").
use coerce::actor::system::ActorSystem;
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::storage::{JournalEntry, JournalStorageRef};
use coerce_redis::journal::{RedisStorageConfig, RedisStorageProvider};
use serde_json::{json, Value};
use std::sync::Arc;
use vh::*;

fn bytes(key: &str, seq: i64, kind: &str) -> Vec<u8> {
    match seq % 4 {
        0 => vec![],
        1 => format!("{}/{}/{}", key, seq, kind).into_bytes(),
        2 => vec![0, 255, 1, 254, seq as u8, kind.len() as u8, key.len() as u8],
        _ => vec![seq as u8; 3000],
    }
}
fn ptype(key: &str, seq: i64, kind: &str) -> String {
    format!("{}:{}:{}", kind, key, seq % 3)
}
fn entry(key: &str, seq: i64, kind: &str) -> JournalEntry {
    JournalEntry { sequence: seq, payload_type: ptype(key, seq, kind).as_str().into(), bytes: Arc::new(bytes(key, seq, kind)) }
}
fn view(key: &str, kind: &str, e: &JournalEntry) -> i64 {
    if e.payload_type.as_ref() == ptype(key, e.sequence, kind) && *e.bytes == bytes(key, e.sequence, kind) { e.sequence } else { -e.sequence - 1000 }
}
fn many(key: &str, r: anyhow::Result<Option<Vec<JournalEntry>>>) -> Value {
    match r {
        Ok(o) => json!(o.unwrap_or_default().iter().map(|e| view(key, "event", e)).collect::<Vec<_>>()),
        Err(e) => json!(format!("error {}", e)),
    }
}
fn one(key: &str, kind: &str, r: anyhow::Result<Option<JournalEntry>>) -> Value {
    match r {
        Ok(o) => json!(o.map_or(0, |e| view(key, kind, &e))),
        Err(e) => json!(format!("error {}", e)),
    }
}

async fn run(st: JournalStorageRef, steps: &[Value]) -> ReplayResult {
    let tag = uniq();
    let real = |k: &str| format!("{}{}", tag, k);
    let mut last: std::collections::HashMap<String, i64> = Default::default();
    for (i, s) in steps.iter().enumerate() {
        let k = gets(s, "key");
        let rk = real(&k);
        let l = last.entry(k.clone()).or_insert(0);
        let r = match op(s) {
            "msg" => { let q = *l + geti(s, "gap") + 1; *l = q; st.write_message(&rk, entry(&k, q, "event")).await }
            "batch" => {
                let c = geti(s, "c");
                let b = *l + geti(s, "gap");
                *l = b + c;
                st.write_message_batch(&rk, (1..=c).map(|n| entry(&k, b + n, "event")).collect()).await
            }
            "snap" => { let q = *l + geti(s, "gap") + 1; *l = q; st.write_snapshot(&rk, entry(&k, q, "snap")).await }
            "delto" => st.delete_messages_to(&rk, geti(s, "to")).await,
            "delall" => { *l = 0; st.delete_all(&rk).await }
            o => panic!("harness: op {}", o),
        };
        if let Err(e) = r {
            return Err(Mismatch::new(i, json!("ok"), json!(format!("{}", e)), "storage operation failed"));
        }
        for (k, o) in s["obs"].as_object().unwrap() {
            let rk = real(k);
            let mut latest = vec![];
            for p in o["points"].as_array().unwrap() {
                latest.push(many(k, st.read_latest_messages(&rk, p.as_i64().unwrap()).await));
            }
            let hi = o["one"].as_array().unwrap().len() as i64;
            let mut ones = vec![];
            let mut ranges = vec![];
            for a in 1..=hi {
                ones.push(one(k, "event", st.read_message(&rk, a).await));
                let mut row = vec![];
                for b in a..=hi {
                    row.push(many(k, st.read_messages(&rk, a, b).await));
                }
                ranges.push(json!(row));
            }
            let got = json!({"snap": one(k, "snap", st.read_latest_snapshot(&rk).await), "latest": latest, "points": o["points"], "one": ones, "range": ranges});
            check(i, o, got, &format!("reads of {}", k))?;
        }
    }
    Ok(())
}

fn main() {
    main_replay(|sub, steps| {
        if sub == "redis" {
            let url = std::env::var("VH_REDIS").expect("VH_REDIS");
            thread_local! {
                static CTX: std::cell::RefCell<Option<(tokio::runtime::Runtime, JournalStorageRef)>> = std::cell::RefCell::new(None);
            }
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                if c.is_none() {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    let st = rt.block_on(async {
                        let sys = ActorSystem::new();
                        let p = RedisStorageProvider::connect(
                            RedisStorageConfig { nodes: vec![url.clone()], key_prefix: format!("vh{}-", uniq()), cluster: false, use_key_hashtags: uniq() % 2 == 0 },
                            &sys,
                        ).await;
                        p.journal_storage().unwrap()
                    });
                    *c = Some((rt, st));
                }
                let (rt, st) = c.as_ref().unwrap();
                rt.block_on(run(st.clone(), steps))
            })
        } else {
            let rt = paused_rt();
            let st = InMemoryStorageProvider::new().journal_storage().unwrap();
            rt.block_on(run(st, steps))
        }
    });
}
