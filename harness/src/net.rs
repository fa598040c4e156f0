//! Real clusters on the loopback network, one per harness thread, reused by all behaviours of that thread.
use coerce::actor::system::ActorSystem;
use coerce::remote::cluster::node::NodeStatus;
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::system::builder::RemoteSystemConfigBuilder;
use coerce::remote::system::RemoteActorSystem;
use serde_json::Value;
use std::future::Future;
use std::time::{Duration, Instant};

pub fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

pub struct Cluster {
    pub nodes: Vec<RemoteActorSystem>,
    pub servers: Vec<coerce::remote::net::server::RemoteServer>,
    pub ids: Vec<u64>,
    pub addrs: Vec<String>,
}

pub fn quiet_heartbeat() -> HeartbeatConfig {
    HeartbeatConfig {
        interval: Duration::from_millis(100),
        ping_timeout: Duration::from_secs(30),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(60),
        terminated_node_heartbeat_timeout: Duration::from_secs(120),
        minimum_cluster_size: None,
    }
}

pub async fn node<F>(id: u64, tag: &str, cfg: F) -> RemoteActorSystem
where
    F: 'static + Fn(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder,
{
    RemoteActorSystem::builder().with_tag(tag).with_id(id).with_actor_system(ActorSystem::builder().system_name(tag).build()).configure(cfg).build().await
}

impl Cluster {
    /// n nodes; every node but the first joins through the first
    pub async fn start<F>(n: usize, cfg: F) -> Option<Cluster>
    where
        F: 'static + Clone + Fn(usize, &mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder,
    {
        let mut c = Cluster { nodes: vec![], servers: vec![], ids: vec![], addrs: vec![] };
        for i in 0..n {
            let id = crate::uniq();
            let f = cfg.clone();
            let r = node(id, &format!("n{}", i), move |b| f(i, b).heartbeat(quiet_heartbeat())).await;
            let addr = format!("127.0.0.1:{}", free_port());
            let mut w = r.clone().cluster_worker().listen_addr(addr.clone());
            if i > 0 {
                w = w.with_seed_addr(c.addrs[0].clone());
            }
            let s = tokio::time::timeout(Duration::from_secs(20), w.start()).await.ok()?;
            c.nodes.push(r);
            c.servers.push(s);
            c.ids.push(id);
            c.addrs.push(addr);
        }
        let t = Instant::now();
        loop {
            let mut ok = true;
            for r in &c.nodes {
                let ns = r.get_nodes().await;
                ok &= ns.len() == n && ns.iter().all(|x| x.status == NodeStatus::Healthy) && r.current_leader().is_some();
            }
            if ok {
                return Some(c);
            }
            if t.elapsed() > Duration::from_secs(30) {
                return None;
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }
}

/// Polls until the observation matches or the time is up; returns the last one.
pub async fn eventually<F, Fut>(exp: &Value, secs: f64, mut f: F) -> Value
where
    F: FnMut() -> Fut,
    Fut: Future<Output = Value>,
{
    let t = Instant::now();
    let mut wait = 1;
    loop {
        let got = f().await;
        if crate::matches(exp, &got) || t.elapsed().as_secs_f64() > secs {
            return got;
        }
        tokio::time::sleep(Duration::from_millis(wait)).await;
        wait = (wait * 2).min(20);
    }
}
