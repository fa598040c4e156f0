//! Auth.tla replay (E04): raw connections to a real listening node, one node per behaviour.
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::system::ActorSystem;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, ActorRef, CoreActorRef, IntoActor, IntoActorId};
use coerce::remote::net::message::{ClientEvent, SessionEvent};
use coerce::remote::net::proto::network::{CreateActorEvent, FindActorEvent, IdentifyEvent, MessageRequest, PingEvent, RemoteNode as NodeProto, SessionHandshake};
use coerce::remote::net::security::jwt::Jwt;
use coerce::remote::net::security::ClientAuth;
use coerce::remote::net::StreamData;
use coerce::remote::system::RemoteActorSystem;
use coerce::remote::RemoteActorRef;
use futures::StreamExt;
use serde_json::{json, Value};
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;
use tokio_util::codec::{FramedRead, LengthDelimitedCodec};
use vh::net::*;
use vh::*;

const SECRET: &[u8] = b"the secret of this cluster";
const TTL: Duration = Duration::from_secs(5);

struct A(Log);
impl Actor for A {}
struct Note(u64);
impl Message for Note {
    type Result = u64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> { Ok(self.0.to_be_bytes().to_vec()) }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> { b.try_into().map(|x| Note(u64::from_be_bytes(x))).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn read_remote_result(b: Vec<u8>) -> Result<u64, MessageUnwrapErr> { b.try_into().map(u64::from_be_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr) }
    fn write_remote_result(r: u64) -> Result<Vec<u8>, MessageWrapErr> { Ok(r.to_be_bytes().to_vec()) }
}
#[async_trait]
impl Handler<Note> for A {
    async fn handle(&mut self, m: Note, _: &mut ActorContext) -> u64 { self.0.push(json!(m.0)); m.0 }
}

struct M;
impl Actor for M {}
struct Recipe;
impl ActorRecipe for Recipe {
    fn read_from_bytes(_: &Vec<u8>) -> Option<Self> { Some(Recipe) }
    fn write_to_bytes(&self) -> Option<Vec<u8>> { Some(vec![1]) }
}
#[derive(Clone)]
struct F(Log);
#[async_trait]
impl ActorFactory for F {
    type Actor = M;
    type Recipe = Recipe;
    async fn create(&self, _: Recipe) -> Result<M, ActorCreationErr> { self.0.push(json!(1)); Ok(M) }
}

async fn system(mode: &str, made: Log, id: u64) -> RemoteActorSystem {
    let b = RemoteActorSystem::builder().with_tag("auth").with_id(id).with_actor_system(ActorSystem::builder().system_name("auth").build());
    let b = match mode {
        "none" => b,
        "forever" => b.client_auth_jwt(SECRET, None),
        _ => b.client_auth_jwt(SECRET, Some(TTL)),
    };
    b.configure(move |b| b.with_handler::<A, Note>("A.Note").with_actor(F(made)).heartbeat(quiet_heartbeat())).build().await
}

/// an address of this machine that nothing else uses: every node has one of the loopback network to itself
fn address() -> String {
    let (p, n) = (std::process::id(), uniq());
    format!("127.{}.{}.{}:{}", 1 + p % 250, 1 + n / 250 % 250, 1 + n % 250, 7100 + p / 250 % 20000)
}

fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() { o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char); }
    }
    o
}

/// flips a character in the middle of one part of a token
fn flip(t: &str, part: usize) -> String {
    let mut ps: Vec<String> = t.split('.').map(|x| x.to_string()).collect();
    let i = ps[part].len() / 2;
    let c = if ps[part].as_bytes()[i] == b'A' { "B" } else { "A" };
    ps[part].replace_range(i..i + 1, c);
    ps.join(".")
}

fn token(f: &str, old: &str) -> Option<String> {
    let fresh = || ClientAuth::Jwt(Jwt::from_secret(SECRET, Some(TTL))).generate_token();
    Some(match f {
        "good" => fresh(),
        "badsig" => flip(&fresh(), 2),
        "altered" => flip(&fresh(), 1),
        "other" => ClientAuth::Jwt(Jwt::from_secret(b"another secret".to_vec(), Some(TTL))).generate_token(),
        "expired" => old.to_string(),
        "notoken" => String::new(),
        "unsigned" => {
            let t = fresh();
            format!("{}.{}.", b64(b"{\"alg\":\"none\"}"), t.split('.').nth(1).unwrap())
        }
        _ => return None,
    })
}

struct Ctx<'a> { target: String, old: &'a str, n: u64 }

fn frame(k: &str, cx: &mut Ctx) -> Vec<u8> {
    cx.n += 1;
    let id = uuid::Uuid::new_v4().to_string();
    let ev = match k {
        "empty" => return vec![],
        "unknown" => return vec![250, 1, 2, 3],
        "badbody" => { let mut b = SessionEvent::Identify(IdentifyEvent::default()).write_to_bytes().unwrap(); b.truncate(1); b.extend([0xff; 9]); return b; }
        "badmsg" => { let mut b = SessionEvent::NotifyActor(MessageRequest::default()).write_to_bytes().unwrap(); b.truncate(1); b.extend([0xff; 9]); return b; }
        "ping" => SessionEvent::Ping(PingEvent { message_id: id, node_id: 77, ..Default::default() }),
        "msg" | "note" => SessionEvent::NotifyActor(MessageRequest {
            message_id: id, handler_type: "A.Note".into(), actor_id: cx.target.clone(), message: cx.n.to_be_bytes().to_vec(), requires_response: k == "msg", origin_node_id: 77, ..Default::default()
        }),
        "create" => SessionEvent::CreateActor(CreateActorEvent { message_id: id, actor_id: format!("m-{}", uniq()), actor_type: std::any::type_name::<M>().into(), recipe: vec![1], ..Default::default() }),
        "find" => SessionEvent::FindActor(FindActorEvent { message_id: id, actor_id: format!("nobody-{}", uniq()), ..Default::default() }),
        "hello" => SessionEvent::Handshake(SessionHandshake { node_id: 77, trace_id: id, ..Default::default() }),
        "intruder" => {
            let n = NodeProto { node_id: 78, addr: "127.0.0.1:9".into(), tag: "x".into(), ..Default::default() };
            SessionEvent::Handshake(SessionHandshake { node_id: 78, trace_id: id, nodes: vec![n], ..Default::default() })
        }
        f => SessionEvent::Identify(IdentifyEvent { source_node_id: 77, source_node_tag: "raw".into(), token: token(f, cx.old).unwrap_or_else(|| panic!("harness: frame {}", f)), ..Default::default() }),
    };
    ev.write_to_bytes().unwrap()
}

fn framed(b: &[u8]) -> Vec<u8> {
    let mut o = (b.len() as u32).to_be_bytes().to_vec();
    o.extend(b);
    o
}

struct Raw { w: Option<tokio::io::WriteHalf<TcpStream>>, got: Log, eof: Log, task: tokio::task::JoinHandle<()> }

async fn dial(addr: &str) -> Option<Raw> {
    let s = tokio::time::timeout(Duration::from_secs(5), TcpStream::connect(addr)).await.ok()?.ok()?;
    let _ = s.set_nodelay(true);
    let (r, w) = tokio::io::split(s);
    let (got, eof) = (Log::new(), Log::new());
    let (g, e) = (got.clone(), eof.clone());
    let task = tokio::spawn(async move {
        let mut fr = FramedRead::new(r, LengthDelimitedCodec::new());
        while let Some(Ok(b)) = fr.next().await {
            g.push(json!(match ClientEvent::read_from_bytes(b.to_vec()) {
                Some(ClientEvent::Identity(_)) => "identity",
                Some(ClientEvent::Handshake(_)) => "handshake",
                Some(ClientEvent::Result(_)) => "result",
                Some(ClientEvent::Err(_)) => "err",
                Some(ClientEvent::Ping(_)) => continue,
                Some(ClientEvent::Pong(_)) => "pong",
                None => "unreadable",
            }));
        }
        e.push(json!(1));
    });
    Some(Raw { w: Some(w), got, eof, task })
}

async fn run(old: &str, steps: &[Value]) -> ReplayResult {
    let mode = gets(&steps[0], "mode");
    let (log, made) = (Log::new(), Log::new());
    let sys = system(&mode, made.clone(), uniq()).await;
    let target = A(log.clone()).into_actor(Some(format!("a-{}", uniq())), sys.actor_system()).await.unwrap();
    let (mut server, mut addr) = (None, String::new());
    for _ in 0..20 {
        addr = address();
        // the port may have been taken meanwhile
        let (sys, a) = (sys.clone(), addr.clone());
        if let Ok(s) = tokio::spawn(async move { sys.cluster_worker().listen_addr(a).start().await }).await { server = Some(s); break; }
    }
    let server = server.expect("harness: no port");
    let mut cx = Ctx { target: target.actor_id().to_string(), old, n: 0 };
    let mut raws: Vec<Raw> = vec![];
    let mut peers: Vec<(RemoteActorSystem, coerce::remote::net::server::RemoteServer)> = vec![];
    let k = steps[0]["obs"]["got"].as_array().unwrap().len();
    let mut down = false;
    let res = async {
        for (i, s) in steps.iter().enumerate() {
            match op(s) {
                "init" => {}
                "open" => raws.push(dial(&addr).await.ok_or_else(|| Mismatch::new(i, json!("connected"), json!("refused"), "connect"))?),
                "first" => {
                    let (f, t) = (gets(s, "f"), gets(s, "t"));
                    let mut b = if f == "huge" { vec![0xff; 64] } else { framed(&frame(&f, &mut cx)) };
                    if !t.is_empty() { b.extend(framed(&frame(&t, &mut cx))); }
                    let r = &mut raws[getu(s, "c") - 1];
                    let _ = r.w.as_mut().unwrap().write_all(&b).await;
                    if s["obs"]["got"][getu(s, "c") - 1] == json!([]) {
                        // it is up to the node whether it closes the connection
                        for _ in 0..15 { if r.eof.get() != json!([]) { break; } tokio::time::sleep(Duration::from_millis(2)).await; }
                    }
                }
                "half" => {
                    let b = framed(&frame("good", &mut cx));
                    let _ = raws[getu(s, "c") - 1].w.as_mut().unwrap().write_all(&b[..b.len() / 2]).await;
                }
                "use" => {
                    let u = gets(s, "u");
                    let b = if u == "huge" { vec![0xff; 64] } else { framed(&frame(&u, &mut cx)) };
                    let _ = raws[getu(s, "c") - 1].w.as_mut().unwrap().write_all(&b).await;
                }
                "close" => { let r = &mut raws[getu(s, "c") - 1]; r.w = None; r.task.abort(); }
                "peer" => {
                    let p = system(&mode, Log::new(), uniq()).await;
                    let mut w = None;
                    for _ in 0..20 {
                        let (q, a, b) = (p.clone(), addr.clone(), address());
                        match tokio::time::timeout(Duration::from_secs(10), tokio::spawn(async move { q.cluster_worker().listen_addr(b).with_seed_addr(a).start().await })).await {
                            Ok(Ok(s)) => { w = Some(s); break; }
                            Ok(Err(_)) => {}
                            Err(_) => break,
                        }
                    }
                    let w = w.ok_or_else(|| Mismatch::new(i, json!("joined"), json!("not joined after 10 s"), "op peer"))?;
                    let r: ActorRef<A> = RemoteActorRef::<A>::new(cx.target.clone().into_actor_id(), sys.node_id(), p.clone()).into();
                    let ans = tokio::time::timeout(Duration::from_secs(10), r.send(Note(5))).await;
                    if !matches!(ans, Ok(Ok(5))) { return Err(Mismatch::new(i, json!("answered"), json!(format!("{:?}", ans)), "request of the peer")); }
                    peers.push((p, w));
                }
                "shutdown" => {
                    let (sys, t) = (sys.actor_system().clone(), tokio::time::Duration::from_secs(8));
                    down = tokio::time::timeout(t, tokio::spawn(async move { sys.shutdown().await })).await.is_ok();
                    if !down { return Err(Mismatch::new(i, json!("shut down"), json!("not shut down after 8 s"), "op shutdown")); }
                }
                o => panic!("harness: op {}", o),
            }
            let last = i + 1 == steps.len();
            for round in 0..2 {
                let (raws, log, made, sys) = (&raws, &log, &made, &sys);
                let obs = || async move {
                    json!({
                        "got": (0..k).map(|c| raws.get(c).map(|r| r.got.get()).unwrap_or(json!([]))).collect::<Vec<_>>(),
                        "done": log.get().as_array().unwrap().len(), "made": made.get().as_array().unwrap().len(), "members": if down { 0 } else { sys.get_nodes().await.len() }, "down": down,
                    })
                };
                let got = eventually(&s["obs"], 4.0, obs).await;
                check(i, &s["obs"], got, &format!("op {}", s))?;
                if !last || round == 1 { break; }
                // nothing may follow later either
                tokio::time::sleep(Duration::from_millis(25)).await;
            }
        }
        Ok(())
    }
    .await;
    for r in &raws { r.task.abort(); }
    server.stop();
    for (_, w) in &peers { w.stop(); }
    res
}

fn main() {
    // a token that has expired by the time it is used
    let old = ClientAuth::Jwt(Jwt::from_secret(SECRET, Some(TTL))).generate_token();
    std::thread::sleep(TTL + Duration::from_millis(300));
    main_replay(move |_, steps| {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let r = rt.block_on(run(&old, steps));
        rt.shutdown_background();
        r
    });
}
