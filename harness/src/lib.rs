//! Shared replay driver: reads behaviours exported by TLC (one JSON array per line), steps the real
//! code through each of them and compares the projected observation after every step.
use serde_json::{json, Value};
use std::future::Future;
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod net;
pub mod wire;
pub mod ents;

#[derive(Debug, Clone)]
pub struct Mismatch {
    pub step: usize,
    pub expected: Value,
    pub got: Value,
    pub note: String,
}

impl Mismatch {
    pub fn new(step: usize, expected: Value, got: Value, note: &str) -> Self {
        Mismatch { step, expected, got, note: note.to_string() }
    }
}

pub type ReplayResult = Result<(), Mismatch>;

static UNIQ: AtomicU64 = AtomicU64::new(1);
pub fn uniq() -> u64 {
    UNIQ.fetch_add(1, Ordering::SeqCst)
}

/// Let every runnable task run until nothing can happen without time passing (paused clock).
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

pub fn op(step: &Value) -> &str {
    step["op"].as_str().unwrap_or("")
}
pub fn geti(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: no int field {} in {}", k, v))
}
pub fn getu(v: &Value, k: &str) -> usize {
    geti(v, k) as usize
}
pub fn gets(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or_else(|| panic!("harness: no str field {} in {}", k, v)).to_string()
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<Value>>>);
impl Log {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn push(&self, v: Value) {
        self.0.lock().unwrap().push(v)
    }
    pub fn get(&self) -> Value {
        Value::Array(self.0.lock().unwrap().clone())
    }
    pub fn take(&self) -> Value {
        Value::Array(std::mem::take(&mut *self.0.lock().unwrap()))
    }
}

/// An outstanding call: "pending" until the spawned task stored its outcome.
#[derive(Clone)]
pub struct Call(pub Arc<Mutex<Value>>);
impl Call {
    pub fn spawn<F>(f: F) -> Call
    where
        F: Future<Output = Value> + Send + 'static,
    {
        let c = Call(Arc::new(Mutex::new(json!("pending"))));
        let c2 = c.clone();
        let h = tokio::spawn(f);
        tokio::spawn(async move {
            let v = match h.await {
                Ok(v) => v,
                Err(_) => json!("panic"),
            };
            *c2.0.lock().unwrap() = v;
        });
        c
    }
    pub fn get(&self) -> Value {
        self.0.lock().unwrap().clone()
    }
}

/// Gate: handlers block on it until the driver opens it once per passage.
#[derive(Clone)]
pub struct Gate(pub Arc<tokio::sync::Semaphore>);
impl Gate {
    pub fn new() -> Self {
        Gate(Arc::new(tokio::sync::Semaphore::new(0)))
    }
    pub async fn pass(&self) {
        self.0.acquire().await.unwrap().forget();
    }
    pub fn open(&self) {
        self.0.add_permits(1)
    }
    pub fn open_forever(&self) {
        self.0.add_permits(1_000_000)
    }
}
impl Default for Gate {
    fn default() -> Self {
        Self::new()
    }
}

pub fn paused_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

thread_local! {
    pub static PANICS: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
}
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
pub fn panic_count() -> usize {
    PANICS.with(|p| p.borrow().len())
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if std::env::var("VH_PANICS").is_ok() {
            eprintln!("PANIC {}", s);
        }
        PANICS.with(|p| p.borrow_mut().push(s));
    }));
}

/// Runs `f` on every behaviour in the file given as argv[2], in parallel, and prints a JSON report.
/// Exit status 0 whatever the outcome: the report carries the verdict.
pub fn main_replay<F>(f: F)
where
    F: Fn(&str, &[Value]) -> ReplayResult + Send + Sync + 'static,
{
    let args: Vec<String> = std::env::args().collect();
    let sub = args[1].clone();
    let path = &args[2];
    let threads: usize = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let hang: u64 = std::env::var("VH_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    quiet_panics();
    let text = std::fs::read_to_string(path).expect("read behaviours");
    let behs: Arc<Vec<Vec<Value>>> = Arc::new(
        text.lines()
            .filter(|l| !l.is_empty())
            .map(|l| serde_json::from_str::<Vec<Value>>(l).expect("parse behaviour"))
            .collect(),
    );
    let next = Arc::new(AtomicUsize::new(0));
    let f = Arc::new(f);
    let fails: Arc<Mutex<Vec<(usize, Mismatch)>>> = Arc::new(Mutex::new(vec![]));
    let steps = Arc::new(AtomicUsize::new(0));
    let running: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![None; threads]));
    let done = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for t in 0..threads {
        let (behs, next, f, fails, steps, running, done, sub) = (
            behs.clone(), next.clone(), f.clone(), fails.clone(), steps.clone(), running.clone(), done.clone(), sub.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= behs.len() || fails.lock().unwrap().len() > 60 {
                            break;
                        }
                        running.lock().unwrap()[t] = Some((i, Instant::now()));
                        let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&sub, &behs[i])));
                        running.lock().unwrap()[t] = None;
                        let panics = take_panics();
                        steps.fetch_add(behs[i].len(), Ordering::SeqCst);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(mut m)) => {
                                if !panics.is_empty() {
                                    m.note = format!("{} [panics: {}]", m.note, panics.join(" | "));
                                }
                                fails.lock().unwrap().push((i, m))
                            }
                            Err(_) => {
                                fails.lock().unwrap().push((i, Mismatch::new(0, json!(null), json!("panic"), &format!("driver panicked: {}", panics.join(" | ")))));
                            }
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap(),
        );
    }
    while done.load(Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(20));
        let r = running.lock().unwrap();
        if let Some((i, t)) = r.iter().flatten().max_by_key(|(_, t)| t.elapsed()) {
            if t.elapsed() > Duration::from_secs(hang) {
                fails.lock().unwrap().push((*i, Mismatch::new(0, json!("finishes"), json!("hang"), "behaviour did not finish (code under test spins or blocks the thread)")));
                break;
            }
        }
    }
    let fails = fails.lock().unwrap();
    let rep = json!({
        "behaviours": behs.len(),
        "steps": steps.load(Ordering::SeqCst),
        "ran": next.load(Ordering::SeqCst).min(behs.len()),
        "fails": fails.iter().map(|(i, m)| json!({"index": i, "step": m.step, "expected": m.expected, "got": m.got, "note": m.note, "behaviour": behs[*i]})).collect::<Vec<_>>(),
    });
    let mut o = std::io::stdout().lock();
    writeln!(o, "REPORT {}", rep).unwrap();
    o.flush().unwrap();
    std::process::exit(0);
}

/// Expected values may contain alternatives ("a|b") and the wildcard "any".
pub fn matches(exp: &Value, got: &Value) -> bool {
    match (exp, got) {
        (Value::String(e), _) if e == "any" => true,
        (Value::String(e), Value::String(g)) if e.contains('|') => e.split('|').any(|x| x == g || x == "any"),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| matches(x, y)),
        // TLC serialises the empty function/sequence/record alike
        (Value::Array(a), Value::Object(b)) => a.is_empty() && b.is_empty(),
        (Value::Object(a), Value::Array(b)) => a.is_empty() && b.is_empty(),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| matches(v, w))),
        _ => exp == got,
    }
}

pub fn check(step: usize, exp: &Value, got: Value, note: &str) -> ReplayResult {
    if matches(exp, &got) {
        Ok(())
    } else {
        Err(Mismatch::new(step, exp.clone(), got, note))
    }
}

/// Runs `f` on a multi-threaded runtime, writes the recorded events to `path` and prints the report.
pub fn record<F>(path: &str, workers: usize, f: F)
where
    F: FnOnce(Log) -> std::pin::Pin<Box<dyn Future<Output = ()>>>,
{
    quiet_panics();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap();
    let log = Log::new();
    let l2 = log.clone();
    let fut = f(l2);
    let finished = rt.block_on(async move { tokio::time::timeout(Duration::from_secs(120), fut).await.is_ok() });
    let mut out = String::new();
    if let Value::Array(a) = log.get() {
        for v in a {
            out.push_str(&v.to_string());
            out.push('\n');
        }
    }
    std::fs::write(path, out).unwrap();
    let fails = if finished { vec![] } else { vec![json!({"step": 0, "expected": "the run finishes", "got": "no progress for 120 s", "note": "recording did not finish"})] };
    println!("REPORT {}", json!({"fails": fails}));
    std::process::exit(0);
}
