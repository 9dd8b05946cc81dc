//! The layer operations of a script, executed concurrently: every operation starts as soon as those it depends on have
//! returned. Several threads, or several tasks of one thread interleaved at their await points. The events are logged
//! in the order of completion; layers do not depend on anything else, so any such order explains the results or none.
use crate::api::*;
use crate::run::{event_raw, Out, World};
use futures::stream::{FuturesUnordered, StreamExt};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::io;
use std::pin::Pin;
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use terminus_store::storage::{FileLoad, FileStore, PersistentLayerStore, SyncableFile};

// ---------------------------------------------------------------- a store that takes its time

#[derive(Clone, Copy, PartialEq)]
pub enum Pace {
    Threads,
    Tasks,
}
thread_local! { static PACE: RefCell<Option<(Pace, StdRng)>> = RefCell::new(None); }

fn set_pace(p: Pace, seed: u64) {
    PACE.with(|c| *c.borrow_mut() = Some((p, StdRng::seed_from_u64(seed))));
}

async fn pause() {
    let (yields, micros) = PACE.with(|c| match c.borrow_mut().as_mut() {
        None => (0, 0),
        Some((Pace::Tasks, r)) => (if r.gen_bool(0.6) { 0 } else { r.gen_range(1..5) }, 0),
        Some((Pace::Threads, r)) => match r.gen_range(0..20) {
            0 => (1, 0),
            1 => (0, r.gen_range(1..300)),
            _ => (0, 0),
        },
    });
    for _ in 0..yields {
        tokio::task::yield_now().await;
    }
    if micros > 0 {
        std::thread::sleep(Duration::from_micros(micros));
    }
}

#[derive(Clone)]
pub struct Slow<T>(pub T);

pub struct SlowWrite<T>(T);

impl<T: tokio::io::AsyncWrite + Unpin> tokio::io::AsyncWrite for SlowWrite<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
#[async_trait::async_trait]
impl<T: SyncableFile> SyncableFile for SlowWrite<T> {
    async fn sync_all(self) -> io::Result<()> {
        pause().await;
        self.0.sync_all().await
    }
}
#[async_trait::async_trait]
impl<T: FileStore> FileStore for Slow<T> {
    type Write = SlowWrite<T::Write>;
    async fn open_write(&self) -> io::Result<Self::Write> {
        pause().await;
        self.0.open_write().await.map(SlowWrite)
    }
}
#[async_trait::async_trait]
impl<T: FileLoad> FileLoad for Slow<T> {
    type Read = T::Read;
    async fn exists(&self) -> io::Result<bool> {
        pause().await;
        self.0.exists().await
    }
    async fn size(&self) -> io::Result<usize> {
        self.0.size().await
    }
    async fn open_read_from(&self, offset: usize) -> io::Result<Self::Read> {
        pause().await;
        self.0.open_read_from(offset).await
    }
    async fn map(&self) -> io::Result<bytes::Bytes> {
        pause().await;
        self.0.map().await
    }
}
#[async_trait::async_trait]
impl<T: PersistentLayerStore> PersistentLayerStore for Slow<T> {
    type File = Slow<T::File>;
    async fn directories(&self) -> io::Result<Vec<Name>> {
        pause().await;
        self.0.directories().await
    }
    async fn create_named_directory(&self, id: Name) -> io::Result<Name> {
        pause().await;
        self.0.create_named_directory(id).await
    }
    async fn directory_exists(&self, name: Name) -> io::Result<bool> {
        pause().await;
        let r = self.0.directory_exists(name).await;
        pause().await;
        r
    }
    async fn get_file(&self, directory: Name, name: &str) -> io::Result<Self::File> {
        self.0.get_file(directory, name).await.map(Slow)
    }
    async fn file_exists(&self, directory: Name, file: &str) -> io::Result<bool> {
        pause().await;
        let r = self.0.file_exists(directory, file).await;
        pause().await;
        r
    }
    async fn finalize(&self, directory: Name) -> io::Result<()> {
        pause().await;
        let r = self.0.finalize(directory).await;
        pause().await;
        r
    }
    async fn layer_parent(&self, name: Name) -> io::Result<Option<Name>> {
        pause().await;
        self.0.layer_parent(name).await
    }
    async fn write_rollup_file(&self, dir_name: Name, rollup_name: Name) -> io::Result<()> {
        pause().await;
        let r = self.0.write_rollup_file(dir_name, rollup_name).await;
        pause().await;
        r
    }
}

// ---------------------------------------------------------------- what depends on what

pub struct Node {
    op: Value,
    deps: Vec<usize>,
    /// starts of several threads at once
    race: bool,
}

const LABEL_OPS: [&str; 12] = ["create", "open", "delete", "gdelete", "labels", "head", "sethead", "force", "forcev", "lget", "lset", "lclear"];

pub fn plan(script: &Value, rng: &mut StdRng) -> Vec<Node> {
    let mut nodes: Vec<Node> = Vec::new();
    let mut writer: HashMap<String, usize> = HashMap::new();
    let mut readers: HashMap<String, Vec<usize>> = HashMap::new();
    let mut barrier: Option<usize> = None;
    let mut fresh = 1_000_000;
    for op in script["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        if LABEL_OPS.contains(&name) {
            continue;
        }
        let st = op.get("st").and_then(|x| x.as_u64()).unwrap_or(0);
        let copies = match name {
            "obs" => rng.gen_range(1..4),
            "rollup" | "rollup_upto" | "irollup_upto" | "lstore" | "import" | "squash" | "squash_upto" | "merge" => 1 + (rng.gen_range(0..3) == 0) as usize,
            _ => 1,
        };
        let mut mine: Vec<usize> = Vec::new();
        for c in 0..copies {
            let mut op = op.clone();
            if c > 0 && op.get("n").is_some() {
                fresh += 1;
                op["n"] = json!(fresh);
            }
            let me = nodes.len();
            // what it uses (and may be overtaken by nothing that changes it), what it changes
            let (mut uses, mut changes): (Vec<String>, Vec<String>) = (Vec::new(), Vec::new());
            let mut soft = None;
            for f in ["l", "a"] {
                match op.get(f).and_then(|x| x.as_i64()) {
                    Some(k) if k != 0 && !(f == "l" && name == "commit") => uses.push(format!("l{k}")),
                    _ => {}
                }
            }
            for k in op.get("ls").and_then(|x| x.as_array()).unwrap_or(&Vec::new()) {
                uses.push(format!("l{k}"));
            }
            let b = op.get("b").and_then(|x| x.as_i64()).map(|b| format!("b{b}"));
            uses.push(format!("avail{st}"));
            match name {
                "add" | "rem" => {
                    uses.push(b.clone().unwrap());
                    changes.push(format!("{} {}", b.unwrap(), op["t"]));
                }
                "commit" => {
                    changes.push(b.unwrap());
                    changes.push(format!("l{}", op["l"]));
                }
                "base" | "child" | "delta" | "diff" | "bname" | "dropb" => changes.push(b.unwrap()),
                "squash" | "squash_upto" | "merge" => changes.push(format!("l{}", op["n"])),
                "export" => changes.push(format!("x{}", op["x"])),
                "import" => {
                    uses.push(format!("x{}", op["x"]));
                    if c == 0 {
                        changes.push(format!("avail{st}"));
                    } else {
                        uses.retain(|u| *u != format!("avail{st}"));
                    }
                }
                "dropall" | "layers" | "getrandom" => soft = Some(me.saturating_sub(rng.gen_range(1..8))),
                _ => {}
            }
            let mut deps: BTreeSet<usize> = BTreeSet::new();
            deps.extend(barrier);
            deps.extend(soft.filter(|s| *s < me));
            if name == "reopen" {
                deps.extend(0..me);
            }
            for u in &uses {
                deps.extend(writer.get(u));
            }
            for u in &changes {
                deps.extend(writer.get(u));
                // only what asks for something not (yet) to be there minds a later change
                deps.extend(readers.get(u).into_iter().flatten());
            }
            if name == "import" && c > 0 {
                // at the same time as the first one
                deps = nodes[mine[0]].deps.iter().copied().collect();
            }
            deps.retain(|d| !mine.contains(d));
            let race = name == "commit" && rng.gen_range(0..4) == 0;
            nodes.push(Node { op, deps: deps.into_iter().collect(), race });
            mine.push(me);
            for u in changes {
                writer.insert(u.clone(), me);
                readers.remove(&u);
            }
            for u in uses {
                if u.starts_with('b') || (u.starts_with("avail") && matches!(name, "get" | "layers" | "import" | "export")) {
                    readers.entry(u).or_default().push(me);
                }
            }
            if name == "reopen" {
                barrier = Some(me);
            }
        }
        // a second import may still be running when something uses the layers: that has to wait for both
        if name == "import" && mine.len() > 1 {
            let all = mine.clone();
            let join = nodes.len();
            nodes.push(Node { op: json!({"op": "drop", "l": 0, "st": st}), deps: all, race: false });
            writer.insert(format!("avail{st}"), join);
        }
    }
    nodes
}

// ---------------------------------------------------------------- execution

struct State {
    ready: Vec<usize>,
    waiting: Vec<usize>,
    dependents: Vec<Vec<usize>>,
    left: usize,
    log: Vec<Value>,
    running: BTreeSet<usize>,
    stopped: bool,
    rng: StdRng,
}

struct Sched {
    w: World,
    nodes: Vec<Node>,
    s: Mutex<State>,
    cv: Condvar,
}

impl Sched {
    fn new(script: &Value, backends: &[Backend], seed: u64) -> Sched {
        let mut rng = StdRng::seed_from_u64(seed);
        let nodes = plan(script, &mut rng);
        let mut dependents = vec![Vec::new(); nodes.len()];
        let mut waiting = vec![0; nodes.len()];
        for (i, n) in nodes.iter().enumerate() {
            waiting[i] = n.deps.len();
            for d in &n.deps {
                dependents[*d].push(i);
            }
        }
        let ready = (0..nodes.len()).filter(|i| waiting[*i] == 0).collect();
        let left = nodes.len();
        Sched {
            w: World::new(script, backends),
            nodes,
            s: Mutex::new(State { ready, waiting, dependents, left, log: Vec::new(), running: BTreeSet::new(), stopped: false, rng }),
            cv: Condvar::new(),
        }
    }

    /// picks something that may start: mostly what comes early in the script, so that things stay close together
    fn pick(s: &mut State) -> Option<usize> {
        if s.ready.is_empty() || s.stopped {
            return None;
        }
        s.ready.sort();
        let n = s.ready.len().min(6);
        let k = s.rng.gen_range(0..n);
        let i = s.ready.remove(k);
        s.running.insert(i);
        Some(i)
    }

    /// layers whose creation has been logged
    fn logged(s: &State) -> BTreeSet<i64> {
        s.log
            .iter()
            .filter(|e| e["r"] == "ok")
            .filter_map(|e| match e["op"].as_str().unwrap() {
                "commit" => e["l"].as_i64(),
                "squash" | "squash_upto" | "merge" => e["n"].as_i64(),
                _ => None,
            })
            .collect()
    }

    fn finish(&self, i: usize, before: &BTreeSet<i64>, evs: Vec<(Value, bool)>) {
        let mut s = self.s.lock().unwrap();
        for (mut ev, go) in evs {
            self.w.compress(&mut ev);
            if ev["op"] == "layers" {
                // what may or may not be listed, as it arrived meanwhile
                let conc: Vec<i64> = self.w.sh().names.keys().copied().filter(|k| !before.contains(k)).collect();
                ev["conc"] = json!(conc);
            }
            s.log.push(ev);
            s.stopped |= !go;
        }
        s.running.remove(&i);
        s.left -= 1;
        for d in std::mem::take(&mut s.dependents[i]) {
            s.waiting[d] -= 1;
            if s.waiting[d] == 0 {
                s.ready.push(d);
            }
        }
        if s.left == 0 || s.stopped {
            s.stopped = true;
        }
        self.cv.notify_all();
    }

    fn worker(&self, seed: u64) {
        set_pace(Pace::Threads, seed);
        loop {
            let mut s = self.s.lock().unwrap();
            let i = loop {
                if s.stopped {
                    return;
                }
                if let Some(i) = Self::pick(&mut s) {
                    break i;
                }
                s = self.cv.wait(s).unwrap();
            };
            let before = Self::logged(&s);
            drop(s);
            let n = &self.nodes[i];
            let evs = if n.race { self.race(&n.op, seed) } else { vec![event_raw(&self.w, &n.op, None)] };
            self.finish(i, &before, evs);
        }
    }

    /// several threads commit the same builder, while others still ask it for additions
    fn race(&self, op: &Value, seed: u64) -> Vec<(Value, bool)> {
        let (b, bst) = self.w.builder(op["b"].as_i64().unwrap());
        let k = op["l"].as_i64().unwrap();
        if b.committed() {
            return vec![event_raw(&self.w, op, None)];
        }
        let probes: Vec<(String, String, String)> = self.w.probes.iter().cloned().collect();
        let t = probes[(seed % probes.len() as u64) as usize].clone();
        let barrier = std::sync::Barrier::new(4);
        let barrier = &barrier;
        let runtime = rt();
        let (mut commits, mut adds) = (Vec::new(), Vec::new());
        std::thread::scope(|sc| {
            let mut h = Vec::new();
            let mut a = Vec::new();
            for j in 0..2 {
                let b = b.clone();
                h.push(sc.spawn(move || {
                    set_rt(runtime);
                    barrier.wait();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if j == 0 { b.commit().map(|l| Some(l)) } else { b.commit_no_load().map(|_| None) }));
                    (r, b.committed())
                }));
                let (b, vt) = (self.w.builder(op["b"].as_i64().unwrap()).0, self.w.terms.triple(&t.0, &t.1, &t.2));
                a.push(sc.spawn(move || {
                    barrier.wait();
                    b.add(vt).is_ok()
                }));
            }
            commits = h.into_iter().map(|h| h.join().unwrap()).collect();
            adds = a.into_iter().map(|h| h.join().unwrap_or(false)).collect();
        });
        let ev = |f: Value, more: Value| {
            let mut e = f.as_object().unwrap().clone();
            e.remove("noobs");
            e.extend(more.as_object().unwrap().clone());
            Value::Object(e)
        };
        let add = json!({"op": "add", "b": op["b"], "t": [t.0, t.1, t.2], "form": "val"});
        let mut out = Vec::new();
        for ok in adds.iter().filter(|x| **x) {
            out.push((ev(add.clone(), json!({"r": if *ok { "ok" } else { "err" }})), true));
        }
        let mut first = true;
        commits.sort_by_key(|(r, _)| !matches!(r, Ok(Ok(_))));
        for (r, now) in commits {
            match r {
                Ok(Ok(l)) => {
                    self.w.register(k, b.name());
                    let bad = l.map(|l| l.name() != b.name()).unwrap_or(false);
                    let mut e = ev(op.clone(), json!({"r": "ok", "was": !first, "now": now, "bad": bad}));
                    if first && op.get("noobs").is_none() {
                        e["obs"] = self.w.observe(bst, k, false);
                    }
                    out.push((e, true));
                }
                Ok(Err(x)) => out.push((ev(op.clone(), json!({"r": "err", "was": true, "now": now, "bad": false, "msg": x.to_string()})), true)),
                Err(p) => out.push((ev(op.clone(), json!({"r": "panic", "msg": crate::run::panic_msg(p)})), false)),
            }
            first = false;
        }
        for _ in adds.iter().filter(|x| !**x) {
            out.push((ev(add.clone(), json!({"r": "err"})), true));
        }
        out
    }

    /// one thread, all operations as tasks of it. What would block the thread is given to another one.
    fn tasks(self: &Arc<Self>, seed: u64, runtime: &'static tokio::runtime::Runtime) {
        set_pace(Pace::Tasks, seed);
        let aside = |i: usize, pre: Option<Out>| {
            let me = self.clone();
            runtime.spawn_blocking(move || {
                set_rt(runtime);
                event_raw(&me.w, &me.nodes[i].op, pre)
            })
        };
        let width = 2 + seed as usize % 4;
        let mut going = FuturesUnordered::new();
        loop {
            let mut s = self.s.lock().unwrap();
            if s.stopped {
                break;
            }
            let i = if going.len() < width { Self::pick(&mut s) } else { None };
            let before = Self::logged(&s);
            drop(s);
            match i {
                Some(i) => {
                    let op = &self.nodes[i].op;
                    // importing blocks the task on others
                    let f = if op["op"] == "import" { None } else { self.w.future(op) };
                    let aside = &aside;
                    going.push(async move {
                        let pre = match f {
                            None => None,
                            Some(f) => match futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(f)).await {
                                Ok(out) => Some(out),
                                Err(p) => {
                                    let mut e = op.clone();
                                    e["r"] = json!("panic");
                                    e["msg"] = json!(crate::run::panic_msg(p));
                                    return (i, before, (e, false));
                                }
                            },
                        };
                        let ev = aside(i, pre).await.unwrap();
                        (i, before, ev)
                    });
                }
                None => {
                    let Some((i, before, ev)) = runtime.block_on(going.next()) else { break };
                    self.finish(i, &before, vec![ev]);
                }
            }
        }
    }
}

/// backend: a backend's name (or one for each store, separated by commas) followed by /threads or /tasks
pub fn run(script: &Value, backend: &str, reps: u64, seed: u64) -> Vec<Value> {
    let (be, mode) = backend.split_once('/').unwrap();
    let be: Vec<Backend> = be.split(',').map(Backend::parse).collect();
    let mut out = Vec::new();
    let mut seen = BTreeSet::new();
    let runtime = rt();
    for rep in 0..reps {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (script["id"].as_str(), backend, rep, seed).hash(&mut h);
        let s0 = h.finish();
        let sched = Arc::new(Sched::new(script, &be, s0));
        let n = if mode == "threads" { 4 } else { 1 };
        let (tx, rx) = channel();
        for t in 0..n {
            let (sched, tx, tasks) = (sched.clone(), tx.clone(), mode != "threads");
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    set_rt(runtime);
                    if tasks {
                        sched.tasks(s0 ^ t, runtime)
                    } else {
                        sched.worker(s0 ^ t)
                    }
                    drop(sched);
                    let _ = tx.send(());
                })
                .unwrap();
        }
        drop(tx);
        let mut alive = n;
        let mut progress = (0, 0);
        let mut hung = false;
        while alive > 0 {
            match rx.recv_timeout(Duration::from_secs(1)) {
                Ok(()) => alive -= 1,
                Err(RecvTimeoutError::Disconnected) => break,
                Err(RecvTimeoutError::Timeout) => {
                    let left = sched.s.lock().map(|s| s.left).unwrap_or(0);
                    progress = if progress.0 == left { (left, progress.1 + 1) } else { (left, 0) };
                    if progress.1 > 60 {
                        hung = true;
                        break;
                    }
                }
            }
        }
        let mut s = sched.s.lock().unwrap_or_else(|e| e.into_inner());
        let mut log = std::mem::take(&mut s.log);
        if hung {
            let i = *s.running.iter().next().unwrap();
            let mut e = sched.nodes[i].op.clone();
            e["r"] = json!("panic");
            e["msg"] = json!("never returns");
            log.push(e);
            s.stopped = true;
        }
        drop(s);
        let text: Vec<String> = log.iter().map(|e| e.to_string()).collect();
        if seen.insert(text) {
            out.push(json!({"op": "script", "id": script["id"], "backend": backend, "diff": -1, "rep": rep, "seed": seed}));
            out.extend(log);
        }
        if hung {
            break;
        }
    }
    out
}
