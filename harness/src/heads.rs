//! Concurrent histories of head operations on one database: interleavings of label store calls prescribed by the
//! specification (gate mode), or free running clients on threads (free mode). Histories are judged by HeadTrace.tla.
use crate::api::*;
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io;
use std::panic::AssertUnwindSafe;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use terminus_store::layer::{Layer, ValueTriple};
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend};
use terminus_store::storage::directory::{
    CachedDirectoryLabelStore, DirectoryLabelStore, DirectoryLayerStore,
};
use terminus_store::storage::memory::{MemoryLabelStore, MemoryLayerStore};
use terminus_store::storage::{CachedLayerStore, Label, LabelStore, LockingHashMapLayerCache};
use terminus_store::store::*;
use tokio::sync::{mpsc, oneshot};

tokio::task_local! { static CLIENT: usize; }

enum Event {
    Arrived(oneshot::Sender<()>),
    Done(Value),
}

/// every call of a client stops here until the schedule lets it go on
#[derive(Clone)]
struct GateLabels {
    inner: Arc<dyn LabelStore>,
    tx: mpsc::UnboundedSender<(usize, Event)>,
}

impl GateLabels {
    async fn stop(&self) {
        if let Ok(c) = CLIENT.try_with(|c| *c) {
            let (tx, rx) = oneshot::channel();
            if self.tx.send((c, Event::Arrived(tx))).is_ok() {
                let _ = rx.await;
            }
        }
    }
}

#[async_trait::async_trait]
impl LabelStore for GateLabels {
    async fn labels(&self) -> io::Result<Vec<Label>> {
        self.stop().await;
        self.inner.labels().await
    }
    async fn create_label(&self, name: &str) -> io::Result<Label> {
        self.stop().await;
        self.inner.create_label(name).await
    }
    async fn get_label(&self, name: &str) -> io::Result<Option<Label>> {
        self.stop().await;
        self.inner.get_label(name).await
    }
    async fn set_label_option(
        &self,
        label: &Label,
        layer: Option<Name>,
    ) -> io::Result<Option<Label>> {
        self.stop().await;
        self.inner.set_label_option(label, layer).await
    }
    async fn delete_label(&self, name: &str) -> io::Result<bool> {
        self.stop().await;
        self.inner.delete_label(name).await
    }
}

/// label store and layer store of a backend
async fn parts(
    backend: &str,
    path: &Path,
    mem: &(MemoryLabelStore, MemoryLayerStore),
) -> (Arc<dyn LabelStore>, CachedLayerStore) {
    let p = path.to_path_buf();
    let labels: Arc<dyn LabelStore> = match backend {
        "mem" => Arc::new(mem.0.clone()),
        "cdir" => Arc::new(
            CachedDirectoryLabelStore::open(p.clone())
                .await
                .expect("open"),
        ),
        _ => Arc::new(DirectoryLabelStore::new(p.clone())),
    };
    let cache = LockingHashMapLayerCache::new();
    let layers = match backend {
        "mem" => CachedLayerStore::new(mem.1.clone(), cache),
        "arc" => {
            let b = DirectoryArchiveBackend::new(p);
            CachedLayerStore::new(ArchiveLayerStore::new(b.clone(), b), cache)
        }
        _ => CachedLayerStore::new(DirectoryLayerStore::new(p), cache),
    };
    (labels, layers)
}

struct Client {
    store: Store,
    graph: NamedGraph,
    labels: Arc<dyn LabelStore>,
    last: Arc<Mutex<Option<Label>>>,
    name: String,
    layers: Arc<Vec<Name>>,
    handles: Arc<Vec<StoreLayer>>,
    keys: Arc<HashMap<Name, i64>>,
}

fn val(r: &str, head: i64, version: u64) -> Value {
    json!({"r": r, "head": head, "version": version})
}
fn res(r: &str) -> Value {
    val(r, 0, 0)
}
fn yes(b: bool) -> Value {
    res(if b { "yes" } else { "no" })
}

impl Client {
    fn key(&self, n: Option<Name>) -> i64 {
        match n {
            None => 0,
            Some(n) => self.keys.get(&n).copied().unwrap_or(-1),
        }
    }
    /// fills in what the operation is based on; None if there is nothing to base it on
    fn prepare(&self, op: &Value) -> Option<Value> {
        let k = op["op"].as_str().unwrap();
        let mut o = json!({"op": k, "l": 0, "v": 0, "bh": 0, "bv": 0});
        if matches!(k, "sethead" | "force" | "forcev" | "lset") {
            o["l"] = op["l"].clone();
        }
        if k == "forcev" {
            o["v"] = op["v"].clone();
        }
        if matches!(k, "lset" | "lclear") {
            let l = self.last.lock().unwrap().clone()?;
            o["bh"] = json!(self.key(l.layer));
            o["bv"] = json!(l.version);
        }
        Some(o)
    }
    async fn exec(&self, o: &Value) -> Value {
        let layer = |k: &Value| &self.handles[k.as_i64().unwrap() as usize - 1];
        let name = |k: &Value| self.layers[k.as_i64().unwrap() as usize - 1];
        let f = async {
            match o["op"].as_str().unwrap() {
                "create" => self.store.create(&self.name).await.map(|_| res("ok")),
                "delete" => self.store.delete(&self.name).await.map(yes),
                "gdelete" => self.graph.delete().await.map(|_| res("ok")),
                "open" => self.store.open(&self.name).await.map(|g| yes(g.is_some())),
                "listed" => self
                    .store
                    .labels()
                    .await
                    .map(|l| yes(l.contains(&self.name))),
                "head" => self
                    .graph
                    .head_version()
                    .await
                    .map(|(l, v)| val("ok", self.key(l.map(|l| l.name())), v)),
                "headl" => self
                    .graph
                    .head()
                    .await
                    .map(|l| val("ok", self.key(l.map(|l| l.name())), 0)),
                "lget" => self.labels.get_label(&self.name).await.map(|l| {
                    *self.last.lock().unwrap() = l.clone();
                    match l {
                        Some(l) => val("ok", self.key(l.layer), l.version),
                        None => res("no"),
                    }
                }),
                "sethead" => self.graph.set_head(layer(&o["l"])).await.map(yes),
                "force" => self
                    .graph
                    .force_set_head(layer(&o["l"]))
                    .await
                    .map(|_| res("ok")),
                "forcev" => self
                    .graph
                    .force_set_head_version(layer(&o["l"]), o["v"].as_u64().unwrap())
                    .await
                    .map(yes),
                k @ ("lset" | "lclear") => {
                    let base = self.last.lock().unwrap().clone().unwrap();
                    let r = if k == "lset" {
                        self.labels.set_label(&base, name(&o["l"])).await
                    } else {
                        self.labels.clear_label(&base).await
                    };
                    r.map(|l| {
                        let y = l.is_some();
                        if let Some(l) = l {
                            *self.last.lock().unwrap() = Some(l);
                        }
                        yes(y)
                    })
                }
                k => panic!("unknown head operation {k}"),
            }
        };
        match AssertUnwindSafe(f).catch_unwind().await {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => {
                let mut v = res("err");
                // an error on an existing database is reported with its cause
                v["msg"] = json!(e.to_string());
                v
            }
            Err(e) => {
                let mut v = res("panic");
                v["msg"] = json!(crate::run::panic_msg(e));
                v
            }
        }
    }
}

struct Setup {
    _dir: tempfile::TempDir,
    mem: (MemoryLabelStore, MemoryLayerStore),
    names: Arc<Vec<Name>>,
    keys: Arc<HashMap<Name, i64>>,
    db: String,
}

fn mkstore<L: 'static + LabelStore>(labels: L, layers: &CachedLayerStore) -> Store {
    Store::new(labels, layers.clone())
}

/// layers as the script wants them, and the database if it starts with one
async fn setup(script: &Value, backend: &str) -> Setup {
    let dir = tempfile::Builder::new()
        .prefix("h")
        .tempdir_in(scratch_base())
        .expect("tempdir");
    let mem = (MemoryLabelStore::new(), MemoryLayerStore::new());
    let (labels, layers) = parts(backend, dir.path(), &mem).await;
    let store = mkstore(SharedLabels(labels.clone()), &layers);
    let mut names = Vec::new();
    let mut keys = HashMap::new();
    for (i, p) in script["par"].as_array().unwrap().iter().enumerate() {
        let p = p.as_u64().unwrap() as usize;
        let b = if p == 0 {
            store.create_base_layer().await.unwrap()
        } else {
            store
                .get_layer_from_id(names[p - 1])
                .await
                .unwrap()
                .unwrap()
                .open_write()
                .await
                .unwrap()
        };
        b.add_value_triple(ValueTriple::new_string_value("a", "p", &format!("v{i}")))
            .unwrap();
        let l = b.commit().await.unwrap();
        keys.insert(l.name(), i as i64 + 1);
        names.push(l.name());
    }
    for r in script["rolled"].as_array().unwrap_or(&vec![]) {
        store
            .get_layer_from_id(names[r.as_u64().unwrap() as usize - 1])
            .await
            .unwrap()
            .unwrap()
            .rollup()
            .await
            .unwrap();
    }
    let db = script
        .get("db")
        .and_then(|d| d.as_str())
        .unwrap_or("db")
        .to_string();
    labels.create_label(&db).await.unwrap();
    Setup {
        _dir: dir,
        mem,
        names: Arc::new(names),
        keys: Arc::new(keys),
        db,
    }
}

async fn client(s: &Setup, store: Store, labels: Arc<dyn LabelStore>) -> Client {
    let graph = store.open(&s.db).await.unwrap().expect("database");
    let mut handles = Vec::new();
    for n in s.names.iter() {
        handles.push(store.get_layer_from_id(*n).await.unwrap().expect("layer"));
    }
    Client {
        store,
        graph,
        labels,
        last: Arc::new(Mutex::new(None)),
        name: s.db.clone(),
        layers: s.names.clone(),
        handles: Arc::new(handles),
        keys: s.keys.clone(),
    }
}

fn head_line(script: &Value, backend: &str) -> Value {
    json!({"e": "hist", "id": script["id"], "backend": backend, "par": script["par"], "start": script["start"]})
}

/// what a newly opened store says at the end
async fn finale(s: &Setup, backend: &str, out: &mut Vec<Value>) {
    let (labels, layers) = parts(backend, s._dir.path(), &s.mem).await;
    let store = mkstore(SharedLabels(labels.clone()), &layers);
    let mut r = match labels.get_label(&s.db).await {
        Ok(Some(l)) => val(
            "ok",
            match l.layer {
                None => 0,
                Some(n) => s.keys.get(&n).copied().unwrap_or(-1),
            },
            l.version,
        ),
        Ok(None) => res("no"),
        Err(e) => {
            let mut v = res("err");
            v["msg"] = json!(e.to_string());
            v
        }
    };
    if store.labels().await.is_err() {
        r = res("unlistable");
    }
    out.push(json!({"e": "inv", "c": 0, "o": {"op": "lget", "l": 0, "v": 0, "bh": 0, "bv": 0}}));
    out.push(json!({"e": "ret", "c": 0, "res": r}));
}

fn strip(v: &Value) -> (Value, Option<Value>) {
    let mut v = v.clone();
    let m = v.as_object_mut().unwrap().remove("msg");
    (v, m)
}

/// one schedule of label store calls
async fn gated(script: &Value, backend: &str) -> Vec<Value> {
    let s = setup(script, backend).await;
    let mut out = vec![head_line(script, backend)];
    let (tx, mut rx) = mpsc::unbounded_channel();
    let n = script["clients"].as_u64().unwrap() as usize;
    let (labels, layers) = parts(backend, s._dir.path(), &s.mem).await;
    let gate = GateLabels {
        inner: labels.clone(),
        tx: tx.clone(),
    };
    let store = mkstore(gate.clone(), &layers);
    let mut clients = Vec::new();
    for _ in 0..n {
        clients.push(Arc::new(
            client(&s, store.clone(), Arc::new(gate.clone())).await,
        ));
    }
    if !script["start"].as_bool().unwrap() {
        labels.delete_label(&s.db).await.unwrap();
    }
    let mut parked: Vec<Option<oneshot::Sender<()>>> = (0..=n).map(|_| None).collect();
    let mut busy = vec![false; n + 1];

    // lets client c run until it stops again or is done
    async fn wait(
        c: usize,
        rx: &mut mpsc::UnboundedReceiver<(usize, Event)>,
        parked: &mut [Option<oneshot::Sender<()>>],
        busy: &mut [bool],
        out: &mut Vec<Value>,
    ) -> bool {
        match tokio::time::timeout(Duration::from_secs(30), rx.recv()).await {
            Ok(Some((d, ev))) => {
                assert_eq!(c, d, "only one client runs at a time");
                match ev {
                    Event::Arrived(tx) => parked[c] = Some(tx),
                    Event::Done(v) => {
                        busy[c] = false;
                        let (v, msg) = strip(&v);
                        let mut o = json!({"e": "ret", "c": c, "res": v});
                        if let Some(m) = msg {
                            o["msg"] = m;
                        }
                        out.push(o);
                    }
                }
                true
            }
            _ => {
                out.push(json!({"e": "hang", "c": c}));
                false
            }
        }
    }
    macro_rules! drain {
        ($c:expr) => {
            let mut rounds = 0;
            while busy[$c] {
                rounds += 1;
                if rounds > 60 {
                    out.push(json!({"e": "hang", "c": $c}));
                    return out;
                }
                if let Some(tx) = parked[$c].take() {
                    let _ = tx.send(());
                }
                if !wait($c, &mut rx, &mut parked, &mut busy, &mut out).await {
                    return out;
                }
            }
        };
    }
    for item in script["sched"].as_array().unwrap() {
        let c = item["c"].as_u64().unwrap() as usize;
        if let Some(op) = item.get("o") {
            drain!(c);
            let cl = clients[c - 1].clone();
            let o = match cl.prepare(op) {
                Some(o) => o,
                None => continue,
            };
            out.push(json!({"e": "inv", "c": c, "o": o}));
            busy[c] = true;
            let tx = tx.clone();
            tokio::spawn(CLIENT.scope(c, async move {
                let v = cl.exec(&o).await;
                let _ = tx.send((c, Event::Done(v)));
            }));
            if !wait(c, &mut rx, &mut parked, &mut busy, &mut out).await {
                return out;
            }
        } else if busy[c] {
            if let Some(tx) = parked[c].take() {
                let _ = tx.send(());
            }
            if !wait(c, &mut rx, &mut parked, &mut busy, &mut out).await {
                return out;
            }
        }
    }
    for c in 1..=n {
        drain!(c);
    }
    finale(&s, backend, &mut out).await;
    out
}

/// clients on threads of their own; separate: each has opened the store for itself
fn free(script: &Value, backend: &str, reps: usize) -> Vec<Value> {
    let (kind, separate) = match backend.strip_suffix('*') {
        Some(b) => (b, true),
        None => (backend, false),
    };
    let s = bo(setup(script, kind));
    let n = script["clients"].as_u64().unwrap() as usize;
    let mut clients = Vec::new();
    let first = bo(parts(kind, s._dir.path(), &s.mem));
    let first_store = mkstore(SharedLabels(first.0.clone()), &first.1);
    for _ in 0..n {
        let (labels, store) = if separate {
            let (labels, layers) = bo(parts(kind, s._dir.path(), &s.mem));
            let st = mkstore(SharedLabels(labels.clone()), &layers);
            (labels, st)
        } else {
            (first.0.clone(), first_store.clone())
        };
        clients.push(Arc::new(bo(client(&s, store, labels))));
    }
    let mut all = Vec::new();
    for rep in 0..reps {
        if rep > 0 {
            // the same layers, the database as it was at the start
            let _ = bo(first.0.delete_label(&s.db));
            bo(first.0.create_label(&s.db)).unwrap();
        }
        if !script["start"].as_bool().unwrap() {
            bo(first.0.delete_label(&s.db)).unwrap();
        }
        let log = Arc::new(Mutex::new(vec![head_line(script, backend)]));
        let barrier = Arc::new(std::sync::Barrier::new(n));
        let mut threads = Vec::new();
        for (i, cl) in clients.iter().cloned().enumerate() {
            let ops: Vec<Value> = script["sched"]
                .as_array()
                .unwrap()
                .iter()
                .filter(|x| x["c"].as_u64() == Some(i as u64 + 1))
                .filter_map(|x| x.get("o").cloned())
                .collect();
            let (log, barrier) = (log.clone(), barrier.clone());
            threads.push(std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread()
                    .enable_all()
                    .build()
                    .unwrap();
                barrier.wait();
                rt.block_on(async {
                    for op in ops {
                        let o = match cl.prepare(&op) {
                            Some(o) => o,
                            None => continue,
                        };
                        log.lock()
                            .unwrap()
                            .push(json!({"e": "inv", "c": i + 1, "o": o}));
                        let v = match tokio::time::timeout(Duration::from_secs(60), cl.exec(&o))
                            .await
                        {
                            Ok(v) => v,
                            Err(_) => {
                                log.lock().unwrap().push(json!({"e": "hang", "c": i + 1}));
                                return;
                            }
                        };
                        let (v, msg) = strip(&v);
                        let mut o = json!({"e": "ret", "c": i + 1, "res": v});
                        if let Some(m) = msg {
                            o["msg"] = m;
                        }
                        log.lock().unwrap().push(o);
                    }
                });
            }));
        }
        for t in threads {
            let _ = t.join();
        }
        let mut out = std::mem::take(&mut *log.lock().unwrap());
        let hung = out.iter().any(|e| e["e"] == "hang");
        if !hung {
            bo(finale(&s, kind, &mut out));
        }
        all.extend(out);
        if hung {
            break;
        }
    }
    all
}

pub fn run(script: &Value, backend: &str, gate: bool, reps: usize) -> Vec<Value> {
    if gate {
        bo(gated(script, backend))
    } else {
        free(script, backend, reps)
    }
}
