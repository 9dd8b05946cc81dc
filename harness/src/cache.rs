//! Schedules for the archive cache over an origin that stops at every call, fails on demand and counts the bytes
//! nobody has let go of (gate mode), or under free running tasks (free mode). Histories are judged by CacheTrace.tla.
use crate::api::{scratch_base, Name};
use bytes::Bytes;
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use terminus_store::layer::{Layer, ValueTriple};
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::{LayerFileEnum, FILENAME_ENUM_MAP};
use tokio::io::AsyncReadExt;
use tokio::sync::{mpsc, oneshot};

tokio::task_local! { static CLIENT: usize; }
tokio::task_local! { static OWNFAIL: AtomicBool; }

const UNIT: usize = 131072;
const KIND: io::ErrorKind = io::ErrorKind::TimedOut;

struct Template {
    name: Name,
    parent: i64,
    bytes: Vec<u8>,
    pieces: Vec<Option<Vec<u8>>>,
}

fn files() -> Vec<LayerFileEnum> {
    let mut f: Vec<LayerFileEnum> = FILENAME_ENUM_MAP.values().cloned().collect();
    f.sort();
    f
}

fn kindname(k: io::ErrorKind) -> String {
    format!("{k:?}")
}

/// archives written by the real archive store, a few of them on top of others
fn templates() -> &'static Vec<Template> {
    static T: OnceLock<Vec<Template>> = OnceLock::new();
    T.get_or_init(|| {
        std::thread::spawn(|| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async {
                let dir = tempfile::Builder::new().prefix("c").tempdir_in(scratch_base()).unwrap();
                let store = terminus_store::open_archive_store(dir.path(), 0);
                let b = DirectoryArchiveBackend::new(dir.path().to_path_buf());
                let mut names: Vec<Name> = Vec::new();
                let mut res = Vec::new();
                for i in 0..8usize {
                    let parent = if i % 3 == 2 { i } else { 0 };
                    let bu = if parent == 0 {
                        store.create_base_layer().await.unwrap()
                    } else {
                        let p = store.get_layer_from_id(names[parent - 1]).await.unwrap().unwrap();
                        p.open_write().await.unwrap()
                    };
                    for k in 0..=i {
                        bu.add_value_triple(ValueTriple::new_string_value(&format!("s{i}{k}"), "p", &format!("v{i}.{k}"))).unwrap();
                    }
                    let long: String = (0..3000u32).map(|x| char::from(b'a' + (x.wrapping_mul(2654435761).wrapping_add(i as u32 * 97) >> 13) as u8 % 26)).collect();
                    bu.add_value_triple(ValueTriple::new_string_value(&format!("s{i}"), "q", &long)).unwrap();
                    let l = bu.commit().await.unwrap();
                    names.push(l.name());
                    let mut pieces = Vec::new();
                    for f in files() {
                        pieces.push(b.get_layer_structure_bytes(l.name(), f).await.unwrap().map(|x| x.to_vec()));
                    }
                    res.push(Template {
                        name: l.name(),
                        parent: parent as i64,
                        bytes: b.get_layer_bytes(l.name()).await.unwrap().to_vec(),
                        pieces,
                    });
                }
                res
            })
        })
        .join()
        .unwrap()
    })
}

/// the archive of layer id (1..) padded to its size
fn content(id: usize, size: usize) -> Arc<Vec<u8>> {
    static C: OnceLock<Mutex<HashMap<(usize, usize), Arc<Vec<u8>>>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let mut c = c.lock().unwrap();
    c.entry((id, size))
        .or_insert_with(|| {
            let mut v = templates()[id - 1].bytes.clone();
            let mut x = (id * 7919 + size) as u64 | 1;
            assert!(v.len() <= size);
            while v.len() < size {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                v.push(x as u8);
            }
            Arc::new(v)
        })
        .clone()
}

struct Counted {
    data: Arc<Vec<u8>>,
    live: Arc<AtomicI64>,
}
impl AsRef<[u8]> for Counted {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.live.fetch_sub(self.data.len() as i64, Ordering::SeqCst);
    }
}

enum Event {
    Arrived(oneshot::Sender<bool>),
    Done(Value),
}

struct World {
    data: Vec<Arc<Vec<u8>>>,
    stored: Mutex<Vec<bool>>,
    log: Mutex<Vec<Value>>,
    live: Arc<AtomicI64>,
    asked: AtomicBool,
    tx: Option<mpsc::UnboundedSender<(usize, Event)>>,
    jitter: AtomicUsize,
}

#[derive(Clone)]
struct Origin(Arc<World>);

fn index(name: Name) -> Option<usize> {
    templates().iter().position(|t| t.name == name)
}

impl World {
    fn bytes(&self, k: usize) -> Bytes {
        self.live.fetch_add(self.data[k].len() as i64, Ordering::SeqCst);
        Bytes::from_owner(Counted { data: self.data[k].clone(), live: self.live.clone() })
    }
    async fn stop(&self) -> bool {
        let c = match CLIENT.try_with(|c| *c) {
            Ok(c) => c,
            Err(_) => {
                self.asked.store(true, Ordering::SeqCst);
                return false;
            }
        };
        match &self.tx {
            Some(t) => {
                let (tx, rx) = oneshot::channel();
                if t.send((c, Event::Arrived(tx))).is_ok() {
                    rx.await.unwrap_or(false)
                } else {
                    false
                }
            }
            None => {
                let x = self.jitter.fetch_add(1, Ordering::SeqCst).wrapping_mul(2654435761) >> 7;
                match x % 4 {
                    0 => (),
                    1 => tokio::task::yield_now().await,
                    k => tokio::time::sleep(Duration::from_micros(50 * k as u64 + (x % 331) as u64)).await,
                }
                OWNFAIL.try_with(|f| f.swap(false, Ordering::SeqCst)).unwrap_or(false)
            }
        }
    }
    /// a call to the origin about a layer: stops before it, decides, stops after it
    async fn call<T>(&self, id: Name, f: impl FnOnce(usize) -> io::Result<T> + Send) -> io::Result<T> {
        let fail = self.stop().await;
        let k = index(id);
        let res = {
            let mut log = self.log.lock().unwrap();
            let there = k.map(|k| self.stored.lock().unwrap()[k]).unwrap_or(false);
            let r = if fail {
                Err(io::Error::new(KIND, "origin failed"))
            } else if !there {
                Err(io::Error::new(io::ErrorKind::NotFound, "no such layer"))
            } else {
                f(k.unwrap())
            };
            if let (Err(e), Ok(c)) = (&r, CLIENT.try_with(|c| *c)) {
                log.push(json!({"e": "fail", "c": c, "id": k.map(|k| k + 1).unwrap_or(0), "k": kindname(e.kind())}));
            }
            r
        };
        if CLIENT.try_with(|_| ()).is_ok() {
            let _ = self.stop_after().await;
        }
        res
    }
    async fn stop_after(&self) {
        if self.tx.is_some() {
            self.stop().await;
        } else {
            tokio::task::yield_now().await;
        }
    }
    fn piece(&self, k: usize, f: LayerFileEnum) -> Option<Vec<u8>> {
        templates()[k].pieces[files().iter().position(|x| *x == f).unwrap()].clone()
    }
}

#[async_trait::async_trait]
impl ArchiveBackend for Origin {
    type Read = io::Cursor<Vec<u8>>;
    async fn get_layer_bytes(&self, id: Name) -> io::Result<Bytes> {
        self.0.call(id, |k| Ok(self.0.bytes(k))).await
    }
    async fn get_layer_structure_bytes(&self, id: Name, f: LayerFileEnum) -> io::Result<Option<Bytes>> {
        self.0.call(id, |k| Ok(self.0.piece(k, f).map(Bytes::from))).await
    }
    async fn store_layer_file(&self, id: Name, bytes: Bytes) -> io::Result<()> {
        let fail = self.0.stop().await;
        let k = index(id).unwrap();
        if fail {
            if let Ok(c) = CLIENT.try_with(|c| *c) {
                self.0.log.lock().unwrap().push(json!({"e": "fail", "c": c, "id": k + 1, "k": kindname(KIND)}));
            }
            self.0.stop_after().await;
            return Err(io::Error::new(KIND, "origin failed"));
        }
        {
            let mut log = self.0.log.lock().unwrap();
            assert_eq!(&bytes[..], &self.0.data[k][..], "stored other bytes than it was given");
            self.0.stored.lock().unwrap()[k] = true;
            log.push(json!({"e": "stored", "id": k + 1}));
        }
        self.0.stop_after().await;
        Ok(())
    }
    async fn read_layer_structure_bytes_from(&self, id: Name, f: LayerFileEnum, from: usize) -> io::Result<Self::Read> {
        self.0
            .call(id, |k| match self.0.piece(k, f) {
                Some(p) => Ok(io::Cursor::new(p[from..].to_vec())),
                None => Err(io::Error::new(io::ErrorKind::NotFound, "no such structure")),
            })
            .await
    }
}

#[async_trait::async_trait]
impl ArchiveMetadataBackend for Origin {
    async fn get_layer_names(&self) -> io::Result<Vec<Name>> {
        let s = self.0.stored.lock().unwrap();
        Ok((0..s.len()).filter(|k| s[*k]).map(|k| templates()[k].name).collect())
    }
    async fn layer_exists(&self, id: Name) -> io::Result<bool> {
        match self.0.call(id, |_| Ok(true)).await {
            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
            r => r,
        }
    }
    async fn layer_size(&self, id: Name) -> io::Result<u64> {
        self.0.call(id, |k| Ok(self.0.data[k].len() as u64)).await
    }
    async fn layer_file_exists(&self, id: Name, f: LayerFileEnum) -> io::Result<bool> {
        match self.0.call(id, |k| Ok(self.0.piece(k, f).is_some())).await {
            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
            r => r,
        }
    }
    async fn get_layer_structure_size(&self, id: Name, f: LayerFileEnum) -> io::Result<usize> {
        self.0
            .call(id, |k| {
                self.0.piece(k, f).map(|p| p.len()).ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "no such structure"))
            })
            .await
    }
    async fn get_rollup(&self, _id: Name) -> io::Result<Option<Name>> {
        Ok(None)
    }
    async fn set_rollup(&self, _id: Name, _rollup: Name) -> io::Result<()> {
        Ok(())
    }
    async fn get_parent(&self, id: Name) -> io::Result<Option<Name>> {
        self.0
            .call(id, |k| {
                let p = templates()[k].parent;
                Ok(if p == 0 { None } else { Some(templates()[p as usize - 1].name) })
            })
            .await
    }
}

type Lru = LruArchiveBackend<Origin, Origin>;

/// which layer these bytes are of; -1: none
fn whose(w: &World, b: &[u8]) -> i64 {
    w.data.iter().position(|d| d[..] == *b).map(|k| k as i64 + 1).unwrap_or(-1)
}

async fn exec(w: &World, lru: &Lru, o: &Value) -> Value {
    let k = o["id"].as_u64().unwrap() as usize - 1;
    let id = templates()[k].name;
    let fi = o["f"].as_u64().unwrap() as usize;
    let f = files()[fi];
    let off = o["off"].as_u64().unwrap() as usize;
    let run = async {
        Ok::<Value, io::Error>(match o["op"].as_str().unwrap() {
            "get" => {
                let b = lru.get_layer_bytes(id).await?;
                json!({"r": "ok", "d": whose(w, &b)})
            }
            "piece" => match lru.get_layer_structure_bytes(id, f).await? {
                None => json!({"r": "none"}),
                Some(b) => {
                    json!({"r": "ok", "d": if Some(b.to_vec()) == templates()[k].pieces[fi] { k as i64 + 1 } else { -1 }})
                }
            },
            "from" => {
                let mut r = lru.read_layer_structure_bytes_from(id, f, off).await?;
                let mut v = Vec::new();
                r.read_to_end(&mut v).await?;
                let want = templates()[k].pieces[fi].clone().unwrap_or_default();
                json!({"r": "ok", "d": if v[..] == want[off.min(want.len())..] { k as i64 + 1 } else { -1 }})
            }
            "psize" => json!({"r": "ok", "d": lru.get_layer_structure_size(id, f).await?}),
            "parent" => match lru.get_parent(id).await? {
                None => json!({"r": "none"}),
                Some(p) => json!({"r": "ok", "d": index(p).map(|p| p as i64 + 1).unwrap_or(-1)}),
            },
            "exists" => json!({"r": if lru.layer_exists(id).await? { "yes" } else { "no" }}),
            "fexists" => json!({"r": if lru.layer_file_exists(id, f).await? { "yes" } else { "no" }}),
            "size" => json!({"r": "ok", "d": lru.layer_size(id).await?}),
            "store" => {
                lru.store_layer_file(id, w.bytes(k)).await?;
                json!({"r": "ok"})
            }
            x => panic!("unknown cache operation {x}"),
        })
    };
    match AssertUnwindSafe(run).catch_unwind().await {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"r": "err", "k": kindname(e.kind()), "d": 0}),
        Err(e) => json!({"r": "panic", "k": crate::run::panic_msg(e)}),
    }
}

fn world(script: &Value, limit: usize, tx: Option<mpsc::UnboundedSender<(usize, Event)>>) -> (Arc<World>, Lru, Value) {
    let units: Vec<usize> = script["sizes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let n = units.len();
    // a byte more or less than the model's unit: what just fits and what just does not
    let extra = |k: usize| script["extra"][k].as_i64().unwrap_or(0);
    let data: Vec<_> = (1..=n).map(|i| content(i, ((units[i - 1] * UNIT) as i64 + extra(i - 1)) as usize)).collect();
    let stored0: Vec<u64> = script["stored"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let head = json!({"e": "hist", "id": script["id"], "backend": limit.to_string(), "limit": limit * 1024 * 1024,
        "stored": stored0, "sizes": data.iter().map(|d| d.len()).collect::<Vec<_>>(),
        "parent": (0..n).map(|k| templates()[k].parent).collect::<Vec<_>>(),
        "pieces": (0..n).map(|k| templates()[k].pieces.iter().map(|p| p.as_ref().map(|p| p.len() as i64).unwrap_or(-1)).collect::<Vec<_>>()).collect::<Vec<_>>()});
    let w = Arc::new(World {
        stored: Mutex::new((1..=n as u64).map(|k| stored0.contains(&k)).collect()),
        data,
        log: Mutex::new(vec![head.clone()]),
        live: Arc::new(AtomicI64::new(0)),
        asked: AtomicBool::new(false),
        tx,
        jitter: AtomicUsize::new(script["id"].as_str().map(|s| s.bytes().fold(7usize, |a, b| a.wrapping_mul(31) + b as usize)).unwrap_or(0)),
    });
    let lru = LruArchiveBackend::new(Origin(w.clone()), Origin(w.clone()), limit);
    (w, lru, head)
}

/// operation with the indices brought into range
fn fix(o: &Value) -> Value {
    let k = o["id"].as_u64().unwrap() as usize - 1;
    let fs = files().len();
    let mut f = o["f"].as_u64().unwrap_or(0) as usize % fs;
    // mostly structures that are there
    if o["off"].as_u64().unwrap_or(0) != 8 {
        let have: Vec<usize> = (0..fs).filter(|f| templates()[k].pieces[*f].is_some()).collect();
        f = have[f % have.len()];
    }
    let len = templates()[k].pieces[f].as_ref().map(|p| p.len()).unwrap_or(0);
    json!({"op": o["op"], "id": k + 1, "f": f, "off": (o["off"].as_u64().unwrap_or(0) as usize).min(len)})
}

/// what the cache answers for without asking the origin
fn held(w: &World, lru: &Lru) -> Vec<usize> {
    let mut res = Vec::new();
    for k in 0..w.data.len() {
        w.asked.store(false, Ordering::SeqCst);
        let r = tokio::task::unconstrained(lru.layer_exists(templates()[k].name)).now_or_never();
        if let Some(Ok(true)) = r {
            if !w.asked.load(Ordering::SeqCst) {
                res.push(k + 1);
            }
        }
    }
    res
}

async fn settle(rx: &mut mpsc::UnboundedReceiver<(usize, Event)>, parked: &mut [Option<oneshot::Sender<bool>>], busy: &mut [bool], w: &World) {
    let mut quiet = 0;
    while quiet < 12 {
        tokio::task::yield_now().await;
        quiet += 1;
        while let Ok((c, ev)) = rx.try_recv() {
            quiet = 0;
            match ev {
                Event::Arrived(tx) => parked[c] = Some(tx),
                Event::Done(v) => {
                    if busy[c] {
                        busy[c] = false;
                        w.log.lock().unwrap().push(json!({"e": "ret", "c": c, "res": v}));
                    }
                }
            }
        }
    }
}

async fn gated(script: &Value, limit: usize) -> Vec<Value> {
    let (tx, mut rx) = mpsc::unbounded_channel();
    let (w, lru, _) = world(script, limit, Some(tx.clone()));
    let n = script["clients"].as_u64().unwrap() as usize;
    let mut parked: Vec<Option<oneshot::Sender<bool>>> = (0..=n).map(|_| None).collect();
    let mut busy = vec![false; n + 1];
    let mut tasks: Vec<Option<tokio::task::JoinHandle<()>>> = (0..=n).map(|_| None).collect();
    let mut last = (vec![], -1);
    // layers left to read at the end
    let mut items: Vec<Value> = script["sched"].as_array().unwrap().clone();
    items.push(json!({"c": 0}));
    for k in 0..w.data.len() {
        for op in ["get", "piece"] {
            items.push(json!({"c": 1, "o": {"op": op, "id": k + 1, "f": k, "off": 0}}));
            items.push(json!({"c": 0}));
        }
    }
    for item in items {
        let c = item["c"].as_u64().unwrap() as usize;
        let drain_all = c == 0;
        if drain_all || (item.get("o").is_some() && busy[c]) {
            // let everyone (or this client) finish
            let mut stuck = 0;
            while (1..=n).any(|d| busy[d] && (drain_all || d == c)) {
                let mut moved = false;
                for d in 1..=n {
                    if let Some(tx) = parked[d].take() {
                        moved = true;
                        let _ = tx.send(false);
                    }
                }
                settle(&mut rx, &mut parked, &mut busy, &w).await;
                if moved {
                    stuck = 0;
                } else {
                    stuck += 1;
                    if stuck > 200 {
                        tokio::time::sleep(Duration::from_millis(25)).await;
                    }
                    if stuck > 1000 {
                        for d in 1..=n {
                            if busy[d] {
                                w.log.lock().unwrap().push(json!({"e": "hang", "c": d}));
                                return std::mem::take(&mut *w.log.lock().unwrap());
                            }
                        }
                    }
                }
            }
        }
        if let Some(o) = item.get("o") {
            let o = fix(o);
            w.log.lock().unwrap().push(json!({"e": "inv", "c": c, "o": o}));
            busy[c] = true;
            let (tx, w2, lru) = (tx.clone(), w.clone(), lru.clone());
            tasks[c] = Some(tokio::spawn(CLIENT.scope(c, async move {
                let v = exec(&w2, &lru, &o).await;
                let _ = tx.send((c, Event::Done(v)));
            })));
        } else if item.get("cancel").is_some() {
            if busy[c] {
                let t = tasks[c].take().unwrap();
                t.abort();
                let gone = t.await.is_err();
                parked[c] = None;
                if gone {
                    busy[c] = false;
                    w.log.lock().unwrap().push(json!({"e": "cancel", "c": c}));
                }
            }
        } else if c > 0 && busy[c] {
            if let Some(tx) = parked[c].take() {
                let _ = tx.send(item.get("fail").is_some());
            }
        }
        settle(&mut rx, &mut parked, &mut busy, &w).await;
        let h = held(&w, &lru);
        let live = if busy.iter().any(|b| *b) { -1 } else { w.live.load(Ordering::SeqCst) };
        if (h.clone(), live) != last {
            w.log.lock().unwrap().push(json!({"e": "held", "res": h, "live": live}));
            last = (h, live);
        }
    }
    let out = std::mem::take(&mut *w.log.lock().unwrap());
    out
}

/// every client a task of its own, with its operations of the schedule
async fn free(script: &Value, limit: usize, reps: usize) -> Vec<Value> {
    let mut all = Vec::new();
    for rep in 0..reps {
        let (w, lru, _) = world(script, limit, None);
        w.jitter.fetch_add(rep * 7717, Ordering::SeqCst);
        let n = script["clients"].as_u64().unwrap() as usize;
        let sched = script["sched"].as_array().unwrap();
        let mut tasks = Vec::new();
        for c in 1..=n {
            let mut ops: Vec<(Value, bool, bool)> = Vec::new();
            for it in sched.iter().filter(|i| i["c"].as_u64() == Some(c as u64)) {
                if let Some(o) = it.get("o") {
                    ops.push((fix(o), false, false));
                } else if let Some(l) = ops.last_mut() {
                    l.1 |= it.get("fail").is_some();
                    l.2 |= it.get("cancel").is_some();
                }
            }
            let (w, lru) = (w.clone(), lru.clone());
            tasks.push(tokio::spawn(async move {
                for (o, fail, cancel) in ops {
                    w.log.lock().unwrap().push(json!({"e": "inv", "c": c, "o": o}));
                    let f = CLIENT.scope(c, OWNFAIL.scope(AtomicBool::new(fail), exec(&w, &lru, &o)));
                    let r = if cancel {
                        let x = w.jitter.fetch_add(1, Ordering::SeqCst) % 5;
                        tokio::time::timeout(Duration::from_micros(150 * x as u64), f).await.ok()
                    } else {
                        match tokio::time::timeout(Duration::from_secs(20), f).await {
                            Ok(r) => Some(r),
                            Err(_) => {
                                w.log.lock().unwrap().push(json!({"e": "hang", "c": c}));
                                return;
                            }
                        }
                    };
                    w.log.lock().unwrap().push(match r {
                        Some(v) => json!({"e": "ret", "c": c, "res": v}),
                        None => json!({"e": "cancel", "c": c}),
                    });
                }
            }));
        }
        for t in tasks {
            let _ = t.await;
        }
        let h = held(&w, &lru);
        let live = w.live.load(Ordering::SeqCst);
        let mut log = w.log.lock().unwrap();
        log.push(json!({"e": "held", "res": h, "live": live}));
        all.extend(std::mem::take(&mut *log));
    }
    all
}

pub fn run(script: &Value, backend: &str, gate: bool, reps: usize) -> Vec<Value> {
    templates();
    let limit: usize = backend.parse().expect("limit");
    if gate {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(gated(script, limit))
    } else {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
        rt.block_on(free(script, limit, reps))
    }
}
