//! Executes operation scripts against the real store and records traces.
use crate::api::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, MutexGuard, RwLock};
use tdb_succinct::TypedDictEntry;
use terminus_store::layer::{IdTriple, Layer, ObjectType};
use terminus_store::storage::{pack_layer_parents, Label, LabelStore, LayerStore};

/// what a script has to do with; may be used by several threads at once
pub struct World {
    /// where merges put their intermediate files
    tmp: tempfile::TempDir,
    pub envs: RwLock<Vec<Env>>,
    sh: Mutex<Shared>,
    pub terms: Terms,
    pub probes: BTreeSet<(String, String, String)>,
    pub nodes: BTreeSet<String>,
    pub values: BTreeSet<String>,
    pub preds: BTreeSet<String>,
}

#[derive(Default)]
pub struct Shared {
    pub names: BTreeMap<i64, Name>,
    pub keys: HashMap<Name, i64>,
    pub handles: HashMap<(usize, i64), Vec<Ly>>,
    pub builders: BTreeMap<i64, (Bu, usize)>,
    pub packs: BTreeMap<i64, Vec<u8>>,
    pub graphs: HashMap<(usize, String), Gr>,
    pub stale: HashMap<(usize, String), Vec<Label>>,
    pub last: HashMap<(usize, i64), (String, String)>,
    /// layers an interrupted operation may have left behind incompletely
    pub lost: BTreeSet<(u64, i64)>,
    /// whether an operation failed: later ones may then refer to what was never made
    pub failed: bool,
}

fn kind(e: &io::Error) -> String {
    format!("{:?}", e.kind())
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn gi(op: &Value, k: &str) -> i64 {
    op.get(k).and_then(|x| x.as_i64()).unwrap_or_else(|| panic!("script error: no {k} in {op}"))
}
fn gs<'a>(op: &'a Value, k: &str) -> &'a str {
    op.get(k).and_then(|x| x.as_str()).unwrap_or_else(|| panic!("script error: no {k} in {op}"))
}
fn t3(t: &IdTriple) -> Value {
    json!([t.subject, t.predicate, t.object])
}
fn t3s(mut v: Vec<IdTriple>) -> Value {
    v.sort();
    Value::Array(v.iter().map(t3).collect())
}

/// outcome of the asynchronous part of an operation
pub enum Out {
    Builder(io::Result<Bu>),
    Commit(bool, io::Result<Option<Ly>>),
    Layer(io::Result<Ly>),
    Name(io::Result<Name>),
    Unit(io::Result<()>),
    Found(io::Result<Option<Ly>>),
    Pack(io::Result<Vec<u8>>),
}

type R = Result<Map<String, Value>, io::Error>;

fn m(pairs: Vec<(&str, Value)>) -> Map<String, Value> {
    pairs.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}

impl World {
    pub fn new(script: &Value, backends: &[Backend]) -> World {
        Self::at(script, backends, None)
    }

    /// with the stores in subdirectories of base, if given
    pub fn at(script: &Value, backends: &[Backend], base: Option<&std::path::Path>) -> World {
        // a script with more stores than the combination names reuses the combination's backends in turn
        let stores = script["ops"]
            .as_array()
            .unwrap()
            .iter()
            .filter_map(|o| o.get("st").and_then(|x| x.as_u64()))
            .max()
            .unwrap_or(0) as usize
            + 1;
        let backends: Vec<Backend> = (0..stores.max(backends.len())).map(|i| backends[i % backends.len()]).collect();
        let backends = &backends[..];
        let mut w = World {
            envs: RwLock::new(
                backends
                    .iter()
                    .enumerate()
                    .map(|(i, b)| match base {
                        None => Env::new(*b),
                        Some(p) => Env::at(*b, p.join(i.to_string())),
                    })
                    .collect(),
            ),
            sh: Default::default(),
            tmp: tempfile::Builder::new().prefix("tshm").tempdir_in(scratch_base()).unwrap(),
            terms: Terms::new(),
            probes: BTreeSet::new(),
            nodes: BTreeSet::new(),
            values: BTreeSet::new(),
            preds: BTreeSet::new(),
        };
        // the term universe of the script
        for op in script["ops"].as_array().unwrap() {
            let lists = ["adds", "rems"].into_iter().filter_map(|f| op.get(f).and_then(|l| l.as_array())).flatten();
            for t in op.get("t").into_iter().chain(lists).filter_map(|t| t.as_array()) {
                let (s, p, o) = (t[0].as_str().unwrap(), t[1].as_str().unwrap(), t[2].as_str().unwrap());
                w.probes.insert((s.into(), p.into(), o.into()));
                w.nodes.insert(s.into());
                w.preds.insert(p.into());
                if o.starts_with("n:") {
                    w.nodes.insert(o.into());
                } else {
                    w.values.insert(o.into());
                }
                w.terms.object(o);
            }
        }
        // things nobody adds: the same text as another kind of term, and junk
        let mut extra_n = vec!["n:".to_string(), "n:~none".to_string()];
        let mut extra_v = vec!["s:~none".to_string()];
        for n in w.nodes.iter().take(3) {
            extra_v.push(format!("s:{}", &n[2..]));
        }
        for v in w.values.iter().filter(|v| v.starts_with("s:")).take(3) {
            extra_n.push(format!("n:{}", &v[2..]));
        }
        w.nodes.extend(extra_n);
        for v in &extra_v {
            w.terms.object(v);
        }
        w.values.extend(extra_v);
        w.preds.insert("~none".into());
        if let Some(n) = w.nodes.iter().next().cloned() {
            w.preds.insert(n[2..].to_string());
        }
        w
    }

    pub fn sh(&self) -> MutexGuard<'_, Shared> {
        self.sh.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn st(&self, st: usize) -> St {
        self.envs.read().unwrap()[st].o.st.clone()
    }
    fn labels(&self, st: usize) -> Option<Arc<dyn LabelStore>> {
        self.envs.read().unwrap()[st].o.labels.clone()
    }
    fn layers(&self, st: usize) -> Option<Arc<dyn LayerStore>> {
        self.envs.read().unwrap()[st].o.layers.clone()
    }
    pub fn nm(&self, k: i64) -> Name {
        let n = self.sh().names.get(&k).copied();
        n.unwrap_or_else(|| panic!("script error: unknown layer key {k}"))
    }
    pub fn key(&self, n: Name) -> i64 {
        self.sh().keys.get(&n).copied().unwrap_or(-1)
    }
    pub fn register(&self, k: i64, n: Name) {
        let mut sh = self.sh();
        sh.names.insert(k, n);
        sh.keys.insert(n, k);
    }
    fn hold(&self, st: usize, k: i64, l: Ly) {
        self.sh().handles.entry((st, k)).or_default().push(l);
    }
    pub fn builder(&self, b: i64) -> (Bu, usize) {
        let b = self.sh().builders.get(&b).cloned();
        b.expect("script error: builder")
    }
    pub fn handle(&self, st: usize, k: i64) -> io::Result<Ly> {
        if let Some(h) = self.sh().handles.get(&(st, k)).and_then(|v| v.first()) {
            return Ok(h.clone());
        }
        let n = self.nm(k);
        match self.st(st).get(n)? {
            Some(l) => {
                self.hold(st, k, l.clone());
                Ok(l)
            }
            None => Err(io::Error::new(io::ErrorKind::NotFound, "harness: layer not found")),
        }
    }
    fn graph(&self, st: usize, n: &str) -> io::Result<Gr> {
        if let Some(g) = self.sh().graphs.get(&(st, n.to_string())) {
            return Ok(g.clone());
        }
        match self.st(st).open(n)? {
            Some(g) => {
                self.sh().graphs.insert((st, n.to_string()), g.clone());
                Ok(g)
            }
            None => Err(io::Error::new(io::ErrorKind::NotFound, "harness: no such database")),
        }
    }
    fn drop_handles(&self) {
        let mut sh = self.sh();
        let (h, g) = (std::mem::take(&mut sh.handles), std::mem::take(&mut sh.graphs));
        drop(sh);
        drop((h, g));
    }

    /// the asynchronous part of an operation by itself, where there is one
    pub fn future(&self, op: &Value) -> Option<std::pin::Pin<Box<dyn Future<Output = Out>>>> {
        let st = op.get("st").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
        let St::A(s) = self.st(st) else { return None };
        let k = |f: &str| op.get(f).and_then(|x| x.as_i64()).unwrap_or(0);
        let lookup = |f: &str| {
            let (s, k) = (s.clone(), k(f));
            let held = self.sh().handles.get(&(st, k)).and_then(|v| v.first()).cloned();
            let n = self.nm(k);
            async move {
                match held {
                    Some(Ly::A(l)) => Ok(l),
                    _ => s.get_layer_from_id(n).await?.ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "harness: layer not found")),
                }
            }
        };
        let names = || op["ls"].as_array().unwrap().iter().map(|x| self.nm(x.as_i64().unwrap())).collect::<Vec<Name>>();
        let async_builder = || match self.builder(k("b")).0 {
            Bu::A(b) => b,
            _ => unreachable!(),
        };
        Some(match gs(op, "op") {
            "base" => Box::pin(async move { Out::Builder(s.create_base_layer().await.map(Bu::A)) }),
            "child" => {
                let l = lookup("l");
                Box::pin(async move {
                    Out::Builder(match l.await {
                        Ok(l) => l.open_write().await.map(Bu::A),
                        Err(e) => Err(e),
                    })
                })
            }
            "delta" => {
                let (l, b) = (lookup("l"), async_builder());
                Box::pin(async move {
                    Out::Unit(match l.await {
                        Ok(l) => b.apply_delta(&l).await,
                        Err(e) => Err(e),
                    })
                })
            }
            "commit" => {
                let b = async_builder();
                let noload = op.get("noload").and_then(|x| x.as_bool()).unwrap_or(false);
                Box::pin(async move {
                    let was = b.committed();
                    Out::Commit(was, if noload { b.commit_no_load().await.map(|_| None) } else { b.commit().await.map(|l| Some(Ly::A(l))) })
                })
            }
            "squash" => {
                let l = lookup("l");
                Box::pin(async move {
                    Out::Layer(match l.await {
                        Ok(l) => l.squash().await.map(Ly::A),
                        Err(e) => Err(e),
                    })
                })
            }
            "squash_upto" => {
                let (l, a) = (lookup("l"), lookup("a"));
                Box::pin(async move {
                    Out::Layer(match (l.await, a.await) {
                        (Ok(l), Ok(a)) => l.squash_upto(&a).await.map(Ly::A),
                        (Err(e), _) | (_, Err(e)) => Err(e),
                    })
                })
            }
            "merge" => {
                let ls = names();
                let tmp = self.tmp.path().to_path_buf();
                Box::pin(async move {
                    Out::Name(s.merge_base_layers(&ls, &tmp).await)
                })
            }
            "rollup" => {
                let l = lookup("l");
                Box::pin(async move {
                    Out::Unit(match l.await {
                        Ok(l) => l.rollup().await,
                        Err(e) => Err(e),
                    })
                })
            }
            x @ ("rollup_upto" | "irollup_upto") => {
                let (l, a, precise) = (lookup("l"), lookup("a"), x == "rollup_upto");
                Box::pin(async move {
                    Out::Unit(match (l.await, a.await) {
                        (Ok(l), Ok(a)) if precise => l.rollup_upto(&a).await,
                        (Ok(l), Ok(a)) => l.imprecise_rollup_upto(&a).await,
                        (Err(e), _) | (_, Err(e)) => Err(e),
                    })
                })
            }
            "obs" if !op.get("old").and_then(|x| x.as_bool()).unwrap_or(false) => {
                let n = self.nm(k("l"));
                Box::pin(async move { Out::Found(s.get_layer_from_id(n).await.map(|l| l.map(Ly::A))) })
            }
            "export" => {
                let ls = names();
                Box::pin(async move { Out::Pack(s.export_layers(Box::new(ls.into_iter())).await) })
            }
            "import" => {
                let ls = names();
                let pack = self.sh().packs.get(&k("x")).cloned().expect("script error: pack");
                Box::pin(async move { Out::Unit(s.import_layers(&pack, Box::new(ls.into_iter())).await) })
            }
            _ => return None,
        })
    }

    /// one op; returns the logged result fields
    /// (pre: what its asynchronous part came to, if that was run already)
    pub fn exec(&self, op: &Value, pre: Option<Out>) -> R {
        let st = op.get("st").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
        match gs(op, "op") {
            "base" => {
                let b = match pre {
                    Some(Out::Builder(b)) => b?,
                    _ => self.st(st).base()?,
                };
                let bad = b.parent().is_some();
                self.sh().builders.insert(gi(op, "b"), (b, st));
                Ok(m(vec![("bad", json!(bad))]))
            }
            "child" => {
                let b = match pre {
                    Some(Out::Builder(b)) => b?,
                    _ => self.handle(st, gi(op, "l"))?.open_write()?,
                };
                let par = b.parent().map(|p| self.key(p.name())).unwrap_or(0);
                self.sh().builders.insert(gi(op, "b"), (b, st));
                Ok(m(vec![("bad", json!(par != gi(op, "l")))]))
            }
            "add" | "rem" => {
                let add = gs(op, "op") == "add";
                let t = op["t"].as_array().unwrap();
                let vt = self.terms.triple(
                    t[0].as_str().unwrap(),
                    t[1].as_str().unwrap(),
                    t[2].as_str().unwrap(),
                );
                let (b, _) = self.builder(gi(op, "b"));
                let mut form = "val";
                let mut idt = None;
                if op.get("form").and_then(|x| x.as_str()) == Some("id") {
                    if let Some(p) = b.parent() {
                        idt = p.value_triple_to_id(&vt);
                    }
                }
                match idt {
                    Some(t) => {
                        form = "id";
                        if add {
                            b.add_id(t)?
                        } else {
                            b.rem_id(t)?
                        }
                    }
                    None => {
                        if add {
                            b.add(vt)?
                        } else {
                            b.rem(vt)?
                        }
                    }
                }
                Ok(m(vec![("form", json!(form))]))
            }
            "many" => {
                // as many requests at once, by string and by id alternately
                let mut n = 0;
                for (what, l) in [("add", &op["adds"]), ("rem", &op["rems"])] {
                    for t in l.as_array().unwrap() {
                        n += 1;
                        self.exec(&json!({"op": what, "b": op["b"], "t": t, "form": if n % 3 == 0 { "id" } else { "val" }}), None)?;
                    }
                }
                Ok(m(vec![]))
            }
            "delta" if pre.is_some() => {
                if let Some(Out::Unit(r)) = pre {
                    r?
                }
                Ok(m(vec![]))
            }
            "delta" | "diff" => {
                let l = self.handle(st, gi(op, "l"))?;
                let (b, _) = self.builder(gi(op, "b"));
                if gs(op, "op") == "delta" {
                    b.apply_delta(&l)?
                } else {
                    b.apply_diff(&l)?
                }
                Ok(m(vec![]))
            }
            "commit" => {
                let (b, bst) = self.builder(gi(op, "b"));
                let k = gi(op, "l");
                let noload = op.get("noload").and_then(|x| x.as_bool()).unwrap_or(false);
                let name = b.name();
                let was = b.committed();
                let (was, r) = match pre {
                    Some(Out::Commit(was, r)) => (was, r),
                    _ if noload => (was, b.commit_no_load().map(|_| None)),
                    _ => (was, b.commit().map(Some)),
                };
                let now = b.committed();
                match r {
                    Ok(l) => {
                        self.register(k, name);
                        let mut bad = false;
                        if let Some(l) = l {
                            bad = l.name() != name;
                            self.hold(bst, k, l);
                        }
                        let mut r = m(vec![("was", json!(was)), ("now", json!(now)), ("bad", json!(bad))]);
                        if !op.get("noobs").is_some() {
                            r.insert("obs".into(), self.observe(bst, k, false));
                        }
                        Ok(r)
                    }
                    Err(e) => Ok(m(vec![
                        ("r", json!("err")),
                        ("kind", json!(kind(&e))),
                        ("was", json!(was)),
                        ("now", json!(now)),
                        ("bad", json!(false)),
                    ])),
                }
            }
            "bname" => {
                // looks up the name of a builder that was not committed
                let (b, bst) = self.builder(gi(op, "b"));
                let found = match self.st(bst).get(b.name()) {
                    Ok(Some(_)) => "found",
                    Ok(None) => "none",
                    Err(_) => "err",
                };
                Ok(m(vec![("found", json!(found)), ("committed", json!(b.committed()))]))
            }
            "dropb" => {
                let b = self.sh().builders.remove(&gi(op, "b"));
                drop(b);
                Ok(m(vec![]))
            }
            "squash" | "squash_upto" => {
                let n = match pre {
                    Some(Out::Layer(n)) => n?,
                    _ if gs(op, "op") == "squash" => self.handle(st, gi(op, "l"))?.squash()?,
                    _ => {
                        let l = self.handle(st, gi(op, "l"))?;
                        let a = self.handle(st, gi(op, "a"))?;
                        l.squash_upto(&a)?
                    }
                };
                let k = gi(op, "n");
                let fresh = !self.sh().keys.contains_key(&n.name());
                self.register(k, n.name());
                self.hold(st, k, n);
                let mut r = m(vec![("fresh", json!(fresh))]);
                if op.get("noobs").is_none() {
                    r.insert("obs".into(), self.observe(st, k, false));
                }
                Ok(r)
            }
            "merge" => {
                let ls: Vec<Name> = op["ls"].as_array().unwrap().iter().map(|x| self.nm(x.as_i64().unwrap())).collect();
                let n = match pre {
                    Some(Out::Name(n)) => n?,
                    _ => {
                        self.st(st).merge(&ls, self.tmp.path())?
                    }
                };
                let k = gi(op, "n");
                let fresh = !self.sh().keys.contains_key(&n);
                self.register(k, n);
                let mut r = m(vec![("fresh", json!(fresh))]);
                if op.get("noobs").is_none() {
                    r.insert("obs".into(), self.observe(st, k, false));
                }
                Ok(r)
            }
            "rollup" | "rollup_upto" | "irollup_upto" if pre.is_some() => {
                if let Some(Out::Unit(r)) = pre {
                    r?
                }
                Ok(m(vec![]))
            }
            "rollup" => {
                self.handle(st, gi(op, "l"))?.rollup()?;
                Ok(m(vec![]))
            }
            "rollup_upto" | "irollup_upto" => {
                let l = self.handle(st, gi(op, "l"))?;
                let a = self.handle(st, gi(op, "a"))?;
                if gs(op, "op") == "rollup_upto" {
                    l.rollup_upto(&a)?
                } else {
                    l.imprecise_rollup_upto(&a)?
                }
                Ok(m(vec![]))
            }
            "obs" => {
                let k = gi(op, "l");
                let old = op.get("old").and_then(|x| x.as_bool()).unwrap_or(false);
                let o = match pre {
                    Some(Out::Found(Ok(Some(l)))) => self.observe_with(st, k, |_| Ok(Some(l))),
                    Some(Out::Found(r)) => self.observe_with(st, k, |_| r),
                    _ => self.observe(st, k, old),
                };
                Ok(m(vec![("obs", o)]))
            }
            "get" => {
                // existence of a layer in a store
                let n = self.nm(gi(op, "l"));
                let found = self.st(st).get(n)?.is_some();
                Ok(m(vec![("found", json!(found))]))
            }
            "getrandom" => {
                let n = [rand::random(), rand::random(), rand::random(), rand::random(), rand::random()];
                let found = self.st(st).get(n)?.is_some();
                Ok(m(vec![("found", json!(found))]))
            }
            "drop" => {
                let h = self.sh().handles.remove(&(st, gi(op, "l")));
                drop(h);
                Ok(m(vec![]))
            }
            "dropall" => {
                self.drop_handles();
                Ok(m(vec![]))
            }
            "reopen" => {
                self.drop_handles();
                {
                    let mut sh = self.sh();
                    sh.builders.clear();
                    sh.stale.clear();
                }
                for e in self.envs.write().unwrap().iter_mut() {
                    e.reopen();
                }
                Ok(m(vec![]))
            }
            "layers" => {
                let ls = match self.layers(st) {
                    None => return Ok(m(vec![("skip", json!(true))])),
                    Some(l) => l,
                };
                let names = bo(ls.layers())?;
                let n = names.len();
                let set: BTreeSet<Name> = names.into_iter().collect();
                let mut ks: Vec<i64> = set.iter().map(|n| self.key(*n)).collect();
                ks.sort();
                let known: Vec<i64> = ks.iter().copied().filter(|k| *k > 0 && !self.sh().lost.contains(&(st as u64, *k))).collect();
                Ok(m(vec![("keys", json!(known)), ("dups", json!(n - set.len()))]))
            }
            "ancestor" => {
                let ls = match self.layers(st) {
                    None => return Ok(m(vec![("skip", json!(true))])),
                    Some(l) => l,
                };
                let r = bo(ls.layer_is_ancestor_of(self.nm(gi(op, "l")), self.nm(gi(op, "a"))))?;
                Ok(m(vec![("yes", json!(r))]))
            }
            "ancestors" => {
                let ls = match self.layers(st) {
                    None => return Ok(m(vec![("skip", json!(true))])),
                    Some(l) => l,
                };
                let ks: Vec<i64> = op["ls"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                let mut anc = Vec::new();
                for l in &ks {
                    for a in &ks {
                        if bo(ls.layer_is_ancestor_of(self.nm(*l), self.nm(*a)))? {
                            anc.push(vec![*l, *a]);
                        }
                    }
                }
                Ok(m(vec![("anc", json!(anc))]))
            }
            "lstore" => {
                // the layer store beneath the store: history, counts and net changes, read from the stored layers
                let ls = match self.layers(st) {
                    None => return Ok(m(vec![("skip", json!(true))])),
                    Some(l) => l,
                };
                let k = gi(op, "l");
                let a = op.get("a").and_then(|x| x.as_i64()).unwrap_or(0);
                let n = self.nm(k);
                let keys = |v: Vec<Name>| json!(v.iter().map(|n| self.key(*n)).collect::<Vec<_>>());
                let stack = bo(ls.retrieve_layer_stack_names(n))?;
                let mut cnt = [0u64; 3];
                for x in &stack {
                    cnt[0] += bo(ls.get_node_count(*x))?.unwrap_or(1 << 20);
                    cnt[1] += bo(ls.get_predicate_count(*x))?.unwrap_or(1 << 20);
                    cnt[2] += bo(ls.get_value_count(*x))?.unwrap_or(1 << 20);
                }
                let par = bo(ls.get_layer_parent_name(n))?.map(|n| self.key(n)).unwrap_or(0);
                let ch = |i: terminus_store::layer::InternalTripleStackIterator| {
                    let mut v: Vec<Value> = i
                        .map(|(c, t)| {
                            let c = if c == terminus_store::layer::TripleChange::Addition { 1 } else { 0 };
                            json!([c, t.subject, t.predicate, t.object])
                        })
                        .collect();
                    v.sort_by_key(|x| x.to_string());
                    json!(v)
                };
                let chs = ch(bo(ls.layer_changes(n))?);
                let mut r = m(vec![("par", json!(par)), ("cnt", json!(cnt)), ("ch", chs)]);
                if a != 0 {
                    let up = self.nm(a);
                    r.insert("stku".into(), keys(bo(ls.retrieve_layer_stack_names_upto(n, up))?));
                    r.insert("chu".into(), ch(bo(ls.layer_changes_upto(n, up))?));
                }
                r.insert("stk".into(), keys(stack));
                Ok(r)
            }
            // databases
            "create" => {
                let n = gs(op, "name");
                let g = self.st(st).create(n)?;
                let bad = g.name() != n;
                self.sh().graphs.insert((st, n.to_string()), g);
                Ok(m(vec![("bad", json!(bad))]))
            }
            "open" => {
                let n = gs(op, "name");
                let g = self.st(st).open(n)?;
                let found = g.is_some();
                let bad = g.as_ref().map(|g| g.name() != n).unwrap_or(false);
                if let Some(g) = g {
                    self.sh().graphs.insert((st, n.to_string()), g);
                }
                Ok(m(vec![("found", json!(found)), ("bad", json!(bad))]))
            }
            "delete" => {
                let n = gs(op, "name");
                let r = self.st(st).delete(n)?;
                Ok(m(vec![("yes", json!(r))]))
            }
            "gdelete" => {
                let n = gs(op, "name");
                let g = self.graph(st, n)?;
                g.delete()?;
                Ok(m(vec![]))
            }
            "labels" => {
                let mut v = self.st(st).labels()?;
                v.sort();
                let mut r = m(vec![("names", json!(v))]);
                if let Some(ls) = self.labels(st) {
                    let mut full: Vec<(String, i64, u64)> = bo(ls.labels())?
                        .into_iter()
                        .map(|l| (l.name.clone(), l.layer.map(|n| self.key(n)).unwrap_or(0), l.version))
                        .collect();
                    full.sort();
                    r.insert("full".into(), json!(full));
                }
                Ok(r)
            }
            "head" => {
                let g = self.graph(st, gs(op, "name"))?;
                let (l, v) = g.head_version()?;
                let h = l.map(|l| self.key(l.name())).unwrap_or(0);
                let h2 = g.head()?.map(|l| self.key(l.name())).unwrap_or(0);
                Ok(m(vec![("head", json!(h)), ("head2", json!(h2)), ("version", json!(v))]))
            }
            "sethead" => {
                let g = self.graph(st, gs(op, "name"))?;
                let l = self.handle(st, gi(op, "l"))?;
                Ok(m(vec![("yes", json!(g.set_head(&l)?))]))
            }
            "force" => {
                let g = self.graph(st, gs(op, "name"))?;
                let l = self.handle(st, gi(op, "l"))?;
                g.force_set_head(&l)?;
                Ok(m(vec![]))
            }
            "forcev" => {
                let g = self.graph(st, gs(op, "name"))?;
                let l = self.handle(st, gi(op, "l"))?;
                Ok(m(vec![("yes", json!(g.force_set_head_version(&l, gi(op, "v") as u64)?))]))
            }
            // the label store itself: remember a label value, later set or clear on top of it
            "lget" => {
                let n = gs(op, "name");
                let ls = match self.labels(st) {
                    None => return Ok(m(vec![("skip", json!(true))])),
                    Some(l) => l,
                };
                match bo(ls.get_label(n))? {
                    None => Ok(m(vec![("found", json!(false)), ("head", json!(0)), ("version", json!(0))])),
                    Some(l) => {
                        let r = m(vec![
                            ("found", json!(true)),
                            ("head", json!(l.layer.map(|n| self.key(n)).unwrap_or(0))),
                            ("version", json!(l.version)),
                        ]);
                        self.sh().stale.entry((st, n.to_string())).or_default().push(l);
                        Ok(r)
                    }
                }
            }
            "lset" | "lclear" => {
                let n = gs(op, "name");
                let back = gi(op, "back") as usize;
                let ls = match self.labels(st) {
                    None => return Ok(m(vec![("skip", json!(true))])),
                    Some(l) => l,
                };
                let known = self.sh().stale.get(&(st, n.to_string())).cloned().unwrap_or_default();
                if known.is_empty() {
                    return Ok(m(vec![("skip", json!(true))]));
                }
                let label = known[known.len() - 1 - back.min(known.len() - 1)].clone();
                let layer = if gs(op, "op") == "lset" { Some(self.nm(gi(op, "l"))) } else { None };
                let base = (label.layer.map(|n| self.key(n)).unwrap_or(0), label.version);
                let r = label_set(&ls, &label, layer);
                let mut out = m(vec![("bhead", json!(base.0)), ("bversion", json!(base.1))]);
                match r {
                    Ok(Some(l)) => {
                        out.insert("yes".into(), json!(true));
                        out.insert("head".into(), json!(l.layer.map(|n| self.key(n)).unwrap_or(0)));
                        out.insert("version".into(), json!(l.version));
                        out.insert("bad".into(), json!(l.name != n));
                        self.sh().stale.entry((st, n.to_string())).or_default().push(l);
                    }
                    Ok(None) => {
                        out.insert("yes".into(), json!(false));
                    }
                    Err(e) => {
                        out.insert("r".into(), json!("err"));
                        out.insert("kind".into(), json!(kind(&e)));
                    }
                }
                Ok(out)
            }
            // packs
            "export" => {
                let ls: Vec<Name> = op["ls"].as_array().unwrap().iter().map(|x| self.nm(x.as_i64().unwrap())).collect();
                let p = match pre {
                    Some(Out::Pack(p)) => p?,
                    _ => self.st(st).export(ls)?,
                };
                let parents = match pack_layer_parents(io::Cursor::new(&p)) {
                    Err(_) => json!([[-1, -1]]),
                    Ok(map) => {
                        let mut v: Vec<(i64, i64)> = map
                            .into_iter()
                            .map(|(k, p)| (self.key(k), p.map(|p| self.key(p)).unwrap_or(0)))
                            .collect();
                        v.sort();
                        json!(v)
                    }
                };
                self.sh().packs.insert(gi(op, "x"), p);
                Ok(m(vec![("parents", parents)]))
            }
            "import" => {
                let ls: Vec<Name> = op["ls"].as_array().unwrap().iter().map(|x| self.nm(x.as_i64().unwrap())).collect();
                let pack = self.sh().packs.get(&gi(op, "x")).cloned();
                let pack = pack.expect("script error: pack");
                match pre {
                    Some(Out::Unit(r)) => r?,
                    _ => self.st(st).import(&pack, ls)?,
                }
                Ok(m(vec![]))
            }
            o => panic!("script error: unknown op {o}"),
        }
    }

    /// full observation of a layer
    pub fn observe(&self, st: usize, k: i64, old: bool) -> Value {
        self.observe_with(st, k, |n| if old { self.handle(st, k).map(Some) } else { self.st(st).get(n) })
    }

    fn observe_with(&self, st: usize, k: i64, get: impl FnOnce(Name) -> io::Result<Option<Ly>>) -> Value {
        let r = catch_unwind(AssertUnwindSafe(|| -> io::Result<Value> {
            let n = self.nm(k);
            let l = match get(n)? {
                Some(l) => l,
                None => return Ok(json!({"err": "none"})),
            };
            let mut sh = self.sh();
            let h = sh.handles.entry((st, k)).or_default();
            h.push(l.clone());
            let old = if h.len() > 4 { Some(h.remove(1)) } else { None };
            drop(sh);
            drop(old);
            if l.name() != n {
                return Ok(json!({"err": "wrong name"}));
            }
            Ok(self.observe_layer(&l))
        }));
        let v = match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => json!({"err": format!("error {:?}: {}", e.kind(), e)}),
            Err(p) => json!({"err": format!("panic: {}", panic_msg(p))}),
        };
        let mut v = v;
        v["at"] = json!([st, k]);
        v
    }

    /// what an observation says that the previous one of the same layer in the same store did not
    pub fn compress(&self, ev: &mut Value) {
        let Some(v) = ev.get_mut("obs") else { return };
        let at = v.as_object_mut().unwrap().remove("at").unwrap();
        let at = (at[0].as_u64().unwrap() as usize, at[1].as_i64().unwrap());
        // which single object single_triple_sp picks is not fixed; everything else has to stay
        let s = v.to_string();
        let o = v.as_object_mut().unwrap();
        let si = o.remove("si");
        let rest = Value::Object(o.clone()).to_string();
        if let Some(si) = si {
            o.insert("si".into(), si);
        }
        let mut sh = self.sh();
        match sh.last.get(&at) {
            Some((f, _)) if *f == s => {
                *v = json!({"same": true});
                return;
            }
            Some((_, r)) if *r == rest => {
                o.insert("eq".into(), json!(true));
            }
            _ => {}
        }
        sh.last.insert(at, (s, rest));
    }

    pub fn observe_layer(&self, h: &Ly) -> Value {
        let l = h.l();
        let mut o = Map::new();
        let nvc = l.node_and_value_count() as u64;
        let pc = l.predicate_count() as u64;
        o.insert("nvc".into(), json!(nvc));
        o.insert("pc".into(), json!(pc));
        o.insert("par".into(), json!(l.parent_name().map(|n| self.key(n)).unwrap_or(0)));
        o.insert(
            "par2".into(),
            match h.parent() {
                Ok(None) => json!(0),
                Ok(Some(p)) => json!(self.key(p.name())),
                Err(_) => json!(-2),
            },
        );
        match h.stack_names() {
            Ok(v) => o.insert("stk".into(), json!(v.iter().map(|n| self.key(*n)).collect::<Vec<_>>())),
            Err(_) => o.insert("stk".into(), json!([-2])),
        };
        // dictionaries
        let rend = |i: u64| l.id_object(i).map(|x| self.terms.render(&x)).unwrap_or_default();
        let subj = |i: u64| l.id_subject(i).map(|x| format!("n:{x}")).unwrap_or_default();
        let isn = |i: u64| match l.id_object_is_node(i) {
            Some(true) => 1,
            Some(false) => 0,
            None => 2,
        };
        let lim = nvc.min(100_000);
        o.insert("so".into(), json!((1..=lim).map(rend).collect::<Vec<_>>()));
        o.insert("sj".into(), json!((1..=lim).map(subj).collect::<Vec<_>>()));
        o.insert("nd".into(), json!((1..=lim).map(isn).collect::<Vec<_>>()));
        o.insert("ps".into(), json!((1..=pc.min(100_000)).map(|i| l.id_predicate(i).unwrap_or_default()).collect::<Vec<_>>()));
        let mut oob: Vec<String> = Vec::new();
        for i in [0, nvc + 1, nvc + 2, nvc + 17, 1 << 40] {
            for (w, x) in [("obj", rend(i)), ("subj", subj(i))] {
                if !x.is_empty() {
                    oob.push(format!("{w} {i} {x}"));
                }
            }
            if isn(i) != 2 {
                oob.push(format!("isnode {i}"));
            }
        }
        for i in [0, pc + 1, pc + 2, pc + 17, 1 << 40] {
            if let Some(x) = l.id_predicate(i) {
                oob.push(format!("pred {i} {x}"));
            }
        }
        o.insert("oob".into(), json!(oob));
        let z = |x: Option<u64>| x.map(|x| x.min(1 << 30)).unwrap_or(0);
        o.insert("ls".into(), json!(self.nodes.iter().map(|n| (n.clone(), z(l.subject_id(&n[2..])))).collect::<Vec<_>>()));
        o.insert("lo".into(), json!(self.nodes.iter().map(|n| (n.clone(), z(l.object_node_id(&n[2..])))).collect::<Vec<_>>()));
        o.insert("lv".into(), json!(self.values.iter().map(|v| (v.clone(), z(l.object_value_id(&value_entry(v))))).collect::<Vec<_>>()));
        o.insert("lp".into(), json!(self.preds.iter().map(|p| (p.clone(), z(l.predicate_id(p)))).collect::<Vec<_>>()));
        // triples, by every pattern. A pattern query is logged only where it differs, as a multiset, from triples().
        let mut ts: Vec<IdTriple> = l.triples().collect();
        ts.sort();
        o.insert("t".into(), t3s(ts.clone()));
        let tset: BTreeSet<IdTriple> = ts.iter().copied().collect();
        let cap = 40_000u64;
        let ss: Vec<u64> = (0..=nvc + 2).collect();
        let pp: Vec<u64> = (0..=pc + 2).collect();
        let mut pairs: Vec<(u64, u64)> = Vec::new();
        if (ss.len() * pp.len()) as u64 <= 4_000 {
            for s in &ss {
                for p in &pp {
                    pairs.push((*s, *p));
                }
            }
        } else {
            let mut set: BTreeSet<(u64, u64)> = tset.iter().map(|t| (t.subject, t.predicate)).collect();
            for (i, s) in ss.iter().enumerate() {
                for j in 0..3 {
                    set.insert((*s, pp[(i * 7 + j * 3) % pp.len()]));
                }
            }
            pairs.extend(set);
        }
        // "mis" collects results that do not even match the pattern asked for
        let mut mis: Vec<Value> = Vec::new();
        let mut q = Map::new();
        {
            let mut put = |name: &str, mut v: Vec<IdTriple>| {
                v.sort();
                if v != ts {
                    q.insert(name.into(), t3s(v));
                }
            };
            let mut v = Vec::new();
            for s in &ss {
                for t in l.triples_s(*s) {
                    if t.subject != *s {
                        mis.push(json!(["s", s, t3(&t)]));
                    }
                    v.push(t);
                }
            }
            put("s", v);
            let mut v = Vec::new();
            for p in &pp {
                for t in l.triples_p(*p) {
                    if t.predicate != *p {
                        mis.push(json!(["p", p, t3(&t)]));
                    }
                    v.push(t);
                }
            }
            put("p", v);
            let mut v = Vec::new();
            for x in &ss {
                for t in l.triples_o(*x) {
                    if t.object != *x {
                        mis.push(json!(["o", x, t3(&t)]));
                    }
                    v.push(t);
                }
            }
            put("o", v);
            let mut v = Vec::new();
            for (s, p) in &pairs {
                for t in l.triples_sp(*s, *p) {
                    if t.subject != *s || t.predicate != *p {
                        mis.push(json!(["sp", s, p, t3(&t)]));
                    }
                    v.push(t);
                }
            }
            put("sp", v);
            let mut v = Vec::new();
            if nvc * pc * nvc <= cap {
                for s in &ss {
                    for p in &pp {
                        for x in &ss {
                            if l.triple_exists(*s, *p, *x) {
                                v.push(IdTriple::new(*s, *p, *x));
                            }
                        }
                    }
                }
            } else {
                let mut cand = tset.clone();
                for t in &ts {
                    for (a, b, c) in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1)] {
                        cand.insert(IdTriple::new(t.subject + a, t.predicate + b, t.object + c));
                        cand.insert(IdTriple::new(t.subject.saturating_sub(a), t.predicate.saturating_sub(b), t.object.saturating_sub(c)));
                    }
                }
                for t in cand {
                    if l.triple_exists(t.subject, t.predicate, t.object) {
                        v.push(t);
                    }
                }
            }
            put("ex", v);
        }
        o.insert("q".into(), Value::Object(q));
        o.insert("mis".into(), json!(mis));
        let mut si: Vec<IdTriple> = Vec::new();
        for (s, p) in &pairs {
            if let Some(t) = l.single_triple_sp(*s, *p) {
                si.push(t);
            }
        }
        o.insert("si".into(), t3s(si));
        // string existence
        let mut pr = Vec::new();
        for (s, p, x) in &self.probes {
            let vt = terminus_store::ValueTriple {
                subject: s[2..].to_string(),
                predicate: p.clone(),
                object: if let Some(n) = x.strip_prefix("n:") {
                    terminus_store::ObjectType::Node(n.to_string())
                } else {
                    terminus_store::ObjectType::Value(value_entry(x))
                },
            };
            if l.value_triple_exists(&vt) {
                pr.push(json!([s, p, x]));
            }
        }
        o.insert("pr".into(), Value::Array(pr));
        // the remaining ways of asking the same things
        let mut drv: Vec<String> = Vec::new();
        for (s, p, x) in self.probes.iter().take(400) {
            resolving(l, &self.terms.triple(s, p, x), &mut drv);
        }
        let bx = l.clone_boxed();
        if bx.name() != l.name() || bx.parent_name() != l.parent_name() || bx.triple_count() != l.triple_count() || ts.iter().any(|t| !bx.id_triple_exists(*t)) {
            drv.push("clone_boxed".to_string());
        }
        for t in &ts {
            let vt = match (l.id_subject(t.subject), l.id_predicate(t.predicate), l.id_object(t.object)) {
                (Some(subject), Some(predicate), Some(object)) => Some(terminus_store::ValueTriple { subject, predicate, object }),
                _ => None,
            };
            if l.id_triple_to_string(t) != vt {
                drv.push(format!("id_triple_to_string {t:?}"));
            }
            if l.id_triple_exists(*t) != l.triple_exists(t.subject, t.predicate, t.object) {
                drv.push(format!("id_triple_exists {t:?}"));
            }
            let Some(vt) = vt else { continue };
            if l.value_triple_to_id(&vt) != Some(*t) {
                drv.push(format!("value_triple_to_id {t:?}"));
            }
            match l.value_triple_to_partially_resolved(vt).as_resolved() {
                Some(r) if r == *t => {}
                _ => drv.push(format!("value_triple_to_partially_resolved {t:?}")),
            }
        }
        for i in 0..=nvc.min(100_000) + 1 {
            let x = l.id_object(i);
            if l.id_object_is_value(i) != l.id_object_is_node(i).map(|x| !x)
                || match &x {
                    None => l.id_object_node(i).is_some() || l.id_object_value(i).is_some(),
                    Some(terminus_store::ObjectType::Node(n)) => l.id_object_node(i).as_ref() != Some(n),
                    Some(terminus_store::ObjectType::Value(v)) => l.id_object_value(i).as_ref() != Some(v),
                }
            {
                drv.push(format!("id_object {i}"));
            }
        }
        o.insert("drv".into(), json!(drv));
        let c = l.all_counts();
        o.insert(
            "cnt".into(),
            json!([
                l.triple_addition_count() as i64 - l.triple_removal_count() as i64,
                l.triple_count(),
                c.node_count,
                c.predicate_count,
                c.value_count
            ]),
        );
        // deltas
        let mut errs: Vec<String> = Vec::new();
        for (nm, add) in [("ad", true), ("rm", false)] {
            let base = if add { h.additions() } else { h.removals() };
            let mut base: Vec<IdTriple> = match base {
                Ok(i) => i.collect(),
                Err(e) => {
                    errs.push(format!("{nm}: {e}"));
                    continue;
                }
            };
            base.sort();
            o.insert(nm.into(), t3s(base.clone()));
            let bset: BTreeSet<IdTriple> = base.iter().copied().collect();
            let mut dq = Map::new();
            let mut col = |name: &str, it: &mut dyn Iterator<Item = ((u64, u64), io::Result<IdIter>)>, f: &dyn Fn(&IdTriple, (u64, u64)) -> bool, errs: &mut Vec<String>, mis: &mut Vec<Value>| {
                let mut v = Vec::new();
                for (a, r) in it {
                    match r {
                        Err(e) => {
                            errs.push(format!("{nm} {name} {a:?}: {e}"));
                            return;
                        }
                        Ok(i) => {
                            for t in i {
                                if !f(&t, a) {
                                    mis.push(json!([format!("{nm}{name}"), a.0, a.1, t3(&t)]));
                                }
                                v.push(t);
                            }
                        }
                    }
                }
                v.sort();
                if v != base {
                    dq.insert(name.to_string(), t3s(v));
                }
            };
            let mut dmis: Vec<Value> = Vec::new();
            // which ids to ask: all for small layers, those involved plus a spread otherwise
            let (dss, dpp, dsp): (Vec<u64>, Vec<u64>, Vec<(u64, u64)>) = if nvc <= 40 && pc <= 10 {
                (ss.clone(), pp.clone(), pairs.clone())
            } else {
                let mut a: BTreeSet<u64> = bset.iter().flat_map(|t| vec![t.subject, t.object]).collect();
                let step = (nvc / 13).max(1);
                let mut x = 0;
                while x <= nvc + 2 {
                    a.insert(x);
                    x += step;
                }
                let mut sp: BTreeSet<(u64, u64)> = bset.iter().map(|t| (t.subject, t.predicate)).collect();
                for (i, s) in a.iter().enumerate() {
                    sp.insert((*s, pp[i % pp.len()]));
                }
                (a.into_iter().collect(), pp.clone(), sp.into_iter().collect())
            };
            col("s", &mut dss.iter().map(|s| ((*s, 0), if add { h.additions_s(*s) } else { h.removals_s(*s) })), &|t, a| t.subject == a.0, &mut errs, &mut dmis);
            col("p", &mut dpp.iter().map(|s| ((*s, 0), if add { h.additions_p(*s) } else { h.removals_p(*s) })), &|t, a| t.predicate == a.0, &mut errs, &mut dmis);
            col("o", &mut dss.iter().map(|s| ((*s, 0), if add { h.additions_o(*s) } else { h.removals_o(*s) })), &|t, a| t.object == a.0, &mut errs, &mut dmis);
            col("sp", &mut dsp.iter().map(|s| (*s, if add { h.additions_sp(s.0, s.1) } else { h.removals_sp(s.0, s.1) })), &|t, a| (t.subject, t.predicate) == a, &mut errs, &mut dmis);
            // existence: on the delta itself, the layer's triples, and neighbours
            let mut cand: BTreeSet<IdTriple> = bset.clone();
            for t in bset.iter().chain(tset.iter().take(60)) {
                cand.insert(*t);
                cand.insert(IdTriple::new(t.subject, t.predicate, t.object + 1));
                cand.insert(IdTriple::new(t.subject, t.predicate + 1, t.object));
                cand.insert(IdTriple::new(t.subject + 1, t.predicate, t.object));
                cand.insert(IdTriple::new(t.subject, t.predicate, t.object - 1));
                cand.insert(IdTriple::new(t.subject, t.predicate - 1, t.object));
                cand.insert(IdTriple::new(t.subject - 1, t.predicate, t.object));
            }
            let mut v = Vec::new();
            for t in cand {
                let r = if add {
                    h.addition_exists(t.subject, t.predicate, t.object)
                } else {
                    h.removal_exists(t.subject, t.predicate, t.object)
                };
                match r {
                    Ok(true) => v.push(t),
                    Ok(false) => {}
                    Err(e) => {
                        errs.push(format!("{nm} ex: {e}"));
                        break;
                    }
                }
            }
            v.sort();
            if v != base {
                dq.insert("ex".into(), t3s(v));
            }
            o.insert(format!("{nm}q"), Value::Object(dq));
            o.insert(format!("{nm}mis"), json!(dmis));
            match if add { h.addition_count() } else { h.removal_count() } {
                Ok(c) => {
                    o.insert(format!("{nm}c"), json!(c));
                }
                Err(e) => errs.push(format!("{nm}c: {e}")),
            }
        }
        o.insert("errs".into(), json!(errs));
        Value::Object(o)
    }
}

/// executes one op, as an event; the second value tells whether things can go on
pub fn event(w: &World, op: &Value) -> (Value, bool) {
    let (mut ev, go) = event_raw(w, op, None);
    w.compress(&mut ev);
    (ev, go)
}

pub fn event_raw(w: &World, op: &Value, pre: Option<Out>) -> (Value, bool) {
    let mut ev = op.as_object().unwrap().clone();
    ev.remove("noobs");
    match catch_unwind(AssertUnwindSafe(|| w.exec(op, pre))) {
        Ok(Ok(r)) => {
            ev.insert("r".into(), json!("ok"));
            ev.extend(r);
            (Value::Object(ev), true)
        }
        Ok(Err(e)) => {
            w.sh().failed = true;
            ev.insert("r".into(), json!("err"));
            ev.insert("kind".into(), json!(kind(&e)));
            ev.insert("msg".into(), json!(e.to_string()));
            (Value::Object(ev), true)
        }
        Err(p) => {
            let msg = panic_msg(p);
            if msg.starts_with("script error") && w.sh().failed {
                ev.insert("r".into(), json!("ok"));
                ev.insert("skip".into(), json!(true));
                return (Value::Object(ev), false);
            }
            if msg.starts_with("script error") {
                eprintln!("{msg}");
                std::process::exit(3);
            }
            ev.insert("r".into(), json!("panic"));
            ev.insert("msg".into(), json!(msg));
            (Value::Object(ev), false)
        }
    }
}

/// run one script on one backend combination; returns the event lines
pub fn run_script(script: &Value, backends: &[Backend]) -> Vec<Value> {
    let w = World::new(script, backends);
    let mut out = Vec::new();
    for (i, op) in script["ops"].as_array().unwrap().iter().enumerate() {
        crate::progress(script, i);
        let (ev, go) = event(&w, op);
        out.push(ev);
        if !go {
            break;
        }
    }
    // dropping may panic too; keep that out of the harness
    let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
    out
}

/// turning a triple's terms into ids, those the layer knows by the layer and the others by maps, is asking for them one by one
fn resolving(l: &dyn Layer, t: &terminus_store::ValueTriple, drv: &mut Vec<String>) {
    use terminus_store::layer::PossiblyResolved::{Resolved, Unresolved};
    let s = l.subject_id(&t.subject);
    let p = l.predicate_id(&t.predicate);
    let o = match &t.object {
        ObjectType::Node(n) => l.object_node_id(n),
        ObjectType::Value(v) => l.object_value_id(v),
    };
    let mut r = l.value_triple_to_partially_resolved(t.clone());
    let right = match (&r.subject, s) {
        (Resolved(a), Some(b)) => *a == b,
        (Unresolved(a), None) => *a == t.subject,
        _ => false,
    } && match (&r.predicate, p) {
        (Resolved(a), Some(b)) => *a == b,
        (Unresolved(a), None) => *a == t.predicate,
        _ => false,
    } && match (&r.object, o) {
        (Resolved(a), Some(b)) => *a == b,
        (Unresolved(a), None) => *a == t.object,
        _ => false,
    };
    let (big, none) = (1u64 << 40, Default::default());
    let (mut nm, mut pm, mut vm): (HashMap<String, u64>, HashMap<String, u64>, HashMap<TypedDictEntry, u64>) = Default::default();
    // a node that is subject and object has one id
    let so = |n: &String| l.subject_id(n).unwrap_or(big + if *n == t.subject { 1 } else { 2 });
    nm.insert(t.subject.clone(), so(&t.subject));
    pm.insert(t.predicate.clone(), p.unwrap_or(big + 3));
    let oid = match &t.object {
        ObjectType::Node(n) => {
            nm.insert(n.clone(), so(n));
            so(n)
        }
        ObjectType::Value(v) => {
            vm.insert(v.clone(), o.unwrap_or(big + 4));
            o.unwrap_or(big + 4)
        }
    };
    let want = IdTriple::new(so(&t.subject), p.unwrap_or(big + 3), oid);
    let all = s.is_some() && p.is_some() && o.is_some();
    let un = t.clone().to_unresolved();
    let mut wrong = !right
        || r.resolve_with(&nm, &pm, &vm) != Some(want)
        || un.resolve_with(&nm, &pm, &vm) != Some(want)
        || un.resolve_with(&none, &pm, &vm).is_some()
        || un.resolve_with(&nm, &none, &vm).is_some()
        || un.as_resolved().is_some()
        || r.as_resolved() != if all { Some(want) } else { None }
        || l.value_triple_to_id(t) != if all { Some(want) } else { None }
        || want.to_resolved().as_resolved() != Some(want);
    r.make_resolved_or_zero();
    wrong |= r.as_resolved() != Some(if all { want } else { IdTriple::new(0, 0, 0) });
    let (n, v) = (t.object.node_ref(), t.object.value_ref());
    wrong |= match &t.object {
        ObjectType::Node(x) => n != Some(x) || v.is_some() || t.object.clone().node().as_ref() != Some(x) || t.object.clone().value().is_some(),
        ObjectType::Value(x) => v != Some(x) || n.is_some() || t.object.clone().value().as_ref() != Some(x) || t.object.clone().node().is_some(),
    };
    if wrong {
        drv.push(format!("resolving {t:?}"));
    }
}

/// what two runs have to agree on: everything but error texts
pub fn comparable(ev: &Value) -> Value {
    let mut e = ev.as_object().unwrap().clone();
    e.remove("kind");
    e.remove("msg");
    e.remove("skip");
    // which object single_triple_sp picks is up to the backend (that it is a right one is judged elsewhere)
    if let Some(o) = e.get_mut("obs").and_then(|o| o.as_object_mut()) {
        if o.remove("eq").is_some() {
            *o = json!({"same": true}).as_object().unwrap().clone();
        }
        o.remove("si");
    }
    Value::Object(e)
}
