//! Uniform blocking wrappers over the async and sync store APIs and over the backends.
use std::collections::HashMap;
use std::future::Future;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use tdb_succinct::TypedDictEntry;
use terminus_store::layer::{IdTriple, Layer, ObjectType, ValueTriple};
use terminus_store::storage::archive::{
    ArchiveLayerStore, DirectoryArchiveBackend, LruArchiveBackend,
};
use terminus_store::storage::directory::{
    CachedDirectoryLabelStore, DirectoryLabelStore, DirectoryLayerStore,
};
use terminus_store::storage::memory::{MemoryLabelStore, MemoryLayerStore};
use terminus_store::storage::{
    CachedLayerStore, Label, LabelStore, LayerStore, LockingHashMapLayerCache,
};
use terminus_store::store::sync::*;
use terminus_store::store::*;

pub use crate::par::Slow;

pub type Name = [u32; 5];

thread_local! { static RT: std::cell::Cell<Option<&'static tokio::runtime::Runtime>> = std::cell::Cell::new(None); }

/// lets this thread use the runtime of another
pub fn set_rt(r: &'static tokio::runtime::Runtime) {
    RT.with(|c| c.set(Some(r)));
}

pub fn rt() -> &'static tokio::runtime::Runtime {
    RT.with(|c| match c.get() {
        Some(r) => r,
        None => {
            let r: &'static _ = Box::leak(Box::new(
                tokio::runtime::Builder::new_multi_thread()
                    .worker_threads(2)
                    .enable_all()
                    .build()
                    .unwrap(),
            ));
            c.set(Some(r));
            r
        }
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Backend {
    Mem,
    MemNc,
    Dir,
    DirNc,
    CDir,
    Arc,
    Arc0,
    Raw,
    SMem,
    OMem,
    OSMem,
    SDir,
    SArc,
    SRaw,
    PMem,
    PMemNc,
    PDir,
    PDirNc,
    PArc,
    PRaw,
}

impl Backend {
    pub fn parse(s: &str) -> Backend {
        match s {
            "mem" => Backend::Mem,
            "memnc" => Backend::MemNc,
            "dir" => Backend::Dir,
            "dirnc" => Backend::DirNc,
            "cdir" => Backend::CDir,
            "arc" => Backend::Arc,
            "arc0" => Backend::Arc0,
            "raw" => Backend::Raw,
            "smem" => Backend::SMem,
            "omem" => Backend::OMem,
            "osmem" => Backend::OSMem,
            "sdir" => Backend::SDir,
            "sarc" => Backend::SArc,
            "sraw" => Backend::SRaw,
            "pmem" => Backend::PMem,
            "pmemnc" => Backend::PMemNc,
            "pdir" => Backend::PDir,
            "pdirnc" => Backend::PDirNc,
            "parc" => Backend::PArc,
            "praw" => Backend::PRaw,
            _ => panic!("unknown backend {s}"),
        }
    }
    pub fn persistent(self) -> bool {
        !matches!(self, Backend::Mem | Backend::MemNc | Backend::SMem | Backend::OMem | Backend::OSMem | Backend::PMem | Backend::PMemNc)
    }
}

/// a label store shared between a Store and the harness
#[derive(Clone)]
pub struct SharedLabels(pub Arc<dyn LabelStore>);

#[async_trait::async_trait]
impl LabelStore for SharedLabels {
    async fn labels(&self) -> io::Result<Vec<Label>> {
        self.0.labels().await
    }
    async fn create_label(&self, name: &str) -> io::Result<Label> {
        self.0.create_label(name).await
    }
    async fn get_label(&self, name: &str) -> io::Result<Option<Label>> {
        self.0.get_label(name).await
    }
    async fn set_label_option(&self, label: &Label, layer: Option<Name>) -> io::Result<Option<Label>> {
        self.0.set_label_option(label, layer).await
    }
    async fn delete_label(&self, name: &str) -> io::Result<bool> {
        self.0.delete_label(name).await
    }
}

#[derive(Clone)]
pub enum St {
    A(Store),
    S(SyncStore),
}
#[derive(Clone)]
pub enum Ly {
    A(StoreLayer),
    S(SyncStoreLayer),
}
#[derive(Clone)]
pub enum Bu {
    A(StoreLayerBuilder),
    S(SyncStoreLayerBuilder),
}
#[derive(Clone)]
pub enum Gr {
    A(NamedGraph),
    S(SyncNamedGraph),
}

pub fn bo<F: Future>(f: F) -> F::Output {
    rt().block_on(f)
}

macro_rules! call {
    ($v:expr, $m:ident ( $($a:expr),* )) => {
        match $v { St::A(x) => bo(x.$m($($a),*)), St::S(x) => x.$m($($a),*) }
    };
}
macro_rules! lcall {
    ($v:expr, $m:ident ( $($a:expr),* )) => {
        match $v { Ly::A(x) => bo(x.$m($($a),*)), Ly::S(x) => x.$m($($a),*) }
    };
}

/// one opened store, with direct access to its layer and label stores
pub struct Opened {
    pub st: St,
    pub labels: Option<Arc<dyn LabelStore>>,
    pub layers: Option<Arc<dyn LayerStore>>,
}

pub struct Env {
    pub backend: Backend,
    pub dir: Option<tempfile::TempDir>,
    pub path: Option<PathBuf>,
    mem: (MemoryLabelStore, MemoryLayerStore),
    pub o: Opened,
}

pub fn scratch_base() -> PathBuf {
    std::env::var("TSH_SCRATCH")
        .map(PathBuf::from)
        .unwrap_or_else(|_| std::env::temp_dir())
}

impl Env {
    pub fn new(backend: Backend) -> Env {
        let dir = if backend.persistent() {
            Some(tempfile::Builder::new().prefix("tsh").tempdir_in(scratch_base()).unwrap())
        } else {
            None
        };
        let mem = (MemoryLabelStore::new(), MemoryLayerStore::new());
        let path = dir.as_ref().map(|d| d.path().to_path_buf());
        let o = Self::open(backend, path.as_deref(), &mem);
        Env { backend, dir, path, mem, o }
    }

    /// a store in a directory that stays
    pub fn at(backend: Backend, path: PathBuf) -> Env {
        std::fs::create_dir_all(&path).unwrap();
        let mem = (MemoryLabelStore::new(), MemoryLayerStore::new());
        let o = Self::open(backend, Some(&path), &mem);
        Env { backend, dir: None, path: Some(path), mem, o }
    }

    pub fn reopen(&mut self) {
        if self.backend.persistent() {
            let o = Self::open(self.backend, self.path.as_deref(), &self.mem);
            self.o = o;
        }
    }

    pub fn open(
        backend: Backend,
        path: Option<&Path>,
        mem: &(MemoryLabelStore, MemoryLayerStore),
    ) -> Opened {
        let p = path.map(|p| p.to_path_buf());
        let raw_labels = |p: &PathBuf| Some(Arc::new(DirectoryLabelStore::new(p.clone())) as Arc<dyn LabelStore>);
        let raw_dir = |p: &PathBuf| Some(Arc::new(DirectoryLayerStore::new(p.clone())) as Arc<dyn LayerStore>);
        let raw_arc = |p: &PathBuf| {
            let b = DirectoryArchiveBackend::new(p.clone());
            Some(Arc::new(ArchiveLayerStore::new(b.clone(), b)) as Arc<dyn LayerStore>)
        };
        let lru_arc = |p: &PathBuf| {
            let b = DirectoryArchiveBackend::new(p.clone());
            let c = LruArchiveBackend::new(b.clone(), b, 1);
            Some(Arc::new(ArchiveLayerStore::new(c.clone(), c)) as Arc<dyn LayerStore>)
        };
        match backend {
            Backend::Mem => Opened {
                st: St::A(Store::new(
                    mem.0.clone(),
                    CachedLayerStore::new(mem.1.clone(), LockingHashMapLayerCache::new()),
                )),
                labels: Some(Arc::new(mem.0.clone())),
                layers: Some(Arc::new(mem.1.clone())),
            },
            Backend::MemNc => Opened {
                st: St::A(Store::new(mem.0.clone(), mem.1.clone())),
                labels: Some(Arc::new(mem.0.clone())),
                layers: Some(Arc::new(CachedLayerStore::new(
                    mem.1.clone(),
                    LockingHashMapLayerCache::new(),
                ))),
            },
            Backend::SMem => Opened {
                st: St::S(SyncStore::wrap(Store::new(
                    mem.0.clone(),
                    CachedLayerStore::new(mem.1.clone(), LockingHashMapLayerCache::new()),
                ))),
                labels: Some(Arc::new(mem.0.clone())),
                layers: Some(Arc::new(mem.1.clone())),
            },
            // stores that take their time
            Backend::PMem => Opened {
                st: St::A(Store::new(
                    mem.0.clone(),
                    CachedLayerStore::new(Slow(mem.1.clone()), LockingHashMapLayerCache::new()),
                )),
                labels: Some(Arc::new(mem.0.clone())),
                layers: Some(Arc::new(mem.1.clone())),
            },
            Backend::PMemNc => Opened {
                st: St::A(Store::new(mem.0.clone(), Slow(mem.1.clone()))),
                labels: Some(Arc::new(mem.0.clone())),
                layers: Some(Arc::new(mem.1.clone())),
            },
            Backend::PDir | Backend::PDirNc => {
                let p = p.unwrap();
                let slow = Slow(DirectoryLayerStore::new(p.clone()));
                Opened {
                    st: St::A(if backend == Backend::PDir {
                        Store::new(DirectoryLabelStore::new(p.clone()), CachedLayerStore::new(slow, LockingHashMapLayerCache::new()))
                    } else {
                        Store::new(DirectoryLabelStore::new(p.clone()), slow)
                    }),
                    labels: raw_labels(&p),
                    layers: raw_dir(&p),
                }
            }
            Backend::PArc => {
                let p = p.unwrap();
                let b = DirectoryArchiveBackend::new(p.clone());
                let c = LruArchiveBackend::new(b.clone(), b, 1);
                let slow = Slow(ArchiveLayerStore::new(c.clone(), c));
                Opened {
                    st: St::A(Store::new(
                        DirectoryLabelStore::new(p.clone()),
                        CachedLayerStore::new(slow.clone(), LockingHashMapLayerCache::new()),
                    )),
                    labels: raw_labels(&p),
                    layers: Some(Arc::new(slow)),
                }
            }
            Backend::PRaw => {
                let p = p.unwrap();
                let b = DirectoryArchiveBackend::new(p.clone());
                let slow = Slow(ArchiveLayerStore::new(b.clone(), b));
                Opened {
                    st: St::A(Store::new(
                        DirectoryLabelStore::new(p.clone()),
                        CachedLayerStore::new(slow.clone(), LockingHashMapLayerCache::new()),
                    )),
                    labels: raw_labels(&p),
                    layers: Some(Arc::new(slow)),
                }
            }
            // the memory stores as the constructors make them: no access to their parts
            Backend::OMem => Opened { st: St::A(open_memory_store()), labels: None, layers: None },
            Backend::OSMem => Opened { st: St::S(open_sync_memory_store()), labels: None, layers: None },
            Backend::Dir => {
                let p = p.unwrap();
                Opened { st: St::A(open_directory_store(&p)), labels: raw_labels(&p), layers: raw_dir(&p) }
            }
            Backend::DirNc => {
                let p = p.unwrap();
                Opened {
                    st: St::A(Store::new(
                        DirectoryLabelStore::new(p.clone()),
                        DirectoryLayerStore::new(p.clone()),
                    )),
                    labels: raw_labels(&p),
                    layers: Some(Arc::new(CachedLayerStore::new(
                        DirectoryLayerStore::new(p.clone()),
                        LockingHashMapLayerCache::new(),
                    ))),
                }
            }
            Backend::CDir => {
                let p = p.unwrap();
                let l = SharedLabels(Arc::new(
                    bo(CachedDirectoryLabelStore::open(p.clone())).expect("open CachedDirectoryLabelStore"),
                ));
                Opened {
                    st: St::A(Store::new(
                        l.clone(),
                        CachedLayerStore::new(
                            DirectoryLayerStore::new(p.clone()),
                            LockingHashMapLayerCache::new(),
                        ),
                    )),
                    labels: Some(Arc::new(l)),
                    layers: raw_dir(&p),
                }
            }
            Backend::Arc => {
                let p = p.unwrap();
                Opened { st: St::A(open_archive_store(&p, 1)), labels: raw_labels(&p), layers: lru_arc(&p) }
            }
            Backend::Arc0 => {
                let p = p.unwrap();
                Opened { st: St::A(open_archive_store(&p, 0)), labels: raw_labels(&p), layers: raw_arc(&p) }
            }
            Backend::Raw => {
                let p = p.unwrap();
                Opened { st: St::A(open_raw_archive_store(&p)), labels: raw_labels(&p), layers: raw_arc(&p) }
            }
            Backend::SDir => {
                let p = p.unwrap();
                Opened { st: St::S(open_sync_directory_store(&p)), labels: raw_labels(&p), layers: raw_dir(&p) }
            }
            Backend::SArc => {
                let p = p.unwrap();
                Opened { st: St::S(open_sync_archive_store(&p, 1)), labels: raw_labels(&p), layers: raw_arc(&p) }
            }
            Backend::SRaw => {
                let p = p.unwrap();
                Opened { st: St::S(open_sync_raw_archive_store(&p)), labels: raw_labels(&p), layers: raw_arc(&p) }
            }
        }
    }
}

impl St {
    pub fn create(&self, n: &str) -> io::Result<Gr> {
        match self {
            St::A(s) => bo(s.create(n)).map(Gr::A),
            St::S(s) => s.create(n).map(Gr::S),
        }
    }
    pub fn open(&self, n: &str) -> io::Result<Option<Gr>> {
        match self {
            St::A(s) => bo(s.open(n)).map(|g| g.map(Gr::A)),
            St::S(s) => s.open(n).map(|g| g.map(Gr::S)),
        }
    }
    pub fn delete(&self, n: &str) -> io::Result<bool> {
        call!(self, delete(n))
    }
    pub fn labels(&self) -> io::Result<Vec<String>> {
        call!(self, labels())
    }
    pub fn get(&self, n: Name) -> io::Result<Option<Ly>> {
        match self {
            St::A(s) => bo(s.get_layer_from_id(n)).map(|g| g.map(Ly::A)),
            St::S(s) => s.get_layer_from_id(n).map(|g| g.map(Ly::S)),
        }
    }
    pub fn base(&self) -> io::Result<Bu> {
        match self {
            St::A(s) => bo(s.create_base_layer()).map(Bu::A),
            St::S(s) => s.create_base_layer().map(Bu::S),
        }
    }
    pub fn merge(&self, ls: &[Name], tmp: &Path) -> io::Result<Name> {
        call!(self, merge_base_layers(ls, tmp))
    }
    pub fn export(&self, ls: Vec<Name>) -> io::Result<Vec<u8>> {
        let it = Box::new(ls.into_iter());
        call!(self, export_layers(it))
    }
    pub fn import(&self, pack: &[u8], ls: Vec<Name>) -> io::Result<()> {
        let it = Box::new(ls.into_iter());
        call!(self, import_layers(pack, it))
    }
}

impl Gr {
    pub fn head_version(&self) -> io::Result<(Option<Ly>, u64)> {
        match self {
            Gr::A(g) => bo(g.head_version()).map(|(l, v)| (l.map(Ly::A), v)),
            Gr::S(g) => g.head_version().map(|(l, v)| (l.map(Ly::S), v)),
        }
    }
    pub fn head(&self) -> io::Result<Option<Ly>> {
        match self {
            Gr::A(g) => bo(g.head()).map(|l| l.map(Ly::A)),
            Gr::S(g) => g.head().map(|l| l.map(Ly::S)),
        }
    }
    pub fn set_head(&self, l: &Ly) -> io::Result<bool> {
        match (self, l) {
            (Gr::A(g), Ly::A(l)) => bo(g.set_head(l)),
            (Gr::S(g), Ly::S(l)) => g.set_head(l),
            _ => unreachable!(),
        }
    }
    pub fn force_set_head(&self, l: &Ly) -> io::Result<()> {
        match (self, l) {
            (Gr::A(g), Ly::A(l)) => bo(g.force_set_head(l)),
            (Gr::S(g), Ly::S(l)) => g.force_set_head(l),
            _ => unreachable!(),
        }
    }
    pub fn force_set_head_version(&self, l: &Ly, v: u64) -> io::Result<bool> {
        match (self, l) {
            (Gr::A(g), Ly::A(l)) => bo(g.force_set_head_version(l, v)),
            (Gr::S(g), Ly::S(l)) => g.force_set_head_version(l, v),
            _ => unreachable!(),
        }
    }
    pub fn delete(&self) -> io::Result<()> {
        match self {
            Gr::A(g) => bo(g.delete()),
            Gr::S(g) => g.delete(),
        }
    }
    pub fn name(&self) -> String {
        match self {
            Gr::A(g) => g.name().to_string(),
            Gr::S(g) => g.name().to_string(),
        }
    }
}

impl Bu {
    pub fn name(&self) -> Name {
        match self {
            Bu::A(b) => b.name(),
            Bu::S(b) => b.name(),
        }
    }
    pub fn committed(&self) -> bool {
        match self {
            Bu::A(b) => b.committed(),
            Bu::S(b) => b.committed(),
        }
    }
    pub fn add(&self, t: ValueTriple) -> io::Result<()> {
        match self {
            Bu::A(b) => b.add_value_triple(t),
            Bu::S(b) => b.add_value_triple(t),
        }
    }
    pub fn rem(&self, t: ValueTriple) -> io::Result<()> {
        match self {
            Bu::A(b) => b.remove_value_triple(t),
            Bu::S(b) => b.remove_value_triple(t),
        }
    }
    pub fn add_id(&self, t: IdTriple) -> io::Result<()> {
        match self {
            Bu::A(b) => b.add_id_triple(t),
            Bu::S(b) => b.add_id_triple(t),
        }
    }
    pub fn rem_id(&self, t: IdTriple) -> io::Result<()> {
        match self {
            Bu::A(b) => b.remove_id_triple(t),
            Bu::S(b) => b.remove_id_triple(t),
        }
    }
    pub fn parent(&self) -> Option<Arc<dyn Layer>> {
        match self {
            Bu::A(b) => b.parent(),
            Bu::S(b) => b.with_builder(|b| b.parent()).ok().flatten(),
        }
    }
    pub fn commit(&self) -> io::Result<Ly> {
        match self {
            Bu::A(b) => bo(b.commit()).map(Ly::A),
            Bu::S(b) => b.commit().map(Ly::S),
        }
    }
    pub fn commit_no_load(&self) -> io::Result<()> {
        match self {
            Bu::A(b) => bo(b.commit_no_load()),
            Bu::S(b) => b.commit_no_load(),
        }
    }
    pub fn apply_delta(&self, l: &Ly) -> io::Result<()> {
        match (self, l) {
            (Bu::A(b), Ly::A(l)) => bo(b.apply_delta(l)),
            (Bu::S(b), Ly::S(l)) => b.apply_delta(l),
            _ => unreachable!(),
        }
    }
    pub fn apply_diff(&self, l: &Ly) -> io::Result<()> {
        match (self, l) {
            (Bu::A(b), Ly::A(l)) => b.apply_diff(l),
            (Bu::S(b), Ly::S(l)) => b.apply_diff(l),
            _ => unreachable!(),
        }
    }
}

pub type IdIter = Box<dyn Iterator<Item = IdTriple> + Send>;

impl Ly {
    pub fn l(&self) -> &dyn Layer {
        match self {
            Ly::A(l) => l,
            Ly::S(l) => l,
        }
    }
    pub fn name(&self) -> Name {
        self.l().name()
    }
    pub fn open_write(&self) -> io::Result<Bu> {
        match self {
            Ly::A(l) => bo(l.open_write()).map(Bu::A),
            Ly::S(l) => l.open_write().map(Bu::S),
        }
    }
    pub fn parent(&self) -> io::Result<Option<Ly>> {
        match self {
            Ly::A(l) => bo(l.parent()).map(|p| p.map(Ly::A)),
            Ly::S(l) => l.parent().map(|p| p.map(Ly::S)),
        }
    }
    pub fn squash(&self) -> io::Result<Ly> {
        match self {
            Ly::A(l) => bo(l.squash()).map(Ly::A),
            Ly::S(l) => l.squash().map(Ly::S),
        }
    }
    pub fn squash_upto(&self, u: &Ly) -> io::Result<Ly> {
        match (self, u) {
            (Ly::A(l), Ly::A(u)) => bo(l.squash_upto(u)).map(Ly::A),
            (Ly::S(l), Ly::S(u)) => l.squash_upto(u).map(Ly::S),
            _ => unreachable!(),
        }
    }
    pub fn rollup(&self) -> io::Result<()> {
        lcall!(self, rollup())
    }
    pub fn rollup_upto(&self, u: &Ly) -> io::Result<()> {
        match (self, u) {
            (Ly::A(l), Ly::A(u)) => bo(l.rollup_upto(u)),
            (Ly::S(l), Ly::S(u)) => l.rollup_upto(u),
            _ => unreachable!(),
        }
    }
    pub fn imprecise_rollup_upto(&self, u: &Ly) -> io::Result<()> {
        match (self, u) {
            (Ly::A(l), Ly::A(u)) => bo(l.imprecise_rollup_upto(u)),
            (Ly::S(l), Ly::S(u)) => l.imprecise_rollup_upto(u),
            _ => unreachable!(),
        }
    }
    pub fn addition_exists(&self, s: u64, p: u64, o: u64) -> io::Result<bool> {
        lcall!(self, triple_addition_exists(s, p, o))
    }
    pub fn removal_exists(&self, s: u64, p: u64, o: u64) -> io::Result<bool> {
        lcall!(self, triple_removal_exists(s, p, o))
    }
    pub fn additions(&self) -> io::Result<IdIter> {
        lcall!(self, triple_additions())
    }
    pub fn removals(&self) -> io::Result<IdIter> {
        lcall!(self, triple_removals())
    }
    pub fn additions_s(&self, s: u64) -> io::Result<IdIter> {
        lcall!(self, triple_additions_s(s))
    }
    pub fn removals_s(&self, s: u64) -> io::Result<IdIter> {
        lcall!(self, triple_removals_s(s))
    }
    pub fn additions_sp(&self, s: u64, p: u64) -> io::Result<IdIter> {
        lcall!(self, triple_additions_sp(s, p))
    }
    pub fn removals_sp(&self, s: u64, p: u64) -> io::Result<IdIter> {
        lcall!(self, triple_removals_sp(s, p))
    }
    pub fn additions_p(&self, s: u64) -> io::Result<IdIter> {
        lcall!(self, triple_additions_p(s))
    }
    pub fn removals_p(&self, s: u64) -> io::Result<IdIter> {
        lcall!(self, triple_removals_p(s))
    }
    pub fn additions_o(&self, s: u64) -> io::Result<IdIter> {
        lcall!(self, triple_additions_o(s))
    }
    pub fn removals_o(&self, s: u64) -> io::Result<IdIter> {
        lcall!(self, triple_removals_o(s))
    }
    pub fn addition_count(&self) -> io::Result<usize> {
        lcall!(self, triple_layer_addition_count())
    }
    pub fn removal_count(&self) -> io::Result<usize> {
        lcall!(self, triple_layer_removal_count())
    }
    pub fn stack_names(&self) -> io::Result<Vec<Name>> {
        lcall!(self, retrieve_layer_stack_names())
    }
}

/// term strings of the scripts: objects are "n:<node>" or "<type>:<text>" for values
pub struct Terms {
    back: HashMap<(String, Vec<u8>), String>,
}

impl Terms {
    pub fn new() -> Self {
        Terms { back: HashMap::new() }
    }
    pub fn object(&mut self, t: &str) -> ObjectType {
        if let Some(n) = t.strip_prefix("n:") {
            ObjectType::Node(n.to_string())
        } else {
            let e = value_entry(t);
            self.back.insert(key(&e), t.to_string());
            ObjectType::Value(e)
        }
    }
    pub fn triple(&self, s: &str, p: &str, o: &str) -> ValueTriple {
        let s = s.strip_prefix("n:").expect("subject must be a node");
        match (o.strip_prefix("n:"), o.strip_prefix("s:")) {
            (Some(n), _) => ValueTriple::new_node(s, p, n),
            (None, Some(v)) if v.len() % 2 == 0 => ValueTriple::new_string_value(s, p, v),
            _ => ValueTriple::new_value(s, p, value_entry(o)),
        }
    }
    pub fn render(&self, o: &ObjectType) -> String {
        match o {
            ObjectType::Node(n) => format!("n:{n}"),
            ObjectType::Value(v) => match self.back.get(&key(v)) {
                Some(s) => s.clone(),
                None => format!("?{:?}:{:?}", v.datatype(), v.to_bytes()),
            },
        }
    }
}

pub fn value_entry(t: &str) -> TypedDictEntry {
    use tdb_succinct::*;
    let (ty, x) = t.split_once(':').expect("typed value");
    match ty {
        "s" => <String as TdbDataType>::make_entry(&x.to_string()),
        "u8" => <u8 as TdbDataType>::make_entry(&x.parse::<u8>().unwrap()),
        "u16" => <u16 as TdbDataType>::make_entry(&x.parse::<u16>().unwrap()),
        "u32" => <u32 as TdbDataType>::make_entry(&x.parse::<u32>().unwrap()),
        "u64" => <u64 as TdbDataType>::make_entry(&x.parse::<u64>().unwrap()),
        "i32" => <i32 as TdbDataType>::make_entry(&x.parse::<i32>().unwrap()),
        "i64" => <i64 as TdbDataType>::make_entry(&x.parse::<i64>().unwrap()),
        "f64" => <f64 as TdbDataType>::make_entry(&x.parse::<f64>().unwrap()),
        "b" => <bool as TdbDataType>::make_entry(&x.parse::<bool>().unwrap()),
        "uri" => TypedDictEntry::new(
            Datatype::AnyURI,
            SizedDictEntry::Single(<String as TdbDataType>::make_entry(&x.to_string()).to_bytes()),
        ),
        _ => panic!("unknown value type {ty}"),
    }
}

fn key(v: &TypedDictEntry) -> (String, Vec<u8>) {
    (format!("{:?}", v.datatype()), v.to_bytes().to_vec())
}

pub fn label_set(ls: &Arc<dyn LabelStore>, label: &Label, layer: Option<Name>) -> io::Result<Option<Label>> {
    match layer {
        Some(l) => bo(ls.set_label(label, l)),
        None => bo(ls.clear_label(label)),
    }
}
