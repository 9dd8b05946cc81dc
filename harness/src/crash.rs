//! A process working through a script is killed during one operation, at every call that changes a file;
//! the stores are opened again, everything is read, the interrupted operation is repeated, and all is read again.
use crate::api::*;
use crate::run::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}
fn sym(n: &CStr) -> Option<*mut c_void> {
    let p = unsafe { dlsym(std::ptr::null_mut(), n.as_ptr()) };
    if p.is_null() {
        None
    } else {
        Some(p)
    }
}
pub fn arm(on: bool) {
    if let Some(p) = sym(c"tsh_shim_arm") {
        let f: extern "C" fn(c_int) = unsafe { std::mem::transmute(p) };
        f(on as c_int)
    }
}
fn kinds() -> String {
    let (Some(p), Some(q)) = (sym(c"tsh_shim_kinds"), sym(c"tsh_shim_count")) else { return String::new() };
    let f: extern "C" fn() -> *const c_char = unsafe { std::mem::transmute(p) };
    let g: extern "C" fn() -> c_long = unsafe { std::mem::transmute(q) };
    let (s, n) = (unsafe { CStr::from_ptr(f()) }.to_string_lossy().to_string(), g() as usize);
    if s.len() >= n {
        s[..n].to_string()
    } else {
        s
    }
}

fn hex(n: Name) -> String {
    n.iter().map(|x| format!("{x:08x}")).collect()
}
fn unhex(s: &str) -> Name {
    let mut n = [0; 5];
    for (i, x) in n.iter_mut().enumerate() {
        *x = u32::from_str_radix(&s[i * 8..i * 8 + 8], 16).unwrap();
    }
    n
}

struct Log(std::fs::File);
impl Log {
    fn put(&mut self, v: Value) {
        // one write, so that a line is there completely or not at all
        self.0.write_all(format!("{v}\n").as_bytes()).unwrap();
    }
}

fn get_script(args: &[String]) -> Value {
    let f = crate::arg(args, "--script").expect("--script");
    serde_json::from_str(&std::fs::read_to_string(f).expect("script")).expect("script json")
}

/// the process that gets killed: executes the script up to and including operation "at", changes counted during that one
pub fn child(args: &[String]) {
    let script = get_script(args);
    let backends: Vec<Backend> = crate::arg(args, "--backends").unwrap().split(',').map(Backend::parse).collect();
    let dir = PathBuf::from(crate::arg(args, "--dir").unwrap());
    let mut log = Log(std::fs::OpenOptions::new().create(true).append(true).open(crate::arg(args, "--log").unwrap()).unwrap());
    let w = World::at(script.get("whole").unwrap_or(&script), &backends, Some(&dir));
    let at = script["at"].as_u64().unwrap() as usize;
    let mut w = w;
    let mut tr = Track::default();
    let fault = std::env::var("TSH_FAULT").ok().and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    let mut named: BTreeSet<i64> = BTreeSet::new();
    if let Some(names) = script.get("names") {
        for n in names.as_array().unwrap() {
            let k = n[0].as_i64().unwrap();
            w.register(k, unhex(n[1].as_str().unwrap()));
            named.insert(k);
        }
    }
    load_packs(&w, &dir.join(".."));
    for (i, op) in script["ops"].as_array().unwrap().iter().enumerate().take(at + 1) {
        let mut op = op.clone();
        op["noobs"] = json!(true);
        let mut begun = json!(null);
        if i == at {
            let mut b = json!({ "begin": i });
            match op["op"].as_str().unwrap() {
                "commit" => {
                    if let Some((bu, _)) = w.sh().builders.get(&op["b"].as_i64().unwrap()) {
                        b["pending"] = json!(hex(bu.name()));
                    }
                }
                "lset" | "lclear" => {
                    let k = (op["st"].as_u64().unwrap_or(0) as usize, op["name"].as_str().unwrap().to_string());
                    let v = w.sh().stale.get(&k).cloned();
                    if let Some(v) = v.filter(|v| !v.is_empty()) {
                        let back = op["back"].as_u64().unwrap() as usize;
                        let l = &v[v.len() - 1 - back.min(v.len() - 1)];
                        b["bhead"] = json!(l.layer.map(|n| w.key(n)).unwrap_or(0));
                        b["bversion"] = json!(l.version);
                    }
                }
                _ => {}
            }
            begun = b.clone();
            log.put(b);
            arm(true);
        }
        let (mut ev, mut go) = event(&w, &op);
        if i == at {
            arm(false);
            if fault > 0 && kinds().len() >= fault && ev["r"] != "ok" {
                let msg = ev.get("msg").cloned().unwrap_or(json!(""));
                ev = tr.interrupted(&w, &op, &begun, true);
                ev["msg"] = msg;
                go = true;
            }
        }
        if ev["r"] != "crash" {
            tr.note(&ev);
        }
        for (k, n) in &w.sh().names {
            if named.insert(*k) {
                log.put(json!({"name": [k, hex(*n)]}));
            }
        }
        if ev["op"] == "export" && ev["r"] == "ok" {
            let x = ev["x"].as_i64().unwrap();
            std::fs::write(dir.join(format!("../pack.{x}")), &w.sh().packs[&x]).unwrap();
        }
        log.put(json!({ "ev": &ev }));
        if !go {
            break;
        }
        if i == at && fault > 0 {
            // what the same process finds, and that it can do it now
            let dbs = databases(&script);
            let keys = tr.readable(&w);
            let mut lines = Vec::new();
            let ops = reads(&w, &keys, &dbs);
            if play(&mut w, ops, &mut lines) && ev["r"] == "crash" && std::env::var("TSH_NOREPEAT").is_err() {
                let ops = repeat(&script, at, &mut 1000);
                again(&mut w, ops, &mut tr, &dbs, false, &mut lines);
            }
            for (k, n) in &w.sh().names {
                if named.insert(*k) {
                    log.put(json!({"name": [k, hex(*n)]}));
                }
            }
            for e in lines {
                log.put(json!({ "ev": e }));
            }
        }
    }
    log.put(json!({ "kinds": kinds() }));
    // nothing that is still going on gets a chance to finish
    unsafe { _exit(0) }
}

fn load_packs(w: &World, job: &Path) {
    for e in std::fs::read_dir(job).unwrap().flatten() {
        if let Some(x) = e.file_name().to_str().unwrap().strip_prefix("pack.") {
            w.sh().packs.insert(x.parse().unwrap(), std::fs::read(e.path()).unwrap());
        }
    }
}

/// which layers there must be, as far as the events tell
#[derive(Default)]
struct Track {
    names: BTreeMap<i64, Name>,
    keys: BTreeSet<(u64, i64)>,
    /// layers of interrupted operations that cannot be read
    lost: BTreeSet<(u64, i64)>,
    builder_st: HashMap<i64, u64>,
    packs: HashMap<i64, BTreeSet<i64>>,
}
impl Track {
    /// the layers an import can bring: those asked for that are in the pack
    fn brings(&self, e: &Value) -> Vec<i64> {
        let none = BTreeSet::new();
        let pack = self.packs.get(&e["x"].as_i64().unwrap_or(0)).unwrap_or(&none);
        e["ls"].as_array().unwrap().iter().map(|l| l.as_i64().unwrap()).filter(|l| pack.contains(l)).collect()
    }

    fn note(&mut self, e: &Value) {
        let st = e["st"].as_u64().unwrap_or(0);
        match e["op"].as_str().unwrap() {
            "base" | "child" => {
                self.builder_st.insert(e["b"].as_i64().unwrap(), st);
            }
            "commit" if e["r"] == "ok" => {
                self.keys.insert((self.builder_st[&e["b"].as_i64().unwrap()], e["l"].as_i64().unwrap()));
            }
            "squash" | "squash_upto" | "merge" if e["r"] == "ok" => {
                self.keys.insert((st, e["n"].as_i64().unwrap()));
            }
            "export" if e["r"] == "ok" => {
                let ls = e["ls"].as_array().unwrap().iter().map(|l| l.as_i64().unwrap()).collect();
                self.packs.insert(e["x"].as_i64().unwrap(), ls);
            }
            "import" if e["r"] == "ok" => {
                for l in self.brings(e) {
                    self.keys.insert((st, l));
                    self.lost.remove(&(st, l));
                }
            }
            "commit" if e["r"] == "crash" => {
                let at = (self.builder_st[&e["b"].as_i64().unwrap()], e["l"].as_i64().unwrap());
                if e["got"].as_array().map(|g| g.is_empty()) != Some(true) {
                    self.keys.insert(at);
                    self.lost.remove(&at);
                } else {
                    self.lost.insert(at);
                }
            }
            "import" if e["r"] == "crash" => {
                let got: BTreeSet<i64> = e["got"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                for l in self.brings(e) {
                    if got.contains(&l) {
                        self.keys.insert((st, l));
                        self.lost.remove(&(st, l));
                    } else if !self.keys.contains(&(st, l)) {
                        self.lost.insert((st, l));
                    }
                }
            }
            _ => {}
        }
    }
    /// the event of an operation that was interrupted: which layers there are after it
    fn interrupted(&mut self, w: &World, op: &Value, begun: &Value, io: bool) -> Value {
        let mut e = op.clone();
        e["r"] = json!("crash");
        for f in ["bhead", "bversion"] {
            e[f] = begun.get(f).cloned().unwrap_or(json!(-1));
        }
        if io {
            e["io"] = json!(true);
        }
        let mut got = Vec::new();
        // the layers there may be
        let mut maybe: Vec<(u64, i64)> = Vec::new();
        match op["op"].as_str().unwrap() {
            "commit" => {
                if let Some(n) = begun.get("pending") {
                    let (k, n) = (op["l"].as_i64().unwrap(), unhex(n.as_str().unwrap()));
                    w.register(k, n);
                    self.names.insert(k, n);
                    maybe.push((self.builder_st[&op["b"].as_i64().unwrap()], k));
                }
            }
            "import" => {
                for l in self.brings(op) {
                    maybe.push((op["st"].as_u64().unwrap_or(0), l));
                }
            }
            _ => {}
        }
        for (st, k) in maybe {
            if self.keys.contains(&(st, k)) {
                continue;
            }
            let n = w.nm(k);
            // a layer of an interrupted operation need not be readable
            if let Ok(Ok(Some(_))) = catch_unwind(AssertUnwindSafe(|| w.st(st as usize).get(n))) {
                got.push(k);
            }
        }
        e["got"] = json!(got);
        self.note(&e);
        e
    }
    fn readable(&self, w: &World) -> BTreeSet<(u64, i64)> {
        w.sh().lost = self.lost.iter().copied().collect();
        let sh = w.sh();
        self.keys.iter().filter(|(_, k)| sh.names.contains_key(k)).copied().collect()
    }
}

fn databases(script: &Value) -> BTreeSet<(u64, String)> {
    script["ops"]
        .as_array()
        .unwrap()
        .iter()
        .filter_map(|o| o.get("name").and_then(|n| n.as_str()).map(|n| (o["st"].as_u64().unwrap_or(0), n.to_string())))
        .collect()
}

/// everything that can be read, of the layers in keys
fn reads(w: &World, keys: &BTreeSet<(u64, i64)>, dbs: &BTreeSet<(u64, String)>) -> Vec<Value> {
    let mut v = Vec::new();
    let stores: BTreeSet<u64> = (0..w.envs.read().unwrap().len() as u64).collect();
    for st in &stores {
        v.push(json!({"op":"labels","st":st}));
        v.push(json!({"op":"layers","st":st}));
    }
    for (st, n) in dbs {
        v.push(json!({"op":"open","st":st,"name":n}));
        v.push(json!({"op":"head","st":st,"name":n}));
    }
    for (st, k) in keys {
        v.push(json!({"op":"obs","st":st,"l":k,"old":false}));
    }
    v
}

/// the operations that repeat operation at, with new builders and layers
fn repeat(script: &Value, at: usize, fresh: &mut i64) -> Vec<Value> {
    let ops = script["ops"].as_array().unwrap();
    let op = &ops[at];
    let b0 = op.get("b").and_then(|x| x.as_i64());
    let mut next = || {
        *fresh += 1;
        *fresh
    };
    let mut out = Vec::new();
    match op["op"].as_str().unwrap() {
        "commit" => {
            let nb = next();
            for o in &ops[..at] {
                if o.get("b").and_then(|x| x.as_i64()) == b0 && o["op"] != "bname" {
                    let mut o = o.clone();
                    o["b"] = json!(nb);
                    out.push(o);
                }
            }
            let mut o = op.clone();
            o["b"] = json!(nb);
            o["l"] = json!(next());
            out.push(o);
        }
        "base" | "child" => {
            let mut o = op.clone();
            o["b"] = json!(next());
            out.push(o);
        }
        "squash" | "squash_upto" | "merge" => {
            let mut o = op.clone();
            o["n"] = json!(next());
            out.push(o);
        }
        "lset" | "lclear" => {
            out.push(json!({"op":"lget","st":op["st"],"name":op["name"]}));
            let mut o = op.clone();
            o["back"] = json!(0);
            out.push(o);
        }
        "add" | "rem" | "delta" | "diff" | "dropb" | "export" | "bname" => {}
        _ => out.push(op.clone()),
    }
    out
}

struct Run {
    lines: Vec<Value>,
    kinds: String,
}

/// what a process executing a part of a history did before it ended
struct Part {
    evs: Vec<Value>,
    names: BTreeMap<i64, Name>,
    begun: Option<Value>,
    done: bool,
    kinds: String,
    /// the process was killed where it was to be
    crashed: bool,
    /// it ended in another way than it should have
    odd: Option<&'static str>,
}

fn part(job: &Path, script: &Value, sfile: &Path, combo: &str, env: &[(String, String)], p: Point) -> Part {
    let stores = job.join("s");
    let log = job.join("log");
    let _ = std::fs::remove_file(&log);
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(["crashchild", "--script", sfile.to_str().unwrap(), "--backends", combo, "--dir", stores.to_str().unwrap(), "--log", log.to_str().unwrap()]);
    for (k, v) in env {
        c.env(k, v);
    }
    c.env("TSH_SHIM_DIR", format!("{}/", stores.to_str().unwrap()));
    c.env("TSH_SCRATCH", job.join("t"));
    if p.n > 0 {
        c.env(if p.fault > 0 { "TSH_FAULT" } else { "TSH_CRASH" }, p.n.to_string());
    }
    if p.fault > 0 && p.fault % 2 == 0 {
        c.env("TSH_FAULT_ALL", "1");
    }
    if p.fault > 2 {
        c.env("TSH_NOREPEAT", "1");
    }
    if p.half {
        c.env("TSH_CRASH_HALF", "1");
    }
    if p.delay > 0 {
        c.env("TSH_DELAY", p.delay.to_string());
    }
    c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let mut ch = c.spawn().expect("spawn");
    let t0 = std::time::Instant::now();
    let mut killed = false;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > std::time::Duration::from_secs(60) {
            killed = true;
            let _ = ch.kill();
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    };
    // what the process said
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let at = script["at"].as_u64().unwrap() as usize;
    let mut r = Part { evs: Vec::new(), names: BTreeMap::new(), begun: None, done: false, kinds: String::new(), crashed: status.code() == Some(137), odd: None };
    for l in text.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if let Some(e) = v.get("ev") {
            r.evs.push(e.clone());
            r.done |= r.evs.len() > at;
        } else if v.get("begin").is_some() {
            r.begun = Some(v);
        } else if let Some(x) = v.get("name") {
            r.names.insert(x[0].as_i64().unwrap(), unhex(x[1].as_str().unwrap()));
        } else if let Some(x) = v.get("kinds") {
            r.kinds = x.as_str().unwrap().to_string();
        }
    }
    if killed {
        r.odd = Some("never returned");
    } else if (!r.crashed && status.code() != Some(0)) || (r.crashed && (r.done || r.begun.is_none())) {
        // not the crash that was asked for: the process failed by itself
        r.odd = Some("process ended");
    }
    r
}

#[derive(Clone, Copy)]
struct Point {
    /// before which call changing a file the process is killed (0: not at all)
    n: u64,
    /// after half of that call
    half: bool,
    /// how long changes to files are delayed
    delay: u64,
    /// the process repeating the operation is killed too, before this call
    again: u64,
    /// the process is not killed, but the call fails (1, 3), or it and all further ones do (2, 4); the operation is then repeated (1, 2)
    fault: u64,
}

fn play(w: &mut World, ops: Vec<Value>, lines: &mut Vec<Value>) -> bool {
    for o in ops {
        let (e, g) = event(w, &o);
        lines.push(e);
        if !g {
            return false;
        }
    }
    true
}

/// repeats an operation and reads everything
fn again(w: &mut World, ops: Vec<Value>, tr: &mut Track, dbs: &BTreeSet<(u64, String)>, reopen: bool, lines: &mut Vec<Value>) -> bool {
    let from = lines.len();
    let go = play(w, ops, lines);
    for e in &lines[from..] {
        tr.note(e);
    }
    if !go {
        return false;
    }
    let keys = tr.readable(w);
    let mut ops = if reopen { vec![json!({"op":"reopen"})] } else { vec![] };
    ops.extend(reads(w, &keys, dbs));
    play(w, ops, lines)
}

fn one(job: &Path, script: &Value, sfile: &Path, combo: &str, env: &[(String, String)], pt: Point) -> Run {
    let stores = job.join("s");
    let _ = std::fs::remove_dir_all(job);
    std::fs::create_dir_all(&stores).unwrap();
    std::fs::create_dir_all(job.join("t")).unwrap();
    let backends: Vec<Backend> = combo.split(',').map(Backend::parse).collect();
    let dbs = databases(script);
    let fault = pt.fault;
    let mut lines = vec![json!({"op":"script","id":script["id"],"backend":combo,"diff":-1,"n":pt.n,"half":pt.half,"late":pt.delay,"second":pt.again,"fault":fault})];
    let mut kinds = String::new();
    let mut fresh = 1000;
    let mut tr = Track::default();
    let whole = script;
    let mut script = script.clone();
    let mut sfile = sfile.to_path_buf();
    let mut p = pt;
    let mut second = false;
    let mut last = Default::default();
    loop {
        let at = script["at"].as_u64().unwrap() as usize;
        let op = script["ops"][at].clone();
        let r = part(job, &script, &sfile, combo, env, p);
        if !second {
            kinds = r.kinds;
        }
        tr.names.extend(&r.names);
        lines.extend(r.evs.iter().cloned());
        if let Some(what) = r.odd {
            let mut e = script["ops"][r.evs.len().min(at)].clone();
            e["r"] = json!("panic");
            e["msg"] = json!(what);
            lines.push(e);
            return Run { lines, kinds };
        }
        if r.evs.iter().any(|e| e["r"] == "panic") {
            return Run { lines, kinds };
        }
        // open again
        let mut w = match catch_unwind(AssertUnwindSafe(|| World::at(whole, &backends, Some(&stores)))) {
            Ok(w) => w,
            Err(x) => {
                if r.crashed {
                    let mut e = op.clone();
                    e["r"] = json!("crash");
                    e["got"] = json!([]);
                    e["bhead"] = json!(-1);
                    e["bversion"] = json!(-1);
                    lines.push(e);
                }
                lines.push(json!({"op":"reopen","r":"panic","msg":panic_msg(x)}));
                return Run { lines, kinds };
            }
        };
        for (k, n) in &tr.names {
            w.register(*k, *n);
        }
        load_packs(&w, job);
        // what was seen before the second process still is what everything has to be like
        w.sh().last = std::mem::take(&mut last);
        for e in &r.evs {
            tr.note(e);
        }
        if r.crashed {
            let e = tr.interrupted(&w, &op, &r.begun.unwrap(), false);
            lines.push(e);
        }
        let keys = tr.readable(&w);
        // what an observation is compared with is not known here after a run in another process
        lines.push(if fault > 0 { json!({"op":"reopen","r":"ok","forget":true}) } else { json!({"op":"reopen","r":"ok"}) });
        let ops = reads(&w, &keys, &dbs);
        let go = play(&mut w, ops, &mut lines);
        if !go || !r.crashed {
            let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
            return Run { lines, kinds };
        }
        let ops = repeat(&script, at, &mut fresh);
        if p.again > 0 && !ops.is_empty() {
            // another process repeats it, and is killed too
            let names: Vec<Value> = tr.names.iter().map(|(k, n)| json!([k, hex(*n)])).collect();
            script["at"] = json!(ops.len() - 1);
            script["ops"] = json!(ops);
            script["names"] = json!(names);
            script["whole"] = whole.clone();
            sfile = job.join("again.json");
            std::fs::write(&sfile, script.to_string()).unwrap();
            p = Point { n: p.again, again: 0, ..p };
            second = true;
            last = std::mem::take(&mut w.sh().last);
            let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
            continue;
        }
        again(&mut w, ops, &mut tr, &dbs, true, &mut lines);
        let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
        return Run { lines, kinds };
    }
}

/// all crash points of a script's operation on one combination of backends (at most cap, evenly spread)
pub fn run(script: &Value, combo: &str, shim: &str, cap: usize, faults: bool) -> Vec<Value> {
    let job = tempfile::Builder::new().prefix("tshc").tempdir_in(scratch_base()).unwrap();
    let sfile = job.path().join("script.json");
    std::fs::write(&sfile, script.to_string()).unwrap();
    let d = job.path().join("j");
    let env = vec![("LD_PRELOAD".to_string(), shim.to_string())];
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut out: Vec<Value> = Vec::new();
    let mut points = 0u64;
    let mut add = |r: &mut Run| {
        let key = r.lines[1..]
            .iter()
            .map(|e| {
                let mut e = e.clone();
                let o = e.as_object_mut().unwrap();
                o.remove("msg");
                e.to_string()
            })
            .collect::<Vec<_>>()
            .join("\n");
        if seen.insert(key, points as usize).is_none() {
            out.append(&mut r.lines);
        }
        points += 1;
    };
    // completely, ended right afterwards
    let none = Point { n: 0, half: false, delay: 0, again: 0, fault: 0 };
    let mut full = one(&d, script, &sfile, combo, &env, none);
    let kinds = full.kinds.clone();
    add(&mut full);
    if !kinds.is_empty() && !faults {
        add(&mut one(&d, script, &sfile, combo, &env, Point { delay: 4000, ..none }));
    }
    let mut todo: Vec<(u64, bool)> = Vec::new();
    for (i, k) in kinds.bytes().enumerate() {
        todo.push((i as u64 + 1, false));
        if k == b'w' {
            todo.push((i as u64 + 1, true));
        }
    }
    if todo.len() > cap {
        let l = todo.len();
        todo = (0..cap).map(|j| todo[j * l / cap]).collect();
    }
    let calls = kinds.len() as u64;
    for (j, (n, half)) in todo.into_iter().enumerate() {
        if faults {
            add(&mut one(&d, script, &sfile, combo, &env, Point { n, half, fault: 1 + (j as u64 + n) % 4, ..none }));
            continue;
        }
        add(&mut one(&d, script, &sfile, combo, &env, Point { n, half, ..none }));
        // every third time, the process that repeats the operation is killed as well
        if j % 3 == 2 {
            let again = 1 + (n * 7 + j as u64 * 5) % calls;
            add(&mut one(&d, script, &sfile, combo, &env, Point { n, half: half && j % 2 == 0, again, ..none }));
        }
    }
    // the number of crash points goes with the first run
    out[0]["points"] = json!(points);
    out
}
