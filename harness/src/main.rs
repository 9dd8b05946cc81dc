mod api;
mod cache;
mod crash;
mod heads;
mod par;
mod run;

use api::Backend;
use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static SLOT: std::cell::Cell<usize> = std::cell::Cell::new(usize::MAX); }
static PROGRESS: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());

pub fn progress(script: &Value, i: usize) {
    let s = SLOT.with(|s| s.get());
    if s != usize::MAX {
        let d = format!("{{\"script\":{},\"op\":{}}}", script["id"], i);
        PROGRESS.lock().unwrap()[s] = Some((Instant::now(), d));
    }
}

pub fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("TSH_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run_cmd(&args),
        Some("crashchild") => crash::child(&args),
        Some("crash") => {
            let faults = args.iter().any(|a| a == "--faults");
            let shim = arg(&args, "--shim").expect("--shim");
            let cap: usize = arg(&args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(100_000);
            each_cmd(&args, move |s, b| crash::run(s, b, &shim, cap, faults))
        }
        Some("cache") => {
            let gate = arg(&args, "--mode").as_deref() == Some("gate");
            let reps: usize = arg(&args, "--reps").and_then(|s| s.parse().ok()).unwrap_or(1);
            each_cmd(&args, move |s, b| cache::run(s, b, gate, reps))
        }
        Some("par") => {
            let reps: u64 = arg(&args, "--reps").and_then(|s| s.parse().ok()).unwrap_or(1);
            let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            each_cmd(&args, move |s, b| par::run(s, b, reps, seed))
        }
        Some("heads") => {
            let gate = arg(&args, "--mode").as_deref() == Some("gate");
            let reps: usize = arg(&args, "--reps").and_then(|s| s.parse().ok()).unwrap_or(1);
            each_cmd(&args, move |s, b| heads::run(s, b, gate, reps))
        }
        _ => {
            eprintln!("usage: tsharness run --scripts F --out F --backends a,b;c,d [--threads n]");
            std::process::exit(2);
        }
    }
}

/// --backends: list of combinations separated by ';', each a ','-separated list: the backend of store 0, 1, ...
/// The first combination is the reference: its trace is always logged; the others only if they differ from it
/// (then completely, so that the specification judges them on their own), which is also noted as a diff event.
fn run_cmd(args: &[String]) {
    let scripts = arg(args, "--scripts").expect("--scripts");
    let out = arg(args, "--out").expect("--out");
    let combos: Vec<Vec<Backend>> = arg(args, "--backends")
        .expect("--backends")
        .split(';')
        .map(|c| c.split(',').map(Backend::parse).collect())
        .collect();
    let combo_names: Vec<String> = arg(args, "--backends").unwrap().split(';').map(|s| s.to_string()).collect();
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let hang: u64 = arg(args, "--hang").and_then(|s| s.parse().ok()).unwrap_or(60);
    let list: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&scripts).expect("scripts"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("script json"))
        .collect();
    let n = list.len();
    let list = Arc::new(list);
    let next = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<Option<Vec<String>>>>> = Arc::new(Mutex::new(vec![None; n]));
    *PROGRESS.lock().unwrap() = vec![None; threads];
    let runs = Arc::new(AtomicUsize::new(0));
    let diffs = Arc::new(AtomicUsize::new(0));
    let ops = Arc::new(AtomicUsize::new(0));
    let mut handles = Vec::new();
    for tno in 0..threads {
        let (list, next, results, combos, combo_names, runs, diffs, ops) = (
            list.clone(), next.clone(), results.clone(), combos.clone(), combo_names.clone(), runs.clone(), diffs.clone(), ops.clone(),
        );
        handles.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            SLOT.with(|s| s.set(tno));
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= list.len() {
                    PROGRESS.lock().unwrap()[tno] = None;
                    break;
                }
                let sc = &list[i];
                let mut lines = Vec::new();
                let mut reference: Option<Vec<Value>> = None;
                // a script may restrict the combinations it is for
                for (ci, combo) in combos.iter().enumerate() {
                    let ev = run::run_script(sc, combo);
                    runs.fetch_add(1, Ordering::SeqCst);
                    ops.fetch_add(ev.len(), Ordering::SeqCst);
                    let mut diff: i64 = -1;
                    if let Some(r) = &reference {
                        let mut same = r.len() == ev.len();
                        for (k, (a, b)) in r.iter().zip(ev.iter()).enumerate() {
                            if a.get("skip").is_some() || b.get("skip").is_some() {
                                // not possible on one of them; nothing can be compared after a change made only on the other
                                if matches!(a["op"].as_str(), Some("lset") | Some("lclear")) {
                                    same = true;
                                    break;
                                }
                                continue;
                            }
                            let (mut ca, mut cb) = (run::comparable(a), run::comparable(b));
                            if ca.get("full").is_none() || cb.get("full").is_none() {
                                ca.as_object_mut().unwrap().remove("full");
                                cb.as_object_mut().unwrap().remove("full");
                            }
                            if ca != cb {
                                same = false;
                                diff = k as i64;
                                break;
                            }
                        }
                        if !same && diff < 0 {
                            diff = r.len().min(ev.len()) as i64;
                        }
                        if same {
                            continue;
                        }
                        diffs.fetch_add(1, Ordering::SeqCst);
                    }
                    lines.push(json!({"op":"script","id":sc["id"],"backend":combo_names[ci],"diff":diff}).to_string());
                    for e in &ev {
                        lines.push(e.to_string());
                    }
                    if reference.is_none() {
                        reference = Some(ev);
                    }
                }
                results.lock().unwrap()[i] = Some(lines);
            }
        }).unwrap());
    }
    // watchdog: a hanging operation is a result, not a tool failure
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
        let hung: Option<String> = PROGRESS
            .lock()
            .unwrap()
            .iter()
            .flatten()
            .find(|(t, _)| t.elapsed() > Duration::from_secs(hang))
            .map(|(_, d)| d.clone());
        if let Some(d) = hung {
            println!("HANG {d}");
            // log what is there
            write_out(&out, &results);
            std::process::exit(4);
        }
    }
    for h in handles {
        if h.join().is_err() {
            eprintln!("harness thread failed");
            std::process::exit(3);
        }
    }
    write_out(&out, &results);
    println!(
        "{}",
        json!({"scripts": n, "runs": runs.load(Ordering::SeqCst), "ops": ops.load(Ordering::SeqCst), "diffs": diffs.load(Ordering::SeqCst)})
    );
    // runtimes of the worker threads are leaked on purpose
    std::process::exit(0);
}

fn write_out(out: &str, results: &Arc<Mutex<Vec<Option<Vec<String>>>>>) {
    let mut f = BufWriter::new(std::fs::File::create(out).unwrap());
    for r in results.lock().unwrap().iter().flatten() {
        for l in r {
            writeln!(f, "{l}").unwrap();
        }
    }
    f.flush().unwrap();
}

/// the beginning of a history that says nothing but what went wrong
fn bare_hist(script: &Value, backend: &str) -> Value {
    let mut h = json!({"e": "hist", "id": script["id"], "backend": backend});
    for k in ["par", "start", "stored"] {
        if !script[k].is_null() {
            h[k] = script[k].clone();
        }
    }
    h
}

/// runs every script on every backend (--backends a;b) and writes the events
fn each_cmd(args: &[String], f: impl Fn(&Value, &str) -> Vec<Value> + Send + Sync + 'static) {
    let scripts = arg(args, "--scripts").expect("--scripts");
    let out = arg(args, "--out").expect("--out");
    let backends: Vec<String> = arg(args, "--backends").expect("--backends").split(';').map(|s| s.to_string()).collect();
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let list: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&scripts).expect("scripts"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("script json"))
        .collect();
    let mut jobs = Vec::new();
    for i in 0..list.len() {
        for b in &backends {
            jobs.push((i, b.clone()));
        }
    }
    let (list, jobs, f) = (Arc::new(list), Arc::new(jobs), Arc::new(f));
    let next = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<Option<Vec<String>>>>> = Arc::new(Mutex::new(vec![None; jobs.len()]));
    let started: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![None; threads]));
    let running = Arc::new(AtomicUsize::new(threads));
    let limit = Duration::from_secs(arg(args, "--limit").and_then(|s| s.parse().ok()).unwrap_or(200));
    let mut handles = Vec::new();
    for t in 0..threads {
        let (list, jobs, f, next, results) = (list.clone(), jobs.clone(), f.clone(), next.clone(), results.clone());
        let (started, running) = (started.clone(), running.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    struct Done(Arc<AtomicUsize>);
                    impl Drop for Done {
                        fn drop(&mut self) {
                            self.0.fetch_sub(1, Ordering::SeqCst);
                        }
                    }
                    let _done = Done(running);
                    loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() {
                            break;
                        }
                        let (i, b) = &jobs[j];
                        started.lock().unwrap()[t] = Some((j, Instant::now()));
                        let ev = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&list[*i], b))) {
                            Ok(ev) => ev,
                            Err(e) => {
                                vec![
                                    bare_hist(&list[*i], b),
                                    json!({"e": "broken", "msg": run::panic_msg(e)}),
                                ]
                            }
                        };
                        started.lock().unwrap()[t] = None;
                        results.lock().unwrap()[j] = Some(ev.iter().map(|e| e.to_string()).collect());
                    }
                })
                .unwrap(),
        );
    }
    while running.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        let stuck = started.lock().unwrap().iter().flatten().find(|(_, s)| s.elapsed() > limit).map(|(j, _)| *j);
        if let Some(j) = stuck {
            let (i, b) = &jobs[j];
            let h = bare_hist(&list[*i], b);
            results.lock().unwrap()[j] = Some(vec![h.to_string(), json!({"e": "hang", "c": -1}).to_string()]);
            write_out(&out, &results);
            println!("{}", json!({"stuck": j}));
            std::process::exit(4);
        }
    }
    let mut failed = false;
    for h in handles {
        failed |= h.join().is_err();
    }
    write_out(&out, &results);
    println!("{}", json!({"runs": jobs.len(), "failed": failed}));
    std::process::exit(if failed { 3 } else { 0 });
}
