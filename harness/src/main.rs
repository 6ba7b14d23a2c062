//! Runs cases against the real crate, through its public API only, and prints one
//! observation per case (JSON lines).  It judges nothing: the observations are
//! checked against the TLA+ specification by TLC.
//!
//! usage: pe-harness CASES.ndjson OBS.ndjson [THREADS]
mod data;
mod eval;
mod geom;
mod logging;
mod names;
mod obj;
mod place;
mod system;

use serde_json::{json, Value};
use std::{
    fs::File,
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering},
        Arc, Barrier, Mutex,
    },
    time::{Duration, Instant},
};

/// A case that takes longer than this has hung.
const LIMIT: Duration = Duration::from_secs(20);

fn run(case: &Value) -> Value {
    obj::set_unit(case);
    match case["k"].as_str().unwrap() {
        "filter" => eval::filter(case),
        "frame" => eval::frame(case),
        "session" => eval::session(case),
        "lookup" => eval::lookup(case),
        "score" => geom::score(case),
        "math" => geom::math(case),
        "box" => geom::shape(case),
        "names" => names::names(case),
        "config" => names::config(case),
        "tokens" => data::tokens(case),
        "record" => data::record(case),
        "dataset" => data::dataset(case),
        "cloud" => data::cloud(case),
        "logging" => logging::logging(case),
        "pipeline" => system::pipeline(case),
        other => panic!("harness: unknown case kind {other}"),
    }
}

/// The case each thread is at (-1: none) and since when.
struct Watch {
    current: AtomicI64,
    since: AtomicU64,
}

fn observe(case: &Value) -> Value {
    let id = case["id"].as_i64().unwrap();
    match catch_unwind(AssertUnwindSafe(|| run(case))) {
        Ok(obs) => json!({"id": id, "st": "ok", "obs": obs}),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("harness:") {
                eprintln!("case {id}: {msg}");
                std::process::exit(4);
            }
            json!({"id": id, "st": "panic", "msg": msg})
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let threads: usize = args.get(3).map_or(1, |n| n.parse().unwrap());
    let cases: Vec<Value> = BufReader::new(File::open(&args[1]).unwrap())
        .lines()
        .map(|line| line.unwrap())
        .filter(|line| !line.trim().is_empty())
        .map(|line| serde_json::from_str(&line).unwrap())
        .collect();
    let out = Arc::new(Mutex::new(
        File::options().create(true).append(true).open(&args[2]).unwrap(),
    ));
    std::panic::set_hook(Box::new(|_| {}));

    let start = Instant::now();
    let watches: Arc<Vec<Watch>> = Arc::new(
        (0..threads).map(|_| Watch { current: AtomicI64::new(-1), since: AtomicU64::new(0) }).collect(),
    );
    {
        let (watches, out) = (watches.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            for w in watches.iter() {
                let id = w.current.load(Ordering::SeqCst);
                let t = w.since.load(Ordering::SeqCst);
                if id >= 0 && start.elapsed().as_millis() as u64 > t + LIMIT.as_millis() as u64 {
                    let mut out = out.lock().unwrap();
                    writeln!(out, "{}", json!({"id": id, "st": "hang"})).unwrap();
                    out.flush().unwrap();
                    std::process::exit(3);
                }
            }
        });
    }

    let watched = |w: &Watch, case: &Value| {
        w.since.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
        w.current.store(case["id"].as_i64().unwrap(), Ordering::SeqCst);
        let obs = observe(case);
        w.current.store(-1, Ordering::SeqCst);
        obs
    };
    let write = |obs: &Value| {
        let mut out = out.lock().unwrap();
        writeln!(out, "{}", obs).unwrap();
        out.flush().unwrap();
    };
    if threads == 1 {
        for case in &cases {
            write(&watched(&watches[0], case));
        }
        return;
    }
    // All threads at work on different cases at the same time, on every case twice; another
    // observation of a case is only written if it differs from the first.
    let next = AtomicUsize::new(0);
    let begin = Barrier::new(threads);
    let seen: Vec<Mutex<Option<Value>>> = cases.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|scope| {
        for w in watches.iter() {
            let (next, begin, seen, cases) = (&next, &begin, &seen, &cases);
            scope.spawn(move || {
                begin.wait();
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= 2 * cases.len() {
                        return;
                    }
                    let k = k % cases.len();
                    let mut first = seen[k].lock().unwrap(); // a case never runs twice at a time
                    let obs = watched(w, &cases[k]);
                    if first.as_ref() != Some(&obs) {
                        write(&obs);
                        first.get_or_insert(obs);
                    }
                }
            });
        }
    });
}
