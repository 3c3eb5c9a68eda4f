//! Conformance driver: executes generated cases against the real festa_rs code
//! and records what it did.
//!
//!   harness CASES TRACE [--threads N] [--timeout SECONDS] [--base-timeout S]
//!
//! CASES: one JSON object per line, {"g": group, "ev": [{"op": .., "a": [..]}, ..]}.
//! TRACE: the same groups; every event has gained
//!   "r": observed results (absent if the call did not return),
//!   "v": 1 if all spellings of the operation agreed, 0 otherwise,
//!   "p": "" or "panic: .." or "timeout".
mod ecops;
mod fieldops;
mod intops;
mod js;
mod protoops;
mod randops;
mod thetaops;
mod valops;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Context of a group: state kept between the events of one history.
#[derive(Default)]
pub struct Ctx {
    pub fp: Vec<festa_rs::fields::FpFESTA::Fp>,
    pub f2: Vec<festa_rs::fields::FpFESTAExt::Fp2>,
    pub pts: Vec<festa_rs::ecFESTA::Point>,
    pub kv: std::collections::HashMap<String, protoops::Obj>,
}

/// Result of an operation: observed values and whether all spellings agreed.
pub type Out = (Value, bool);

fn dispatch(op: &str, a: &Value, cx: &mut Ctx) -> Out {
    let fam = op.split('.').next().unwrap();
    match fam {
        "fp" | "f2" => fieldops::run(op, a, cx),
        "ec" => ecops::run(op, a, cx),
        "int" => intops::run(op, a, cx),
        "th" => thetaops::run(op, a, cx),
        "pr" => protoops::run(op, a, cx),
        "va" => valops::run(op, a),
        "rd" => randops::run(op, a),
        _ => panic!("harness: unknown op {}", op),
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".to_string()
    }
}

struct Slot {
    // group index, event index, start of the running event
    running: Option<(usize, usize, Instant)>,
    dead: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str, dflt: u64| -> u64 {
        args.iter()
            .position(|x| x == name)
            .map(|i| args[i + 1].parse().unwrap())
            .unwrap_or(dflt)
    };
    let nthreads = opt("--threads", 8) as usize;
    let timeout = Duration::from_secs(opt("--timeout", 60));
    std::panic::set_hook(Box::new(|_| {}));

    let f = std::fs::File::open(&args[1]).expect("cases");
    let groups: Vec<Value> = std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("case json"))
        .collect();
    let groups = Arc::new(groups);
    let results: Arc<Mutex<Vec<Vec<Value>>>> = Arc::new(Mutex::new(vec![Vec::new(); groups.len()]));
    let done = Arc::new(Mutex::new(vec![false; groups.len()]));
    let next = Arc::new(AtomicUsize::new(0));

    let spawn = |slot: Arc<Mutex<Slot>>| {
        let groups = groups.clone();
        let results = results.clone();
        let done = done.clone();
        let next = next.clone();
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || loop {
                let gi = next.fetch_add(1, Ordering::SeqCst);
                if gi >= groups.len() {
                    return;
                }
                let mut cx = Ctx::default();
                let evs = groups[gi]["ev"].as_array().unwrap();
                for (ei, ev) in evs.iter().enumerate() {
                    {
                        let mut s = slot.lock().unwrap();
                        if s.dead {
                            return;
                        }
                        s.running = Some((gi, ei, Instant::now()));
                    }
                    let op = ev["op"].as_str().unwrap().to_string();
                    let r = catch_unwind(AssertUnwindSafe(|| dispatch(&op, &ev["a"], &mut cx)));
                    let mut o = ev.clone();
                    match r {
                        Ok((val, v)) => {
                            o["r"] = val;
                            o["v"] = json!(if v { 1 } else { 0 });
                            o["p"] = json!("");
                        }
                        Err(e) => {
                            let t = panic_text(e);
                            if t.starts_with("harness:") {
                                eprintln!("{} in {}", t, op);
                                std::process::exit(2);
                            }
                            o["v"] = json!(1);
                            o["p"] = json!(format!("panic: {}", t));
                        }
                    }
                    let mut s = slot.lock().unwrap();
                    if s.dead {
                        return;
                    }
                    s.running = None;
                    results.lock().unwrap()[gi].push(o);
                }
                done.lock().unwrap()[gi] = true;
            })
            .unwrap()
    };

    let mut slots: Vec<(Arc<Mutex<Slot>>, std::thread::JoinHandle<()>)> = Vec::new();
    for _ in 0..nthreads {
        let s = Arc::new(Mutex::new(Slot { running: None, dead: false }));
        let h = spawn(s.clone());
        slots.push((s, h));
    }
    loop {
        let mut alive = false;
        let mut fresh = 0;
        for (s, h) in slots.iter() {
            let mut g = s.lock().unwrap();
            if g.dead {
                continue;
            }
            if let Some((gi, ei, t)) = g.running {
                if t.elapsed() > timeout {
                    g.dead = true;
                    let evs = groups[gi]["ev"].as_array().unwrap();
                    let mut res = results.lock().unwrap();
                    for (k, ev) in evs.iter().enumerate().skip(ei) {
                        let mut o = ev.clone();
                        o["v"] = json!(1);
                        o["p"] = json!(if k == ei { "timeout" } else { "skipped after timeout" });
                        res[gi].push(o);
                    }
                    done.lock().unwrap()[gi] = true;
                    fresh += 1;
                    continue;
                }
            }
            if !h.is_finished() {
                alive = true;
            }
        }
        for _ in 0..fresh {
            let s = Arc::new(Mutex::new(Slot { running: None, dead: false }));
            let h = spawn(s.clone());
            slots.push((s, h));
            alive = true;
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let done = done.lock().unwrap();
    let results = results.lock().unwrap();
    let mut w = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("trace"));
    for (gi, g) in groups.iter().enumerate() {
        if !done[gi] {
            eprintln!("harness: group {} was not completed", gi);
            std::process::exit(2);
        }
        let mut o = json!({"g": g["g"], "ev": results[gi]});
        if g.get("c").is_some() {
            o["c"] = g["c"].clone();
        }
        writeln!(w, "{}", o).unwrap();
    }
    w.flush().unwrap();
    std::process::exit(0);
}
