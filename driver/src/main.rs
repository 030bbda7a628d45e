//! pkstl-driver SCENARIOS.ndjson TRACES.ndjson SEED INFLIGHT
//! Executes the scenarios one after the other. INFLIGHT holds the index of the scenario being executed.
//! Exit code 97: the scenario in flight does not end.
mod ctx;
mod mem;
mod stub;
mod wire;

use serde_json::Value;
use std::fs;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "--alone" {
        // one layer of a scenario, in this process of its own
        let seed: u64 = a[2].parse().expect("seed");
        let name = a[3].clone();
        let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let req: Value = serde_json::from_reader(std::io::stdin()).expect("request");
            print!("{}", ctx::alone(seed, &name, &req));
        });
        std::process::exit(if t.expect("thread").join().is_err() { 98 } else { 0 });
    }
    let seed: u64 = a[3].parse().expect("seed");
    let text = fs::read_to_string(&a[1]).expect("scenarios");
    let tick = Arc::new(AtomicU64::new(0));
    {
        let tick = tick.clone();
        std::thread::spawn(move || {
            let (mut last, mut idle) = (0, 0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let v = tick.load(Ordering::SeqCst);
                idle = if v == last { idle + 1 } else { 0 };
                last = v;
                if idle > 60 {
                    std::process::exit(97);
                }
            }
        });
    }
    let (path, out) = (a[4].clone(), a[2].clone());
    let run = move || {
        let mut f = std::io::BufWriter::new(fs::File::create(&out).expect("out"));
        for (i, l) in text.lines().filter(|l| !l.is_empty()).enumerate() {
            tick.fetch_add(1, Ordering::SeqCst);
            f.flush().expect("flush");
            fs::write(&path, format!("{}", i)).expect("inflight");
            let v: Value = serde_json::from_str(l).expect("scenario");
            let mut h = seed ^ 0x9E37;
            for b in v["id"].as_str().unwrap_or("").bytes() {
                h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01B3);
            }
            writeln!(f, "{}", ctx::run(&v, h)).expect("write");
        }
        f.flush().expect("flush");
    };
    let t = std::thread::Builder::new().stack_size(16 << 20).spawn(run).expect("thread");
    if t.join().is_err() {
        // the harness itself failed
        std::process::exit(98);
    }
}
