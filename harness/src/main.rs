mod body;
mod peer;
mod rbuf;
mod sim;
mod up;
mod world;

use serde_json::Value;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn run_one(v: &Value) -> Value {
    match v["role"].as_str().unwrap_or("server") {
        "rbuf" => rbuf::run(v),
        _ => world::run_scenario(v),
    }
}

/// hv IN.ndjson OUT.ndjson : runs every scenario of IN, one result line each.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).expect("open input"));
    let lines: Vec<String> = f.lines().map(|l| l.expect("read")).filter(|l| !l.is_empty()).collect();
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<String>> = lines.iter().map(|_| Mutex::new(String::new())).collect();
    // a poll that never returns is data: the watchdog names the scenario and stops the process
    let busy: std::sync::Arc<Vec<Mutex<Option<(usize, std::time::Instant)>>>> =
        std::sync::Arc::new((0..8).map(|_| Mutex::new(None)).collect());
    {
        let busy = busy.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for b in busy.iter() {
                if let Some((i, t)) = *b.lock().unwrap() {
                    if t.elapsed().as_secs() >= 20 {
                        println!("HANG {i}");
                        std::process::exit(77);
                    }
                }
            }
        });
    }
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for w in 0..n {
            let (busy, next, lines, out) = (&busy, &next, &lines, &out);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= lines.len() {
                        return;
                    }
                    let v: Value = serde_json::from_str(&lines[i]).expect("scenario json");
                    *busy[w].lock().unwrap() = Some((i, std::time::Instant::now()));
                    let r = run_one(&v);
                    *busy[w].lock().unwrap() = None;
                    *out[i].lock().unwrap() = r.to_string();
                })
                .unwrap();
        }
    });
    let mut o = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("open output"));
    for l in out {
        o.write_all(l.into_inner().unwrap().as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
    }
}
