//! Conformance harness: drives the real crate and records what it does as
//! ndjson traces, or replays behaviours generated from the specification.
mod gentext;
mod genval;
mod util;
mod parse;
mod numbers;
mod emit;
mod replay;
mod alloc;
mod obj;
mod dom;
mod facts;
mod shared;
mod bulk;

use std::sync::atomic::{AtomicU64, Ordering};

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn progress() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // harness DRIVER PROP SEED N TIER OUT [extra...]
    if args.len() < 7 {
        eprintln!("usage: harness driver prop seed n tier out [args]");
        std::process::exit(2);
    }
    let careful = std::env::var("CAREFUL").is_ok();
    // Panics of the code under test are caught and recorded; the last message
    // is kept for the one that ends the driver.
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut m) = LAST_PANIC.lock() {
            *m = info.to_string();
        }
    }));
    // A call that does not return is ended, and seen by the runner (exit 97).
    std::thread::spawn(|| {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle >= 120 {
                std::process::exit(97);
            }
        }
    });
    let mut cx = util::Ctx::new(
        &args[2],
        args[3].parse().unwrap(),
        args[4].parse().unwrap(),
        args[5] == "thorough",
        &args[6],
        careful,
        args[7..].to_vec(),
    );
    let driver = args[1].clone();
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&driver, &mut cx)));
    if done.is_err() {
        cx.flush();
        eprintln!("driver ended by: {}", LAST_PANIC.lock().unwrap());
        std::process::exit(98);
    }
    cx.finish();
    println!("events={} bytes={}", cx.events, cx.bytes);
}

fn run(driver: &str, cx: &mut util::Ctx) {
    match driver {
        "parse" => parse::drive(cx),
        "numbers" => numbers::drive(cx),
        "emit" => emit::drive(cx),
        "replay" => replay::drive(cx),
        "obj" => obj::drive(cx),
        "dom" => dom::drive(cx),
        "facts" => facts::drive(cx),
        "bulk" => bulk::drive(cx),
        "shared" => shared::drive(cx),
        other => {
            eprintln!("no driver {}", other);
            std::process::exit(2);
        }
    }
}
