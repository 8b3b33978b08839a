//! Runs cases derived from the TLA+ specifications against the crates in /repo.
//! One JSON case per line on stdin, one line "R <json>" per case on stdout.
//! Exit 3: the case was not understood (an error of the harness).
//! Exit 99: a case took longer than the limit given as first argument.
mod alloc;
mod builder;
mod clamp;
mod expr;
mod handles;
mod matrix;
mod network;
mod newton;
mod program;
mod solver_handles;
mod store;
mod system;
mod text;
mod units;
mod util;
mod wiring;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

static CASE_NO: AtomicU64 = AtomicU64::new(0);

fn dispatch(case: &Value) -> Value {
    match case["kind"].as_str().unwrap_or("") {
        "expr" => expr::expr(case),
        "handles" => handles::handles(case),
        "solver_handles" => solver_handles::solver_handles(case),
        "matrix" => matrix::matrix(case),
        "invert" => matrix::invert(case),
        "network" => network::network(case),
        "model" => network::model(case),
        "newton" => newton::newton(case),
        "mnewton" => newton::mnewton(case),
        "builder" => builder::builder(case),
        "clamp" => clamp::clamp(case),
        "program" => program::program(case),
        "system" => system::system(case),
        "one" => system::one(case),
        "compile" => text::compile_text(case),
        "text" => text::text(case),
        "units" => units::units(case),
        "convert" => units::conversions(case),
        "store" => store::store(case),
        "wiring" => wiring::wiring(case),
        other => {
            eprintln!("unknown kind {other:?}");
            std::process::exit(3)
        }
    }
}

fn main() {
    let limit: u64 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(20);
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut ticks = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = CASE_NO.load(Ordering::SeqCst);
            ticks = if now == last { ticks + 1 } else { 0 };
            last = now;
            if ticks > 2 * limit {
                std::process::exit(99);
            }
        }
    });
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let case: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("bad case: {e}");
                std::process::exit(3)
            }
        };
        let res = match catch_unwind(AssertUnwindSafe(|| dispatch(&case))) {
            Ok(v) => v,
            Err(p) => {
                alloc::off();
                json!({ "panic": util::panic_text(&p) })
            }
        };
        let mut text = format!("R {}", res);
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
        out.flush().unwrap();
        CASE_NO.fetch_add(1, Ordering::SeqCst);
    }
}
