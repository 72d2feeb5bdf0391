//! Op-script interpreter: binds the TLA+ specification to rust_xlsxwriter.
//!
//! stdin: one JSON case per line `{"id": .., "ops": [..]}`; every op is executed
//! through the public API under `catch_unwind`, and the result kind is logged.
//! stdout: one JSON line per case `{"id": .., "res": [..]}`.
mod fmt;
mod ops;
mod io;
mod objects;
mod pure;
mod rules;
mod charts;
mod ser;
mod texts;
mod sched;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out_dir = args.get(1).cloned().unwrap_or_else(|| ".".into());
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("bad case json");
        let res = ops::run_case(&case, &out_dir);
        writeln!(out, "{}", json!({"id": case["id"], "res": res})).unwrap();
    }
    out.flush().unwrap();
}
