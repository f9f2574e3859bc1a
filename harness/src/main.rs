//! Replays scenarios against the real library and writes down what it did.
//!
//! usage: harness CASES.jsonl TRACE.jsonl [FIRST]
//! One JSON object per line in both files; every finished case is flushed, so that a death of this
//! process names the case it happened in. Nothing is judged here: that is the specification's job.
mod calc;
mod ffi;
mod geom;
mod many;
mod query;
mod session;
mod tower;

mod ledger;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

/// What is counted over a whole process starts with a process of its own
fn alone(line: &str) -> Vec<Value> {
    let mut p = std::process::Command::new(std::env::current_exe().expect("TOOL: exe"))
        .arg("--one")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("TOOL: spawn");
    p.stdin.take().unwrap().write_all(line.as_bytes()).ok();
    let o = p.wait_with_output().expect("TOOL: wait");
    if !o.status.success() {
        std::process::exit(o.status.code().unwrap_or(134));
    }
    serde_json::from_slice(&o.stdout).expect("TOOL: events")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if args[1] == "--one" {
        let case: Value = serde_json::from_reader(std::io::stdin()).expect("case");
        println!("{}", Value::Array(session::run_case(&case)));
        return;
    }
    let cases = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("trace");
    let first: usize = args.get(3).map(|a| a.parse().unwrap()).unwrap_or(0);
    for (i, line) in cases.lines().enumerate() {
        let line = line.expect("line");
        if i < first || line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case");
        let evs = if case["ops"][0]["op"] == "ledger" { alone(&line) } else { session::run_case(&case) };
        let mut o = case.as_object().unwrap().clone();
        o.remove("ops");
        o.insert("evs".into(), Value::Array(evs));
        let mut s = serde_json::to_string(&json!(o)).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).expect("write");
        out.flush().expect("flush");
    }
}
