//! Executes scenarios against granne and writes down what happened, one JSON object per line.
//!   harness MODE SCENARIOS.ndjson OUT.ndjson SCRATCH_DIR
mod coll;
mod dist;
mod fmt;
mod iofault;
mod kinds;
mod par;
mod parse;
mod rw;
mod sched;
mod seq;

use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    s.chars().take(160).collect()
}

/// Runs `f`; a panic becomes an Err with its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}

pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub sc: Value,
}
impl Out {
    pub fn emit(&mut self, mut v: Value) {
        v["sc"] = self.sc.clone();
        serde_json::to_writer(&mut self.f, &v).unwrap();
        self.f.write_all(b"\n").unwrap();
        // progress is watched from outside, and what happened before a crash counts
        self.f.flush().unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, inp, out, dir) = (&a[1], &a[2], &a[3], &a[4]);
    std::panic::set_hook(Box::new(|_| {}));
    sched::install();
    let mut out = Out { f: std::io::BufWriter::new(std::fs::File::create(out).unwrap()), sc: Value::Null };
    for line in std::io::BufReader::new(std::fs::File::open(inp).unwrap()).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let s: Value = serde_json::from_str(&line).unwrap();
        out.sc = s["id"].clone();
        kinds::set_ctx(kinds::Ctx { rows: rows(&s["rows"]), emb: rows(&s["emb"]), dir: dir.into() });
        out.emit(json!({"ev": "begin"}));
        match mode.as_str() {
            "seq" => seq::run(&s, &mut out),
            "coll" => coll::run(&s, &mut out),
            "rw" => rw::run(&s, &mut out),
            "par" => par::run(&s, &mut out),
            "io" => iofault::run(&s, &mut out),
            "parse" => parse::run(&s, &mut out),
            "fmt" => fmt::run(&s, &mut out),
            "dist" => dist::run(&s, &mut out),
            m => panic!("mode {}", m),
        }
        out.emit(json!({"ev": "end"}));
        out.f.flush().unwrap();
    }
}

fn rows(v: &Value) -> kinds::Rows {
    match v {
        Value::Array(a) => {
            a.iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()).collect()
        }
        _ => vec![],
    }
}

pub fn u(v: &Value, k: &str, d: usize) -> usize {
    v[k].as_u64().map_or(d, |x| x as usize)
}
pub fn list(v: &Value) -> Vec<usize> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
}
