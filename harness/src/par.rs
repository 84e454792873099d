//! Multi-threaded builds (and batch inserts) under perturbed schedules; the distinct graphs are reported.
//!   {"id", "kind", "rows", "n", "cfg", "T", "runs", "seed", "how": "build"|"batch"|"steps", "mode": "soft"|"os"}
use crate::kinds::*;
use crate::sched;
use crate::seq::{config, dump_layers};
use crate::{guarded, list, u, Out};
use granne::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::sync::mpsc;
use std::time::Duration;

fn once<K: Kind>(s: &Value) -> Value {
    let n = u(s, "n", 3);
    let t = u(s, "T", 2);
    match s["how"].as_str().unwrap_or("build") {
        "batch" => {
            // a batch inserted into the concurrent builder
            let mut cfg = s["cfg"].clone();
            cfg["exp"] = json!(0);
            let b = RwGranneBuilder::new(GranneBuilder::new(config(&cfg), K::empty()), n, t);
            let ids = b.insert_batch((0..n).map(K::item).collect());
            assert_eq!(ids, (0..n).collect::<Vec<_>>(), "ids");
            let (mut i, mut e) = (Cursor::new(vec![]), vec![]);
            b.write(&mut i, &mut e).unwrap();
            dump_layers(&Granne::from_bytes(leak(i.into_inner()), K::load_bytes(leak(e))))
        }
        how => {
            let mut c = K::empty();
            for r in 0..n {
                c.push(K::item(r));
            }
            let mut b = GranneBuilder::new(config(&s["cfg"]), c);
            if how == "steps" {
                for k in list(&s["steps"]) {
                    b.build_partial(k);
                }
            }
            b.build();
            assert_eq!(b.len(), n);
            dump_layers(&b)
        }
    }
}

fn go<K: Kind>(s: &Value, out: &mut Out) {
    let n = ctx().rows.len();
    let desc: Vec<Value> = (0..n).map(K::describe_row).collect();
    out.emit(json!({"ev": "matrix", "D": dist_matrix::<K>(n), "dup": fbits(100.0 * f32::EPSILON), "desc": desc}));
    let mut rng = sched::Rng((u(s, "seed", 1) as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..5 {
        rng.next();
    }
    let mut seen: BTreeMap<String, (Value, usize)> = BTreeMap::new();
    let mut ops = 0;
    let mut failures: BTreeMap<String, usize> = BTreeMap::new();
    let soft = s["mode"].as_str().unwrap_or("soft") == "soft";
    let pool = std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(u(s, "T", 2)).build().unwrap());
    let (t0, budget) = (std::time::Instant::now(), u(s, "ms", 10000) as u128);
    let mut runs = 0;
    for _ in 0..u(s, "runs", 10) {
        if t0.elapsed().as_millis() > budget {
            break;
        }
        runs += 1;
        if soft {
            sched::soft_begin(rng.next());
        }
        let (tx, rx) = mpsc::channel();
        let (s2, p2) = (s.clone(), pool.clone());
        let h = std::thread::spawn(move || {
            let r = guarded(|| if s2["how"] == "batch" { once::<K>(&s2) } else { p2.install(|| once::<K>(&s2)) });
            let _ = tx.send(r);
        });
        let r = rx.recv_timeout(Duration::from_secs(25));
        ops += sched::soft_end();
        match r {
            Ok(Ok(g)) => {
                let _ = h.join();
                seen.entry(g.to_string()).or_insert((g, 0)).1 += 1;
            }
            Ok(Err(m)) => *failures.entry(m).or_insert(0) += 1,
            Err(_) => {
                *failures.entry("no end".into()).or_insert(0) += 1;
                break;
            }
        }
    }
    for (m, k) in failures {
        out.emit(json!({"ev": "failure", "msg": m, "times": k}));
    }
    for (g, k) in seen.into_values() {
        out.emit(json!({"ev": "graph", "layers": g, "times": k}));
    }
    out.emit(json!({"ev": "stats", "runs": runs, "ops": ops}));
}

pub fn run(s: &Value, out: &mut Out) {
    match s["kind"].as_str().unwrap_or("tab") {
        "tab" => go::<KTab>(s, out),
        "ang" => go::<KAng>(s, out),
        "int" => go::<KInt>(s, out),
        "sum" => go::<KSum>(s, out),
        k => panic!("kind {}", k),
    }
}
