//! RwGranneBuilder used by several threads, under controlled schedules.
//!   {"id", "kind", "rows", "cfg", "cap", "pool", "init": [rows], "threads": [[op, ..], ..],
//!    "policy": {"kind": "random"|"dfs"|"pct"|"soft"|"os"|"workers", "seed", "runs", "bound", "workers"}}
//! Events of one run: init, (call | ret | panic | deadlock | hang)*, final. Runs with the same events as an
//! earlier one are counted, not written.
use crate::kinds::*;
use crate::sched::{self, Policy, Rng};
use crate::seq::{config, dump_layers, res_json};
use crate::{guarded, list, u, Out};
use granne::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

/// a writer at which the writing thread may be interrupted
struct Yielding(Cursor<Vec<u8>>);
impl Write for Yielding {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sched::yield_point();
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        sched::yield_point();
        Ok(())
    }
}
impl Seek for Yielding {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

fn loaded<K: Kind>(i: Vec<u8>, e: Vec<u8>) -> Granne<'static, K::C> {
    Granne::from_bytes(leak(i), K::load_bytes(leak(e)))
}

fn state<K: Kind>(i: Vec<u8>, e: Vec<u8>) -> Value {
    match guarded(|| {
        let g = loaded::<K>(i, e);
        let els: Vec<Value> = (0..g.get_elements().len()).map(|i| K::describe(g.get_elements(), i)).collect();
        json!({"layers": dump_layers(&g), "els": els})
    }) {
        Ok(v) => v,
        Err(m) => json!({"bad": m}),
    }
}

fn save<K: Kind>(b: &RwGranneBuilder<K::C>) -> Result<(Vec<u8>, Vec<u8>), String> {
    let mut i = Yielding(Cursor::new(vec![]));
    let mut e = Yielding(Cursor::new(vec![]));
    b.write(&mut i, &mut e).map_err(|e| e.to_string())?;
    Ok((i.0.into_inner(), e.0.into_inner()))
}

static LOG: Mutex<Vec<Value>> = Mutex::new(vec![]);
/// events are appended in the order in which they happen
fn log(v: Value) {
    LOG.lock().unwrap().push(v)
}

type Saves = Mutex<HashMap<usize, (Vec<u8>, Vec<u8>)>>;

fn op<K: Kind>(b: &RwGranneBuilder<K::C>, t: usize, op: &Value, saves: &Saves) {
    let name = op["op"].as_str().unwrap();
    sched::yield_point();
    let mut ev = op.clone();
    ev["ev"] = json!("call");
    ev["t"] = json!(t);
    log(ev);
    let mut r = match name {
        "insert" => {
            let r = b.insert(K::item(u(op, "row", 0)));
            json!({"ids": r.into_iter().collect::<Vec<_>>()})
        }
        "batch" => json!({"ids": b.insert_batch(list(&op["rows"]).into_iter().map(K::item).collect())}),
        "search" => json!({"res": res_json(b.search(&K::query(u(op, "q", 0)), u(op, "ms", 10), u(op, "k", 10)))}),
        "len" => json!({"len": b.len(), "empty": b.is_empty()}),
        "get" => {
            // an element known to be there
            let n = b.len();
            if n == 0 {
                json!({"id": -1})
            } else {
                let id = u(op, "i", 0) % n;
                b.get_element(id);
                let e = b.get_elements();
                json!({"id": id, "el": K::describe(&e, id)})
            }
        }
        "save" => match save::<K>(b) {
            Ok(x) => {
                let mut s = saves.lock().unwrap();
                let n = s.len();
                s.insert(n, x);
                json!({"save": n})
            }
            Err(m) => json!({"err": m}),
        },
        o => panic!("op {}", o),
    };
    r["ev"] = json!("ret");
    r["t"] = json!(t);
    r["op"] = json!(name);
    log(r);
}

fn builder<K: Kind>(s: &Value, pool: usize) -> RwGranneBuilder<K::C> {
    let mut c = K::empty();
    for r in list(&s["init"]) {
        c.push(K::item(r));
    }
    if s["pre"].is_object() {
        // continue with an index built with another configuration
        let mut b = GranneBuilder::new(config(&s["pre"]), c.clone());
        b.build();
        let mut i = Cursor::new(vec![]);
        b.write_index(&mut i).unwrap();
        let b = GranneBuilder::from_bytes(config(&s["cfg"]), &i.into_inner(), c);
        return RwGranneBuilder::new(b, u(s, "cap", 10), pool);
    }
    RwGranneBuilder::new(GranneBuilder::new(config(&s["cfg"]), c), u(s, "cap", 10), pool)
}

/// the graphs and answers of inserting the elements one at a time, for every number of elements
fn reference<K: Kind>(s: &Value, rows: &[usize], queries: &[(usize, usize, usize)]) -> Result<(Value, Value), String> {
    guarded(|| {
        let b = builder::<K>(s, 1);
        let (mut graphs, mut answers) = (vec![], vec![]);
        for m in 0..=rows.len() {
            if m > 0 {
                b.insert(K::item(rows[m - 1])).expect("refused");
            }
            let (i, e) = save::<K>(&b).unwrap();
            let g = loaded::<K>(i, e);
            graphs.push(dump_layers(&g));
            answers.push(queries.iter().map(|&(q, ms, k)| res_json(g.search(&K::query(q), ms, k))).collect::<Vec<_>>());
        }
        (json!(graphs), json!(answers))
    })
}

fn go<K: Kind>(s: &Value, out: &mut Out) {
    let one = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let threads: Vec<Vec<Value>> = s["threads"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect();
    let n = threads.len();
    let pool = u(s, "pool", 1);
    let pol = &s["policy"];
    let kind = pol["kind"].as_str().unwrap_or("random");
    let (seed, runs, bound) = (u(pol, "seed", 1), u(pol, "runs", 10), u(pol, "bound", 2));
    let mut rng = Rng((seed as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..5 {
        rng.next();
    }
    let mut choices: Vec<usize> = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    let mut refs: HashMap<Vec<usize>, (Value, Value)> = HashMap::new();
    let (mut steps, mut total, mut free, mut wall) = (0usize, 0usize, 0usize, std::time::Instant::now());
    let budget = u(pol, "ms", 20000) as u128;
    let mut exhausted = false;
    let mut len = 400usize;
    let queries: Vec<(usize, usize, usize)> = {
        let mut q: Vec<_> = threads
            .iter()
            .flatten()
            .filter(|o| o["op"] == "search")
            .map(|o| (u(o, "q", 0), u(o, "ms", 10), u(o, "k", 10)))
            .collect();
        q.sort();
        q.dedup();
        q
    };
    let _ = &mut wall;
    {
        let n = ctx().rows.len();
        let desc: Vec<Value> = (0..n).map(K::describe_row).collect();
        out.emit(json!({"ev": "matrix", "D": dist_matrix::<K>(n), "dup": fbits(100.0 * f32::EPSILON), "desc": desc}));
    }
    for run in 0..runs {
        if wall.elapsed().as_millis() > budget {
            break;
        }
        LOG.lock().unwrap().clear();
        let built = guarded(|| one.install(|| builder::<K>(s, pool)));
        let b = match built {
            Ok(b) => Arc::new(b),
            Err(m) => {
                out.emit(json!({"ev": "panic", "run": run, "t": 0, "msg": m}));
                break;
            }
        };
        let init = {
            let (i, e) = one.install(|| save::<K>(&b)).unwrap();
            state::<K>(i, e)
        };
        let saves: Arc<Saves> = Arc::new(Mutex::new(HashMap::new()));
        let mut dead = false;
        let mut trail = vec![];
        if kind == "soft" || kind == "os" || kind == "workers" {
            if kind == "soft" {
                sched::soft_begin(rng.next());
            }
            let left = Arc::new(std::sync::atomic::AtomicUsize::new(n));
            // the callers may themselves be tasks of a rayon pool, with fewer threads than there are tasks
            let outer = if kind == "workers" {
                Some(rayon::ThreadPoolBuilder::new().num_threads(u(pol, "workers", 2)).build().unwrap())
            } else {
                None
            };
            for (t, ops) in threads.iter().cloned().enumerate() {
                let (b, saves, left) = (b.clone(), saves.clone(), left.clone());
                let task = move || {
                    for o in &ops {
                        if let Err(m) = guarded(|| op::<K>(&b, t + 1, o, &saves)) {
                            log(json!({"ev": "panic", "t": t + 1, "msg": m}));
                            break;
                        }
                    }
                    left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                };
                match &outer {
                    Some(p) => p.spawn(task),
                    None => {
                        std::thread::spawn(task);
                    }
                }
            }
            let t0 = std::time::Instant::now();
            while left.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_micros(100));
                if t0.elapsed().as_secs() > 20 {
                    log(json!({"ev": "hang", "t": 0}));
                    dead = true;
                    break;
                }
            }
            sched::soft_end();
        } else {
            let policy = match kind {
                "dfs" => Policy::Dfs { choices: choices.clone(), bound },
                "pct" => {
                    let d = 1 + rng.below(4);
                    Policy::Pct {
                        prio: (0..n).map(|_| 1000 + rng.next() % 1000).collect(),
                        change: (0..d).map(|_| rng.below(len)).collect(),
                        rng: Rng(rng.next() | 1),
                    }
                }
                _ => Policy::Random(Rng(rng.next() | 1)),
            };
            let (b2, saves2) = (b.clone(), saves.clone());
            let th = threads.clone();
            let r = sched::run_strict(
                n,
                policy,
                Arc::new(move |t: usize| {
                    for o in &th[t] {
                        op::<K>(&b2, t + 1, o, &saves2);
                    }
                }),
            );
            steps += r.steps;
            len = r.steps.max(10);
            trail = r.trail;
            free += r.free as usize;
            for mut e in r.log {
                // deadlocks and panics are noticed by the scheduler
                if e["ev"] == "panic" {
                    e["t"] = json!(e["t"].as_u64().unwrap() + 1);
                }
                log(e);
            }
            if r.hung {
                log(json!({"ev": "hang", "t": 0}));
            }
            dead = r.dead || r.hung;
        }
        total += 1;
        let mut evs = std::mem::take(&mut *LOG.lock().unwrap());
        let broken = dead || evs.iter().any(|e| e["ev"] == "panic");
        if dead {
            std::mem::forget(b.clone());
        }
        let mut fin = None;
        if !broken {
            match guarded(|| one.install(|| (save::<K>(&b), b.len()))) {
                Ok((Ok((i, e)), l)) => {
                    let mut v = state::<K>(i, e);
                    v["ev"] = json!("final");
                    v["len"] = json!(l);
                    let el = b.get_elements();
                    v["mem"] = json!((0..l).map(|i| K::describe(&el, i)).collect::<Vec<_>>());
                    fin = Some(v);
                }
                Ok((Err(m), _)) => evs.push(json!({"ev": "panic", "t": 0, "msg": m})),
                Err(m) => evs.push(json!({"ev": "panic", "t": 0, "msg": m})),
            }
        }
        for e in evs.iter_mut() {
            if let Some(k) = e["save"].as_u64() {
                if let Some((i, l)) = saves.lock().unwrap().remove(&(k as usize)) {
                    let st = state::<K>(i, l);
                    for (k, x) in st.as_object().unwrap() {
                        e[k] = x.clone();
                    }
                }
                e.as_object_mut().unwrap().remove("save");
            }
        }
        // the order in which rows were inserted, as the ids say
        let mut order: HashMap<usize, usize> = HashMap::new();
        let mut open: HashMap<u64, Value> = HashMap::new();
        for e in &evs {
            let t = e["t"].as_u64().unwrap_or(0);
            if e["ev"] == "call" {
                open.insert(t, e.clone());
            } else if e["ev"] == "ret" && e["ids"].is_array() {
                let c = &open[&t];
                let rows = if c["op"] == "insert" { vec![u(c, "row", 0)] } else { list(&c["rows"]) };
                for (i, id) in list(&e["ids"]).into_iter().enumerate() {
                    if i < rows.len() {
                        order.insert(id, rows[i]);
                    }
                }
            }
        }
        let n0 = list(&s["init"]).len();
        let rows: Vec<usize> = (n0..n0 + order.len()).map_while(|i| order.get(&i).copied()).collect();
        let mut reference_bad = None;
        if pool == 1 && !broken && !refs.contains_key(&rows) {
            match one.install(|| reference::<K>(s, &rows, &queries)) {
                Ok(x) => {
                    refs.insert(rows.clone(), x);
                }
                Err(m) => reference_bad = Some(m),
            }
        }
        let key = serde_json::to_string(&evs).unwrap() + &serde_json::to_string(&fin).unwrap();
        if seen.insert(key) {
            let mut i = init;
            i["ev"] = json!("init");
            i["run"] = json!(run);
            out.emit(i);
            for mut e in evs {
                e["run"] = json!(run);
                out.emit(e);
            }
            if let Some(mut f) = fin {
                f["run"] = json!(run);
                if let Some((g, a)) = refs.get(&rows) {
                    f["ref"] = g.clone();
                    f["answers"] = a.clone();
                    f["queries"] = json!(queries);
                }
                if let Some(m) = reference_bad {
                    f["refbad"] = json!(m);
                }
                out.emit(f);
            }
        }
        if dead && (kind == "workers" || kind != "dfs" && total > 3) {
            break;
        }
        if kind == "dfs" {
            match sched::next_choices(&trail, bound) {
                Some(c) => choices = c,
                None => {
                    exhausted = true;
                    break;
                }
            }
        }
    }
    out.emit(json!({"ev": "stats", "run": -1, "runs": total, "steps": steps, "distinct": seen.len(), "free": free, "exhausted": exhausted}));
}

pub fn run(s: &Value, out: &mut Out) {
    match s["kind"].as_str().unwrap_or("tab") {
        "tab" => go::<KTab>(s, out),
        "ang" => go::<KAng>(s, out),
        "int" => go::<KInt>(s, out),
        "sum" => go::<KSum>(s, out),
        k => panic!("kind {}", k),
    }
}
