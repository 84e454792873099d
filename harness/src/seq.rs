//! Histories of the building / searching / saving API, executed one call at a time.
use crate::kinds::*;
use crate::{guarded, list, u, Out};
use granne::*;
use serde_json::{json, Value};
use std::io::{Cursor, Seek, SeekFrom, Write};

pub fn config(c: &Value) -> BuildConfig {
    let mut b = BuildConfig::new();
    // settings that are not made (the values given are the documented defaults)
    let left: Vec<&str> = c["defaults"].as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_str()).collect());
    let mut c = c.clone();
    for k in left {
        c[k] = Value::Null;
    }
    if let Some(x) = c["nn"].as_u64() {
        b = b.num_neighbors(x as usize)
    }
    if let Some(x) = c["ms"].as_u64() {
        b = b.max_search(x as usize)
    }
    if let Some(x) = c["mult"].as_f64() {
        b = b.layer_multiplier(x as f32)
    }
    if let Some(x) = c["exp"].as_u64() {
        if x > 0 {
            b = b.expected_num_elements(x as usize)
        }
    }
    if let Some(x) = c["reinsert"].as_bool() {
        b = b.reinsert_elements(x)
    }
    if let Some(x) = c["progress"].as_bool() {
        b = b.show_progress(x)
    }
    b
}

pub fn dump_layers(ix: &impl Index) -> Value {
    let mut ls = vec![];
    for l in 0..ix.num_layers() {
        let n = ix.layer_len(l);
        ls.push((0..n).map(|i| ix.get_neighbors(i, l)).collect::<Vec<_>>());
    }
    json!(ls)
}

/// FNV digest of the layers (neighbour sets), for graphs too large to write out
pub fn digest_layers(ix: &impl Index) -> Vec<u32> {
    (0..ix.num_layers()).map(|l| digest_of((0..ix.layer_len(l)).map(|i| ix.get_neighbors(i, l)))).collect()
}

fn digest_of(lists: impl Iterator<Item = Vec<usize>>) -> u32 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut eat = |x: u64| {
        for b in x.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    };
    for mut n in lists {
        n.sort();
        eat(n.len() as u64);
        for x in n {
            eat(x as u64);
        }
    }
    (h >> 33) as u32
}

pub fn res_json(r: Vec<(usize, f32)>) -> Value {
    json!(r.iter().map(|&(i, d)| json!([i, fbits(d)])).collect::<Vec<_>>())
}

/// An index file with the given layers, every list stored raw.
pub fn craft(layers: &[Vec<Vec<u32>>]) -> Vec<u8> {
    let mut body = vec![];
    let mut sizes = vec![];
    let counts: Vec<usize> = layers.iter().map(|l| l.len()).collect();
    for l in layers {
        let start = body.len();
        let nchunks = 1 + l.len() / 60;
        body.extend(((nchunks * 128) as u64).to_le_bytes());
        let mut data: Vec<u8> = vec![];
        let mut offs: Vec<usize> = vec![0];
        for n in l {
            let mut n = n.clone();
            n.sort();
            data.push(n.len() as u8);
            let mut prev = 0;
            for x in n {
                data.extend((x - prev).to_le_bytes());
                prev = x;
            }
            offs.push(data.len());
        }
        for c in 0..nchunks {
            let part = &offs[c * 60..offs.len().min(c * 60 + 60)];
            let init = part[0];
            body.extend((init as u64).to_le_bytes());
            for i in 0..60 {
                let d = if i < part.len() { part[i] - if i == 0 { init } else { part[i - 1] } } else { 0xFFFF };
                body.extend((d as u16).to_le_bytes());
            }
        }
        body.extend(data);
        sizes.push(body.len() - start);
    }
    let meta = format!(
        "granne{}",
        json!({"granne_version": "0.5.2", "version": 2, "num_elements": counts.last().copied().unwrap_or(0),
        "num_layers": counts.len(), "num_neighbors": 0, "layer_counts": counts, "layer_sizes": sizes, "compressed": true})
    );
    let mut v = meta.into_bytes();
    v.resize(1024, b' ');
    v.extend(body);
    v
}

enum Ix<K: Kind> {
    Owned(Granne<'static, K::C>),
}

fn index_state<K: Kind>(g: &Granne<'static, K::C>) -> Value {
    json!({"len": g.len(), "layers": dump_layers(g),
        "els": (0..g.get_elements().len()).map(|i| K::describe(g.get_elements(), i)).collect::<Vec<_>>()})
}

pub struct World<K: Kind> {
    b: Option<GranneBuilder<K::C>>,
    ix: std::collections::HashMap<String, Ix<K>>,
    saved: std::collections::HashMap<String, (Vec<u8>, Vec<u8>)>,
    order: Vec<usize>,
}

fn layers_of(v: &Value) -> Vec<Vec<Vec<u32>>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|l| l.as_array().unwrap().iter().map(|n| list(n).into_iter().map(|x| x as u32).collect()).collect())
        .collect()
}

fn write_ix(ix: &impl Index, pad: usize) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    c.write_all(&vec![0xAB; pad]).unwrap();
    ix.write_index(&mut c).map_err(|e| e.to_string())?;
    let v = c.into_inner();
    if v[..pad].iter().any(|&b| b != 0xAB) {
        return Err("bytes before the start position changed".into());
    }
    Ok(v[pad..].to_vec())
}

fn ask(qs: &[usize], threads: usize, f: &(dyn Fn(usize) -> Value + Sync), all: &mut Vec<Vec<Value>>) {
    if threads < 2 {
        return all.push(qs.iter().map(|&q| f(q)).collect());
    }
    let gate = std::sync::Barrier::new(threads);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    // every thread begins elsewhere, and asks several times
                    let n = qs.len();
                    let mut mine = vec![Value::Null; n];
                    for r in 0..4 * n {
                        let i = (r + t) % n;
                        let x = f(qs[i]);
                        assert!(mine[i].is_null() || mine[i] == x, "asked again, a different answer");
                        mine[i] = x;
                    }
                    mine
                })
            })
            .collect();
        for h in hs {
            all.push(h.join().unwrap_or_else(|e| std::panic::resume_unwind(e)));
        }
    });
}

fn step<K: Kind>(w: &mut World<K>, op: &Value) -> Value {
    let name = op["op"].as_str().unwrap();
    let key = op["ix"].as_str().unwrap_or("").to_string();
    match name {
        "new" => {
            let mut c = K::empty();
            for r in list(&op["rows"]) {
                c.push(K::item(r));
            }
            w.b = Some(GranneBuilder::new(config(&op["cfg"]), c));
            json!({})
        }
        "push" => {
            for r in list(&op["rows"]) {
                w.b.as_mut().unwrap().push(K::item(r));
            }
            json!({})
        }
        "partial" => {
            w.b.as_mut().unwrap().build_partial(u(op, "n", 0));
            json!({})
        }
        "build" => {
            w.b.as_mut().unwrap().build();
            json!({})
        }
        "state" => {
            let b = w.b.as_ref().unwrap();
            let els: Vec<Value> = (0..b.num_elements()).map(|i| K::describe(b.get_elements(), i)).collect();
            let mut v = json!({"len": b.len(), "num": b.num_elements(), "layers": dump_layers(b)});
            if op["els"].as_bool() == Some(true) {
                v["els"] = json!(els);
            }
            v
        }
        // save the builder (or index) under a name
        "save" => {
            let pad = u(op, "pad", 0);
            let as_ = op["as"].as_str().unwrap().to_string();
            let mut e = vec![];
            let (i, n) = if key.is_empty() {
                let b = w.b.as_ref().unwrap();
                let n = b.write_elements(&mut e).unwrap();
                if op["borrowed"].as_bool() == Some(true) {
                    (write_ix(&b.get_index(), pad), n)
                } else {
                    (write_ix(b, pad), n)
                }
            } else {
                match &w.ix[&key] {
                    Ix::Owned(g) => {
                        let n = g.write_elements(&mut e).unwrap();
                        (write_ix(g, pad), n)
                    }
                }
            };
            match i {
                Ok(i) => {
                    let r = json!({"bytes": i.len(), "ebytes": e.len(), "reported": n});
                    w.saved.insert(as_, (i, e));
                    r
                }
                Err(x) => json!({"err": x}),
            }
        }
        // new builder from a save
        "resume" => {
            let (i, e) = &w.saved[op["from"].as_str().unwrap()];
            let mut c = K::load_bytes(leak(e.clone()));
            for r in list(&op["rows"]) {
                c.push(K::item(r));
            }
            let cfg = config(&op["cfg"]);
            let b = if op["how"].as_str() == Some("file") {
                GranneBuilder::from_file(cfg, &temp_file(i), c).unwrap()
            } else {
                GranneBuilder::from_bytes(cfg, leak_at(i, u(op, "align", 0)), c)
            };
            w.b = Some(b);
            json!({})
        }
        // index objects
        "load" => {
            let Some((i, e)) = w.saved.get(op["from"].as_str().unwrap()).cloned() else {
                return json!({"missing": true});
            };
            let f = temp_file(&e);
            let c = match op["ehow"].as_str() {
                Some("file") => K::load_file(&f).unwrap(),
                _ => K::load_bytes(leak_at(&e, u(op, "ealign", 0))),
            };
            let file = op["how"].as_str() == Some("file");
            let g = if op["own"].as_bool() == Some(true) {
                // over borrowed elements first
                let g = if file {
                    unsafe { Granne::from_file(&temp_file(&i), &c).unwrap() }
                } else {
                    Granne::from_bytes(leak_at(&i, u(op, "align", 0)), &c)
                };
                g.to_owned()
            } else if file {
                unsafe { Granne::from_file(&temp_file(&i), c).unwrap() }
            } else {
                Granne::from_bytes(leak_at(&i, u(op, "align", 0)), c)
            };
            let v = index_state::<K>(&g);
            w.ix.insert(key, Ix::Owned(g));
            v
        }
        "owned" => {
            let g = w.b.as_ref().unwrap().get_index().to_owned();
            let v = index_state::<K>(&g);
            w.ix.insert(key, Ix::Owned(g));
            v
        }
        "craft" => {
            let bytes = craft(&layers_of(&op["craft"]));
            let mut c = K::empty();
            for r in list(&op["rows"]) {
                c.push(K::item(r));
            }
            let mut e = vec![];
            c.write(&mut e).unwrap();
            if let Some(s) = op["as"].as_str() {
                w.saved.insert(s.into(), (bytes.clone(), e));
            }
            let g = Granne::from_bytes(leak_at(&bytes, u(op, "align", 0)), c);
            let v = index_state::<K>(&g);
            w.ix.insert(key, Ix::Owned(g));
            v
        }
        // a large pseudo-random graph, not written out
        "craftbig" => {
            let n = u(op, "n", 1000);
            let span = u(op, "span", n) as u64;
            let maxdeg = u(op, "deg", 8);
            let mut r = crate::sched::Rng(u(op, "seed", 1) as u64 * 2654435761 + 1);
            let l: Vec<Vec<u32>> = (0..n)
                .map(|_| {
                    let k = r.below(maxdeg + 1);
                    let mut v: Vec<u32> = (0..k).map(|_| (r.next() % span) as u32).collect();
                    v.sort();
                    v.dedup();
                    v
                })
                .collect();
            let want = vec![digest_of(l.iter().map(|v| v.iter().map(|&x| x as usize).collect()))];
            let bytes = craft(&[l]);
            let c = K::empty();
            let mut e = vec![];
            c.write(&mut e).unwrap();
            let g = Granne::from_bytes(leak(bytes.clone()), c);
            w.saved.insert(op["as"].as_str().unwrap_or("").into(), (bytes, e));
            w.ix.insert(key, Ix::Owned(g));
            json!({"want": want})
        }
        // a large index with pseudo-random layers over all rows
        "craftlayers" => {
            let mut r = crate::sched::Rng(u(op, "seed", 1) as u64 * 2654435761 + 1);
            let maxdeg = u(op, "deg", 6);
            // in a chain, neighbours are close by, and the next one is among them
            let chain = op["chain"].as_bool() == Some(true);
            let layers: Vec<Vec<Vec<u32>>> = list(&op["sizes"])
                .into_iter()
                .map(|n| {
                    (0..n)
                        .map(|i| {
                            let mut v: Vec<u32> = (0..r.below(maxdeg + 1))
                                .map(|_| if chain { (i + r.below(5)).saturating_sub(2).min(n - 1) } else { r.below(n) } as u32)
                                .filter(|&x| x as usize != i)
                                .collect();
                            if chain && i + 1 < n {
                                v.push(i as u32 + 1);
                            }
                            v.sort();
                            v.dedup();
                            v
                        })
                        .collect()
                })
                .collect();
            let mut c = K::empty();
            for r in 0..ctx().rows.len() {
                c.push(K::item(r));
            }
            let bytes = craft(&layers);
            let mut e = vec![];
            c.write(&mut e).unwrap();
            if let Some(s) = op["as"].as_str() {
                w.saved.insert(s.into(), (bytes.clone(), e));
            }
            w.ix.insert(key, Ix::Owned(Granne::from_bytes(leak(bytes), c)));
            json!({})
        }
        // reorders and shows the index before and after
        "bigreorder" => {
            let progress = op["progress"].as_bool() == Some(true);
            let Ix::Owned(g) = w.ix.get_mut(&key).unwrap();
            let hashes = |g: &Granne<'static, K::C>| -> Vec<u32> {
                (0..g.get_elements().len())
                    .map(|i| {
                        let t = K::describe(g.get_elements(), i).to_string();
                        (t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 33) as u32
                    })
                    .collect()
            };
            let mut v = json!({"old": dump_layers(g), "before": hashes(g)});
            if op["keys"].is_array() {
                let keys: Vec<i64> = op["keys"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                v["order"] = json!(g.reorder_by_keys(&keys, progress));
            } else {
                v["order"] = json!(g.reorder(progress));
            }
            v["new"] = dump_layers(g);
            v["after"] = json!(hashes(g));
            v
        }
        "dump" => {
            let Ix::Owned(g) = &w.ix[&key];
            index_state::<K>(g)
        }
        "digest" => {
            if key.is_empty() {
                let b = w.b.as_ref().unwrap();
                json!({"len": b.len(), "digest": digest_layers(b)})
            } else {
                let Ix::Owned(g) = &w.ix[&key];
                json!({"len": g.len(), "digest": digest_layers(g)})
            }
        }
        "search" => {
            let (ms, k) = (u(op, "ms", 10), u(op, "k", 10));
            let qs = list(&op["qs"]);
            // (with "at_once", several threads ask the same index at the same time)
            let at_once = u(op, "at_once", 1);
            let mut all: Vec<Vec<Value>> = vec![];
            if key.is_empty() {
                let b = w.b.as_ref().unwrap();
                let g = b.get_index();
                ask(&qs, at_once, &|q| res_json(g.search(&K::query(q), ms, k)), &mut all);
            } else {
                let Ix::Owned(g) = &w.ix[&key];
                ask(&qs, at_once, &|q| res_json(g.search(&K::query(q), ms, k)), &mut all);
            }
            for a in &all {
                assert!(a == &all[0], "searches at the same time gave different answers");
            }
            json!({"res": all[0]})
        }
        "reorder" => {
            let Ix::Owned(g) = w.ix.get_mut(&key).unwrap();
            let o = g.reorder(op["progress"].as_bool() == Some(true));
            w.order = o.clone();
            let mut v = index_state::<K>(g);
            v["order"] = json!(o);
            v
        }
        "reorder_keys" => {
            let keys = list(&op["keys"]);
            let Ix::Owned(g) = w.ix.get_mut(&key).unwrap();
            let o = g.reorder_by_keys(&keys, op["progress"].as_bool() == Some(true));
            w.order = o.clone();
            let mut v = index_state::<K>(g);
            v["order"] = json!(o);
            v
        }
        // the same searches on two objects ("" is the builder)
        "samesearch" => {
            let (ms, k) = (u(op, "ms", 10), u(op, "k", 10));
            let mut both = vec![];
            for key in [op["a"].as_str().unwrap(), op["b"].as_str().unwrap()] {
                let mut all = vec![];
                for q in list(&op["qs"]) {
                    let q = K::query(q);
                    let r = if key.is_empty() {
                        w.b.as_ref().unwrap().get_index().search(&q, ms, k)
                    } else {
                        let Ix::Owned(g) = &w.ix[key];
                        g.search(&q, ms, k)
                    };
                    all.push(res_json(r));
                }
                both.push(all);
            }
            let mut v = json!({"res": both[0], "res2": both[1]});
            if op["usemap"].as_bool() == Some(true) {
                v["map"] = json!(w.order);
            }
            v
        }
        // searches among points on a line; distances are given in their units
        "linesearch" => {
            let (ms, k) = (u(op, "ms", 10), u(op, "k", 10));
            let mut all = vec![];
            let mut at = vec![];
            for q in list(&op["qs"]) {
                let e = K::query(q);
                let r = if key.is_empty() {
                    w.b.as_ref().unwrap().get_index().search(&e, ms, k)
                } else {
                    let Ix::Owned(g) = &w.ix[&key];
                    g.search(&e, ms, k)
                };
                at.push(ctx().rows[q][0] as i64);
                all.push(r.iter().map(|&(i, d)| json!([i, (d as f64 * 1048576.0) as i64])).collect::<Vec<_>>());
            }
            json!({"qs": at, "res": all})
        }
        "graph" => {
            if key.is_empty() {
                let b = w.b.as_ref().unwrap();
                json!({"layers": dump_layers(b), "num": b.num_elements()})
            } else {
                let Ix::Owned(g) = &w.ix[&key];
                index_state::<K>(g)
            }
        }
        // statements about the observations, for the specification only
        "same" => json!({}),
        "bytes" => {
            let (i, e) = &w.saved[op["from"].as_str().unwrap()];
            json!({"index": i, "elements": e})
        }
        "matrix" => {
            let n = ctx().rows.len();
            let desc: Vec<Value> = (0..n).map(K::describe_row).collect();
            json!({"D": dist_matrix::<K>(n), "dup": fbits(100.0 * f32::EPSILON), "desc": desc})
        }
        o => panic!("op {}", o),
    }
}

fn go<K: Kind>(s: &Value, out: &mut Out) {
    let mut w = World::<K> { b: None, ix: Default::default(), saved: Default::default(), order: vec![] };
    for op in s["ops"].as_array().unwrap() {
        let r = guarded(|| {
            let mut v = step(&mut w, op);
            if s["quiet"].as_bool() != Some(true)
                && ["new", "push", "partial", "build", "resume"].contains(&op["op"].as_str().unwrap())
            {
                let b = w.b.as_ref().unwrap();
                v["len"] = json!(b.len());
                v["num"] = json!(b.num_elements());
                v["layers"] = dump_layers(b);
            }
            v
        });
        let mut ev = op.clone();
        ev["ev"] = op["op"].clone();
        ev.as_object_mut().unwrap().remove("op");
        match r {
            Ok(v) => {
                for (k, x) in v.as_object().unwrap() {
                    ev[k] = x.clone();
                }
                ev["panic"] = json!(false);
                out.emit(ev);
            }
            Err(m) => {
                ev["panic"] = json!(true);
                ev["msg"] = json!(m);
                out.emit(ev);
                break;
            }
        }
    }
}

pub fn dispatch(s: &Value, out: &mut Out, f: impl Fn(&Value, &mut Out, &str)) {
    f(s, out, s["kind"].as_str().unwrap_or("tab"))
}

pub fn run(s: &Value, out: &mut Out) {
    let threads = u(s, "threads", 1);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    let _ = Cursor::new(Vec::<u8>::new()).seek(SeekFrom::Start(0));
    // scenario steps run inside the pool, so that the builder uses it
    let cell = std::sync::Mutex::new(out);
    pool.install(|| {
        let mut g = cell.lock().unwrap();
        let out: &mut Out = &mut g;
        match s["kind"].as_str().unwrap_or("tab") {
            "tab" => go::<KTab>(s, out),
            "ang" => go::<KAng>(s, out),
            "int" => go::<KInt>(s, out),
            "sum" => go::<KSum>(s, out),
            "line" => go::<KLine>(s, out),
            k => panic!("kind {}", k),
        }
    });
}
