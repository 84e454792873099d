//! File formats (specification IndexFormat / TraceFormat).
use crate::kinds::*;
use crate::seq::{config, dump_layers};
use crate::sched::Rng;
use crate::{guarded, list, u, Out};
use granne::{Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, Writeable};
use serde_json::{json, Value};
use std::fs::File;
use std::io::Cursor;
use std::path::Path;

fn header(f: &[u8]) -> Value {
    let text = String::from_utf8_lossy(&f[6..1024]).to_string();
    let end = text.trim_end_matches(' ').len();
    let h: Value = serde_json::from_str(&text[..end]).unwrap_or(Value::Null);
    json!({"prefix": String::from_utf8_lossy(&f[..6]), "padding": !h.is_null(), "version": h["version"], "compressed": h["compressed"],
        "num_elements": h["num_elements"], "num_layers": h["num_layers"], "layer_counts": h["layer_counts"], "layer_sizes": h["layer_sizes"]})
}

fn bytes_of(ix: &impl Index) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    ix.write_index(&mut c).unwrap();
    c.into_inner()
}

fn build<K: Kind>(s: &Value) -> GranneBuilder<K::C> {
    let n = ctx().rows.len();
    let mut c = K::empty();
    for r in 0..n {
        c.push(K::item(r));
    }
    let mut b = GranneBuilder::new(config(&s["cfg"]), c);
    b.build_partial(u(s, "n", n));
    b
}

fn event(f: &[u8], dump: Value) -> Value {
    json!({"ev": "index", "panic": false, "header": header(f), "bytes": &f[1024..], "dump": dump})
}

fn index<K: Kind>(s: &Value, out: &mut Out) {
    let b = build::<K>(s);
    let f = bytes_of(&b);
    out.emit(event(&f, dump_layers(&b)));
    let mut e = vec![];
    b.write_elements(&mut e).unwrap();
    elements::<K>(b.get_elements(), &e, out);
    // and as written by an index that was loaded
    let mut g = Granne::from_bytes(leak(f.clone()), K::load_bytes(leak(e)));
    let f2 = bytes_of(&g);
    out.emit(event(&f2, dump_layers(&b)));
    if s["reorder"].as_bool() == Some(true) {
        g.reorder(false);
        let f3 = bytes_of(&g);
        let d = dump_layers(&g);
        out.emit(event(&f3, d));
        let mut e = vec![];
        g.write_elements(&mut e).unwrap();
        elements::<K>(g.get_elements(), &e, out);
    }
}

fn elements<K: Kind>(c: &K::C, e: &[u8], out: &mut Out) {
    let els: Vec<Value> = (0..c.len()).map(|i| K::describe(c, i)).collect();
    let k = K::NAME;
    if k == "sum" {
        out.emit(json!({"ev": "sums", "panic": false, "bytes": e, "els": els}));
        // the embeddings
        let s = sum_empty();
        let mut b = vec![];
        s.write_embeddings(&mut b).unwrap();
        let emb: Vec<Vec<i32>> = ctx().emb.iter().map(|v| v.iter().map(|&x| (x as f32).to_bits() as i32).collect()).collect();
        out.emit(json!({"ev": "vectors", "panic": false, "bytes": b, "els": emb, "size": 4, "dim": ctx().emb[0].len()}));
    } else if k != "tab" {
        let dim = els.first().map_or(0, |x| x.as_array().unwrap().len());
        out.emit(json!({"ev": "vectors", "panic": false, "bytes": e, "els": els, "size": if k == "ang" { 4 } else { 1 }, "dim": dim}));
    }
}

/// an index too large to write out whole
fn big<K: Kind>(s: &Value, out: &mut Out) {
    let ix: Granne<'static, K::C> = if s["span"].is_null() {
        build::<K>(s).get_index().to_owned()
    } else {
        // a chain of nodes with distant neighbours
        let n = u(s, "nodes", 70000);
        let mut r = Rng(u(s, "seed", 1) as u64);
        let nodes: Vec<Vec<u32>> = (0..n)
            .map(|i| {
                let k = r.below(u(s, "deg", 6));
                let mut v: Vec<u32> = (0..k).map(|_| r.below(n) as u32).filter(|&x| x != i as u32).collect();
                v.sort();
                v.dedup();
                v
            })
            .collect();
        Granne::from_bytes(leak(crate::seq::craft(&[nodes])), K::empty())
    };
    let f = bytes_of(&ix);
    let lens: Vec<usize> = (0..ix.num_layers()).map(|l| ix.layer_len(l)).collect();
    let h = header(&f);
    let sizes = list(&h["layer_sizes"]);
    out.emit(json!({"ev": "bigindex", "panic": false, "header": h, "lens": lens, "size": f.len() - 1024}));
    let mut r = Rng(u(s, "seed", 1) as u64 + 5);
    let mut start = 1024;
    for l in 0..lens.len() {
        let b = &f[start..start + sizes[l]];
        start += sizes[l];
        let num = |p: usize| u64::from_le_bytes(b[p..p + 8].try_into().unwrap()) as usize;
        let table = num(0);
        let chunks = table / 128;
        for k in 0..u(s, "windows", 12) {
            let c = if k == 0 { 0 } else if k == 1 { chunks - 1 } else { r.below(chunks) };
            let at = |c: usize| &b[8 + c * 128..8 + c * 128 + 128];
            let base = num(8 + c * 128);
            let last = c + 1 == chunks;
            let end = if last { b.len() - 8 - table } else { num(8 + (c + 1) * 128) };
            let lists: Vec<_> = (c * 60..lens[l].min(c * 60 + 60)).map(|i| ix.get_neighbors(i, l)).collect();
            let next: &[u8] = if last { &[] } else { at(c + 1) };
            out.emit(json!({"ev": "window", "panic": false, "len": lens[l], "table": table, "c": c, "chunk": at(c), "next": next, "base": base,
                "data": b.get(8 + table + base..8 + table + end), "lists": lists}));
        }
    }
}

/// bytes made by the specification
fn read(s: &Value, out: &mut Out) {
    let layers = s["layers"].as_array().unwrap();
    let mut body = vec![];
    let mut sizes = vec![];
    for l in layers {
        let b: Vec<u8> = list(&l["bytes"]).into_iter().map(|x| x as u8).collect();
        sizes.push(b.len());
        body.extend(b);
    }
    let counts: Vec<usize> = layers.iter().map(|l| l["layer"].as_array().unwrap().len()).collect();
    let meta = json!({"version": 2, "num_elements": counts.last(), "num_layers": counts.len(), "num_neighbors": 1, "layer_counts": counts,
        "layer_sizes": sizes, "compressed": true, "granne_version": "0.5.0"});
    let mut f = format!("granne{}", meta).into_bytes();
    f.resize(1024, b' ');
    f.extend(body);
    let want: Vec<&Value> = layers.iter().map(|l| &l["layer"]).collect();
    for align in [0, u(s, "align", 1)] {
        let g: Granne<'static, Tab> = Granne::from_bytes(leak_at(&f, align), KTab::empty());
        out.emit(json!({"ev": "read", "panic": false, "how": "bytes", "layers": want, "dump": dump_layers(&g)}));
    }
    let g: Granne<'static, Tab> = unsafe { Granne::from_file(&temp_file(&f), KTab::empty()) }.unwrap();
    out.emit(json!({"ev": "read", "panic": false, "how": "file", "layers": want, "dump": dump_layers(&g)}));
    let f2 = bytes_of(&g);
    out.emit(event(&f2, dump_layers(&g)));
}

/// files of an earlier build
fn golden<K: Kind>(s: &Value, out: &mut Out) {
    let p = |x: &str| Path::new(s["dir"].as_str().unwrap()).join(format!("{}.{}", s["file"].as_str().unwrap(), x));
    let want: Value = serde_json::from_str(&std::fs::read_to_string(p("json")).unwrap()).unwrap();
    let (f, e) = (std::fs::read(p("index")).unwrap(), std::fs::read(p("elements")).unwrap());
    if f.len() < 60000 {
        out.emit(event(&f, want["layers"].clone()));
    }
    let mut emit = |how: &str, g: Value, els: Value| {
        out.emit(json!({"ev": "golden", "panic": false, "how": how, "file": s["file"], "dump": g, "els": els, "want": want["layers"], "wantels": want["els"]}))
    };
    let els = |c: &K::C| json!((0..c.len()).map(|i| K::describe(c, i)).collect::<Vec<_>>());
    let g = Granne::from_bytes(leak_at(&f, 3), K::load_bytes(leak(e.clone())));
    emit("bytes", dump_layers(&g), els(g.get_elements()));
    let g = unsafe { Granne::from_file(&File::open(p("index")).unwrap(), K::load_file(&File::open(p("elements")).unwrap()).unwrap()) }.unwrap();
    emit("file", dump_layers(&g), els(g.get_elements()));
    let b = GranneBuilder::from_bytes(config(&want["cfg"]), &f, K::load_bytes(leak(e)));
    emit("builder", dump_layers(&b), els(b.get_elements()));
}

/// writes files for later versions to read
fn make<K: Kind>(s: &Value, _out: &mut Out) {
    let b = build::<K>(s);
    let p = |x: &str| Path::new(s["dir"].as_str().unwrap()).join(format!("{}.{}", s["file"].as_str().unwrap(), x));
    std::fs::write(p("index"), bytes_of(&b)).unwrap();
    let mut e = vec![];
    b.get_elements().write(&mut e).unwrap();
    std::fs::write(p("elements"), e).unwrap();
    let c = b.get_elements();
    let els: Vec<Value> = (0..c.len()).map(|i| K::describe(c, i)).collect();
    let w = json!({"layers": dump_layers(&b), "els": els, "cfg": s["cfg"], "emb": s["emb"], "rows": s["rows"]});
    std::fs::write(p("json"), w.to_string()).unwrap();
}

fn go<K: Kind>(s: &Value, out: &mut Out) {
    match s["what"].as_str().unwrap() {
        "index" => index::<K>(s, out),
        "big" => big::<K>(s, out),
        "read" => read(s, out),
        "golden" => golden::<K>(s, out),
        "make" => make::<K>(s, out),
        x => panic!("what {}", x),
    }
}

pub fn run(s: &Value, out: &mut Out) {
    let r = guarded(|| match s["kind"].as_str().unwrap_or("tab") {
        "ang" => go::<KAng>(s, out),
        "int" => go::<KInt>(s, out),
        "sum" => go::<KSum>(s, out),
        _ => go::<KTab>(s, out),
    });
    if let Err(m) = r {
        out.emit(json!({"ev": "panicked", "panic": true, "msg": m}));
    }
}
