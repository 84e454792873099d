//! Distances through every path (specification Distance).
use crate::kinds::{bits, ctx, leak_at, sum_empty, temp_file, terms};
use crate::{guarded, Out};
use granne::{angular, angular_int, Dist, ElementContainer, Writeable};
use serde_json::{json, Value};

type M = Vec<Vec<i64>>;

fn by_pair<C: ElementContainer>(c: &C) -> M {
    (0..c.len()).map(|i| (0..c.len()).map(|j| bits(c.dist(i, j))).collect()).collect()
}
fn by_element<C: ElementContainer>(c: &C) -> M {
    (0..c.len()).map(|i| (0..c.len()).map(|j| bits(c.dist_to_element(i, &c.get(j)))).collect()).collect()
}
fn by_batch<C: ElementContainer>(c: &C) -> M {
    let all: Vec<usize> = (0..c.len()).collect();
    (0..c.len()).map(|i| c.dists(i, &all).into_iter().map(bits).collect()).collect()
}
fn by_mixed_batch<C: ElementContainer>(c: &C) -> M {
    // a batch in another order, with repetitions
    let n = c.len();
    let all: Vec<usize> = (0..n).rev().chain(0..n).collect();
    (0..n).map(|i| c.dists(i, &all).split_off(n).into_iter().map(bits).collect()).collect()
}
fn paths<C: ElementContainer>(name: &str, c: &C, out: &mut Vec<(String, M)>) {
    out.push((format!("{} dist", name), by_pair(c)));
    out.push((format!("{} dist_to_element", name), by_element(c)));
    out.push((format!("{} dists", name), by_batch(c)));
    out.push((format!("{} dists mixed", name), by_mixed_batch(c)));
}
fn direct<E: Dist<E>>(v: &[E]) -> (M, M) {
    (
        v.iter().map(|a| v.iter().map(|b| bits(a.dist(b))).collect()).collect(),
        v.iter().map(|a| v.iter().map(|b| (a.dist(b).into_inner() as f64 * 1e6).round() as i64).collect()).collect(),
    )
}

macro_rules! dense {
    ($m:ident, $out:ident, $items:ident, $q:expr) => {{
        let items: Vec<$m::Vector<'static>> = $items;
        let (b, d) = direct(&items);
        $out.emit(json!({"ev": "dists", "panic": false, "bits": b, "D": d, "q": items.iter().map($q).collect::<Vec<_>>()}));
        let mut r = vec![];
        let vs: $m::Vectors<'static> = items.iter().cloned().collect();
        let mut bytes = vec![];
        vs.write(&mut bytes).unwrap();
        paths("Vectors", &vs, &mut r);
        paths("borrowed", &vs.borrow(), &mut r);
        paths("reference", &&vs, &mut r);
        paths("bytes", &$m::Vectors::from_bytes(leak_at(&bytes, 1)), &mut r);
        paths("file", &unsafe { $m::Vectors::from_file(&temp_file(&bytes)) }.unwrap(), &mut r);
        paths("Vec", &items, &mut r);
        paths("slice", &&items[..], &mut r);
        r.push(("elements of Vectors".into(), direct(&(0..vs.len()).map(|i| vs.get_element(i)).collect::<Vec<_>>()).0));
        r.push((
            "element and owned".into(),
            (0..vs.len()).map(|i| items.iter().map(|b| bits(vs.get_element(i).dist(b))).collect()).collect(),
        ));
        r
    }};
}

fn go(s: &Value, out: &mut Out) {
    let c = ctx();
    let scale = s["scale"].as_f64().unwrap_or(1.0);
    let row = |r: &Vec<f64>| r.iter().map(|&x| (x * scale) as f32).collect::<Vec<f32>>();
    let r = match s["kind"].as_str().unwrap() {
        "ang" => {
            let items = c.rows.iter().map(|r| angular::Vector::from(row(r))).collect();
            dense!(angular, out, items, |v: &angular::Vector| units(v.as_slice()))
        }
        "int" => {
            let items = c.rows.iter().map(|r| angular_int::Vector::from(row(r))).collect();
            dense!(angular_int, out, items, |v: &angular_int::Vector| v.as_slice().to_vec())
        }
        "raw" => {
            let dim = c.rows[0].len();
            let flat: Vec<i8> = c.rows.iter().flatten().map(|&x| x as i8).collect();
            let vs = angular_int::Vectors::from_vec(flat, dim);
            let items = (0..vs.len()).map(|i| vs.get_element(i).into_owned()).collect();
            dense!(angular_int, out, items, |v: &angular_int::Vector| v.as_slice().to_vec())
        }
        "peaks" => {
            let q: Vec<_> = c.rows.iter().map(|r| angular_int::Vector::from(row(r)).into_vec()).collect();
            let peak: Vec<Vec<i32>> = c
                .rows
                .iter()
                .map(|r| {
                    let r = row(r);
                    let m = r.iter().fold(0.0f32, |a, x| a.max(x.abs()));
                    r.iter().map(|&x| if x.abs() == m && m > 0.0 { x.signum() as i32 } else { 0 }).collect()
                })
                .collect();
            out.emit(json!({"ev": "peaks", "panic": false, "q": q, "peak": peak}));
            vec![]
        }
        _ => {
            let mut e = sum_empty();
            for r in 0..c.rows.len() {
                e.push(terms(r));
            }
            let items: Vec<angular::Vector<'static>> = (0..e.len()).map(|i| e.get_embedding(i).into()).collect();
            let mut r = dense!(angular, out, items, |v: &angular::Vector| units(v.as_slice()));
            let (mut b, mut m) = (vec![], vec![]);
            e.write(&mut b).unwrap();
            e.write_embeddings(&mut m).unwrap();
            paths("sums", &e, &mut r);
            paths("borrowed sums", &e.borrow(), &mut r);
            paths("reference to sums", &&e, &mut r);
            let f = unsafe { granne::embeddings::SumEmbeddings::from_files(&temp_file(&m), Some(&temp_file(&b))) }.unwrap();
            paths("sums from files", &f, &mut r);
            r
        }
    };
    for (p, b) in r {
        out.emit(json!({"ev": "path", "panic": false, "path": p, "bits": b}));
    }
}

fn units(v: &[f32]) -> Vec<i64> {
    v.iter().map(|&x| (x as f64 * 10000.0).round() as i64).collect()
}

pub fn run(s: &Value, out: &mut Out) {
    if let Err(m) = guarded(|| go(s, out)) {
        out.emit(json!({"ev": "panicked", "panic": true, "msg": m}));
    }
}
