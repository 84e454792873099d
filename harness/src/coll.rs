//! Histories of operations on element collections (specification Collections / TraceColl).
use crate::kinds::{ctx, leak_at, set_ctx, temp_file, terms, Ctx};
use crate::{guarded, list, u, Out};
use granne::{angular, angular_int, embeddings, embeddings::SumEmbeddings};
use granne::{ElementContainer, ExtendableElementContainer, Permutable, Writeable};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fs::File;

struct Image {
    bytes: Vec<u8>,
    emb: Vec<u8>,
}

trait Coll: Clone + 'static {
    fn make(how: &str, rows: &[usize], s: &Value) -> Self;
    fn add(&mut self, row: usize, how: &str);
    fn join(&mut self, other: Self);
    fn lend(&'static self) -> Self;
    fn own(self) -> Self;
    fn perm(&mut self, p: &[usize]);
    /// (image, reported, reported for the embeddings)
    fn save(&self) -> (Image, usize, Option<usize>);
    fn load(i: &Image, how: &str, align: usize) -> Self;
    fn observe(&self, s: &Value) -> Value;
    fn desc(row: usize) -> Value;
    /// a collection of n distinct small elements, and the number an element stands for
    fn numbered(n: usize) -> Self;
    fn numbers(&self) -> Vec<usize>;
    fn extra(&self, _e: &Value) -> Value {
        Value::Null
    }
}

macro_rules! dense {
    ($m:ident, $t:ty, $bits:expr, $num:expr, $den:expr, $w:expr) => {
        impl Coll for $m::Vectors<'static> {
            fn make(how: &str, rows: &[usize], s: &Value) -> Self {
                let items: Vec<$m::Vector<'static>> = rows.iter().map(|&r| item::<$m::Vector<'static>>(r)).collect();
                let flat: Vec<$t> = items.iter().flat_map(|v| v.as_slice().to_vec()).collect();
                let dim = u(s, "dim", 1);
                match how {
                    "collect" => items.into_iter().collect(),
                    "from_vec" => $m::Vectors::from_vec(flat, dim),
                    "from_slice" => $m::Vectors::from_slice(Box::leak(flat.into_boxed_slice()), dim),
                    _ => {
                        let mut c = $m::Vectors::new();
                        for v in &items {
                            c.push(v);
                        }
                        c
                    }
                }
            }
            fn add(&mut self, row: usize, how: &str) {
                let v = item::<$m::Vector<'static>>(row);
                if how == "trait" {
                    ExtendableElementContainer::push(self, v)
                } else {
                    self.push(&v)
                }
            }
            fn join(&mut self, other: Self) {
                self.extend(other)
            }
            fn lend(&'static self) -> Self {
                self.borrow()
            }
            fn own(self) -> Self {
                self.into_owned()
            }
            fn perm(&mut self, p: &[usize]) {
                self.permute(p)
            }
            fn save(&self) -> (Image, usize, Option<usize>) {
                let mut b = vec![];
                let n = self.write(&mut b).unwrap();
                (Image { bytes: b, emb: vec![] }, n, None)
            }
            fn load(i: &Image, how: &str, align: usize) -> Self {
                if how == "file" {
                    unsafe { $m::Vectors::from_file(&temp_file(&i.bytes)) }.unwrap()
                } else {
                    $m::Vectors::from_bytes(leak_at(&i.bytes, align))
                }
            }
            fn observe(&self, _s: &Value) -> Value {
                let d = |v: &[$t]| v.iter().map($bits).collect::<Vec<i32>>();
                let els: Vec<_> = (0..self.len()).map(|i| d(self.get_element(i).as_slice())).collect();
                let got: Vec<_> = (0..ElementContainer::len(self)).map(|i| d(&self.get(i).into_vec())).collect();
                json!({"len": self.len(), "empty": self.is_empty(), "dim": self.dim(), "els": els, "got": got,
                       "flat": d(self.as_slice())})
            }
            fn desc(row: usize) -> Value {
                json!(item::<$m::Vector<'static>>(row).as_slice().iter().map($bits).collect::<Vec<i32>>())
            }
            fn numbered(n: usize) -> Self {
                $m::Vectors::from_vec((0..n).flat_map($num).collect(), $w)
            }
            fn numbers(&self) -> Vec<usize> {
                self.as_slice().chunks($w).map($den).collect()
            }
        }
    };
}

fn item<V: From<Vec<f32>>>(row: usize) -> V {
    V::from(ctx().rows[row].iter().map(|&x| x as f32).collect::<Vec<f32>>())
}

dense!(angular, f32, |x: &f32| x.to_bits() as i32, |i| vec![i as f32, 0.5], |c: &[f32]| c[0] as usize, 2);
dense!(
    angular_int,
    i8,
    |&x: &i8| x as i32,
    |i| vec![(i % 128) as i8, (i / 128 % 128) as i8, (i / 16384) as i8],
    |c: &[i8]| c[0] as usize + 128 * c[1] as usize + 16384 * c[2] as usize,
    3
);

fn ints(v: &[f32]) -> Vec<i64> {
    // sums of integer embeddings are integers
    v.iter().map(|&x| if x == x.trunc() { x as i64 } else { 2_000_000_000 }).collect()
}

impl Coll for SumEmbeddings<'static> {
    fn make(how: &str, rows: &[usize], s: &Value) -> Self {
        let dim = u(s, "dim", 1);
        let mut c = SumEmbeddings::new();
        if s["embn"].is_null() {
            for e in &ctx().emb {
                c.push_embedding(&e.iter().map(|&x| x as f32).collect::<Vec<f32>>());
            }
        } else {
            for t in 0..u(s, "embn", 0) {
                c.push_embedding(&(1..=dim).map(|j| ((t * (j + 6)) % 201) as f32 - 100.0).collect::<Vec<f32>>());
            }
        }
        if how == "mapped" {
            let mut e = vec![];
            c.write_embeddings(&mut e).unwrap();
            c = unsafe { SumEmbeddings::from_files(&temp_file(&e), None) }.unwrap();
        }
        for &r in rows {
            c.push(terms(r));
        }
        c
    }
    fn add(&mut self, row: usize, how: &str) {
        if how == "trait" {
            ExtendableElementContainer::push(self, terms(row))
        } else {
            self.push(&terms(row)[..])
        }
    }
    fn join(&mut self, other: Self) {
        for i in 0..other.len() {
            self.push(other.get_terms(i));
        }
    }
    fn lend(&'static self) -> Self {
        self.borrow()
    }
    fn own(self) -> Self {
        self
    }
    fn perm(&mut self, p: &[usize]) {
        self.permute(p)
    }
    fn save(&self) -> (Image, usize, Option<usize>) {
        let (mut b, mut e) = (vec![], vec![]);
        let n = self.write(&mut b).unwrap();
        let m = self.write_embeddings(&mut e).unwrap();
        (Image { bytes: b, emb: e }, n, Some(m))
    }
    fn load(i: &Image, how: &str, align: usize) -> Self {
        // the rows of the saved embeddings
        let width = u64::from_le_bytes(i.emb[..8].try_into().unwrap()) as usize;
        let v: Vec<f32> = i.emb[8..].chunks(4).map(|b| f32::from_le_bytes(b.try_into().unwrap())).collect();
        let e: Vec<&[f32]> = v.chunks(width.max(1)).collect();
        // these come from the file, the others are added later
        let first = if how == "bytes" { 0 } else if align % 3 == 1 { e.len() / 2 } else { e.len() };
        let mut c = if how == "bytes" {
            SumEmbeddings::from_bytes(Default::default(), leak_at(&i.bytes, align))
        } else {
            let f = temp_file(&i.emb[..8 + 4 * width * first]);
            unsafe { SumEmbeddings::from_files(&f, Some(&temp_file(&i.bytes))) }.unwrap()
        };
        for x in &e[first..] {
            c.push_embedding(x);
        }
        c
    }
    fn observe(&self, s: &Value) -> Value {
        let n = self.len();
        let els: Vec<_> = (0..n).map(|i| self.get_terms(i)).collect();
        let mut o = json!({"len": n, "empty": self.is_empty(), "dim": u(s, "dim", 1), "els": els, "num": self.num_embeddings()});
        if s["termsonly"].as_bool() != Some(true) {
            o["dim"] = json!(self.create_embedding(&[]).len());
            o["sums"] = json!((0..n).map(|i| ints(&self.get_embedding(i))).collect::<Vec<_>>());
            o["created"] = json!((0..n).map(|i| ints(&self.create_embedding(&self.get_terms(i)))).collect::<Vec<_>>());
            o["vecs"] = json!((0..n)
                .map(|i| self.get(i).as_slice().iter().map(|&x| (x as f64 * 10000.0).round() as i64).collect::<Vec<_>>())
                .collect::<Vec<_>>());
            if s["keys"].as_bool() == Some(true) {
                let k = embeddings::compute_keys_for_reordering(self);
                let n = n.min(12);
                o["cmp"] = json!((0..n).map(|i| (0..n).map(|j| k[i].cmp(&k[j]) as i32).collect::<Vec<_>>()).collect::<Vec<_>>());
                o["nkeys"] = json!(k.len());
            }
        }
        o
    }
    fn desc(row: usize) -> Value {
        json!(terms(row))
    }
    fn numbered(n: usize) -> Self {
        let mut c = SumEmbeddings::new();
        for i in 0..n {
            c.push(vec![i % 3; i % 4].into_iter().chain(vec![i]).collect::<Vec<usize>>());
        }
        c
    }
    fn numbers(&self) -> Vec<usize> {
        (0..self.len())
            .map(|i| {
                let t = self.get_terms(i);
                let k = *t.last().unwrap_or(&0);
                if t.len() == k % 4 + 1 && t[..k % 4].iter().all(|&x| x == k % 3) { k } else { usize::MAX >> 34 }
            })
            .collect()
    }
    fn extra(&self, e: &Value) -> Value {
        json!(e["lists"].as_array().unwrap().iter().map(|l| ints(&self.create_embedding(&list(l)))).collect::<Vec<_>>())
    }
}

enum Slot<C: 'static> {
    Owned(C),
    Lent(&'static C),
}
impl<C: Coll> Slot<C> {
    fn get(&self) -> &C {
        match self {
            Slot::Owned(c) => c,
            Slot::Lent(c) => c,
        }
    }
    fn get_mut(&mut self) -> &mut C {
        match self {
            Slot::Owned(c) => c,
            Slot::Lent(_) => panic!("lent"),
        }
    }
}

struct State<C: 'static> {
    slots: BTreeMap<usize, Slot<C>>,
    imgs: BTreeMap<usize, Image>,
}

fn step<C: Coll>(st: &mut State<C>, s: &Value, op: &Value, ev: &mut Value) {
    let (k, j, a) = (u(op, "k", 0), u(op, "j", 0), u(op, "a", 0));
    let how = op["how"].as_str().unwrap_or("");
    match op["op"].as_str().unwrap() {
        "new" => {
            let c = C::make(how, &list(&op["rows"]), s);
            st.slots.insert(k, Slot::Owned(c));
        }
        "push" => {
            for r in list(&op["rows"]) {
                st.slots.get_mut(&k).unwrap().get_mut().add(r, how);
            }
        }
        "extend" => {
            let other = st.slots[&j].get().clone();
            st.slots.get_mut(&k).unwrap().get_mut().join(other);
        }
        "clone" => {
            let c = st.slots[&j].get().clone();
            st.slots.insert(k, Slot::Owned(c));
        }
        "borrow" => {
            let l: &'static C = match st.slots.remove(&j).unwrap() {
                Slot::Owned(c) => Box::leak(Box::new(c)),
                Slot::Lent(c) => c,
            };
            st.slots.insert(j, Slot::Lent(l));
            st.slots.insert(k, Slot::Owned(l.lend()));
        }
        "own" => {
            if let Slot::Owned(c) = st.slots.remove(&k).unwrap() {
                st.slots.insert(k, Slot::Owned(c.own()));
            }
        }
        "permute" => st.slots.get_mut(&k).unwrap().get_mut().perm(&list(&op["perm"])),
        "save" => {
            let (i, n, e) = st.slots[&k].get().save();
            ev["reported"] = json!(n);
            ev["bytes"] = json!(i.bytes.len());
            if let Some(e) = e {
                ev["ereported"] = json!(e);
                ev["ebytes"] = json!(i.emb.len());
            }
            st.imgs.insert(a, i);
        }
        "load" => {
            let c = C::load(&st.imgs[&a], how, u(op, "align", 0));
            st.slots.insert(k, Slot::Owned(c));
        }
        "create" => ev["res"] = st.slots[&k].get().extra(op),
        "bigpermute" => {
            let mut c = C::numbered(u(op, "n", 0));
            ev["before"] = json!(c.numbers());
            c.perm(&list(&op["perm"]));
            if how == "saved" {
                let (i, ..) = c.save();
                c = C::load(&i, "file", 0);
            }
            ev["after"] = json!(c.numbers());
        }
        x => panic!("op {}", x),
    }
    let mut all = Map::new();
    for (k, c) in &st.slots {
        all.insert(k.to_string(), c.get().observe(s));
    }
    ev["all"] = Value::Object(all);
}

fn go<C: Coll>(s: &Value, out: &mut Out) {
    let c = ctx();
    out.emit(json!({"ev": "desc", "desc": (0..c.rows.len()).map(C::desc).collect::<Vec<_>>()}));
    let mut st: State<C> = State { slots: BTreeMap::new(), imgs: BTreeMap::new() };
    for op in s["ops"].as_array().unwrap() {
        let mut ev = op.clone();
        ev["ev"] = op["op"].clone();
        ev["panic"] = json!(false);
        let r = guarded(|| step(&mut st, s, op, &mut ev));
        if let Err(m) = r {
            ev["panic"] = json!(true);
            ev["msg"] = json!(m);
            out.emit(ev);
            return;
        }
        out.emit(ev);
    }
}

pub fn run(s: &Value, out: &mut Out) {
    let c = ctx();
    set_ctx(Ctx { rows: c.rows.clone(), emb: c.emb.clone(), dir: c.dir.clone() });
    match s["kind"].as_str().unwrap() {
        "ang" => go::<angular::Vectors<'static>>(s, out),
        "int" => go::<angular_int::Vectors<'static>>(s, out),
        _ => go::<SumEmbeddings<'static>>(s, out),
    }
}
