//! Element kinds the scenarios run with, behind one trait.
use granne::{angular, angular_int, embeddings::SumEmbeddings};
use granne::{Dist, ElementContainer, ExtendableElementContainer, Permutable, Writeable};
use ordered_float::NotNan;
use serde_json::{json, Value};
use std::fs::File;
use std::io::Write;
use std::sync::{Arc, Mutex};

pub type Rows = Vec<Vec<f64>>;

/// Data of the current scenario. `rows` are the element descriptions: for Tab a square matrix of
/// integer distances (in units of 2^-20), for dense vectors the coordinates, for sums the term ids.
pub struct Ctx {
    pub rows: Rows,
    pub emb: Rows,
    pub dir: std::path::PathBuf,
}

pub static CTX: Mutex<Option<Arc<Ctx>>> = Mutex::new(None);
pub fn ctx() -> Arc<Ctx> {
    CTX.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap()
}
pub fn set_ctx(c: Ctx) {
    *CTX.lock().unwrap_or_else(|e| e.into_inner()) = Some(Arc::new(c));
}

pub fn leak(b: Vec<u8>) -> &'static [u8] {
    Box::leak(b.into_boxed_slice())
}
/// A leaked copy of `b` whose address is `align` modulo 16.
pub fn leak_at(b: &[u8], align: usize) -> &'static [u8] {
    let mut v = vec![0u8; b.len() + 32];
    let base = v.as_ptr() as usize;
    let off = (16 - base % 16) % 16 + align % 16;
    v[off..off + b.len()].copy_from_slice(b);
    let s: &'static [u8] = Box::leak(v.into_boxed_slice());
    &s[off..off + b.len()]
}

pub fn bits(d: NotNan<f32>) -> i64 {
    fbits(d.into_inner())
}
pub fn fbits(f: f32) -> i64 {
    // an integer with the order of the floats
    let b = f.to_bits() as i64;
    if f == 0.0 { 0 } else if f < 0.0 { -(b & 0x7fff_ffff) } else { b }
}

pub trait Kind: 'static {
    type C: ElementContainer<Element = Self::E>
        + ExtendableElementContainer<InternalElement = Self::I>
        + Permutable
        + Writeable
        + Clone
        + Send
        + Sync
        + 'static;
    type E: Clone + Send + Sync;
    type I: Send + Clone;
    const NAME: &'static str;
    fn empty() -> Self::C;
    fn item(row: usize) -> Self::I;
    fn query(row: usize) -> Self::E;
    fn load_bytes(b: &'static [u8]) -> Self::C;
    fn load_file(f: &File) -> std::io::Result<Self::C>;
    /// the content of element i, comparable across storage forms
    fn describe(c: &Self::C, i: usize) -> Value;
    fn describe_row(row: usize) -> Value {
        let mut c = Self::empty();
        c.push(Self::item(row));
        Self::describe(&c, 0)
    }
}

// ---------------------------------------------------------------- Tab
/// A collection whose distances are given by a table; elements are row numbers of the table.
#[derive(Clone)]
pub struct Tab {
    pub rows: Vec<u32>,
    pub m: Arc<Ctx>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct TabRow(pub u32);

impl ElementContainer for Tab {
    type Element = TabRow;
    fn get(&self, idx: usize) -> TabRow {
        crate::sched::at_get(idx);
        TabRow(self.rows[idx])
    }
    fn len(&self) -> usize {
        self.rows.len()
    }
    fn dist_to_element(&self, idx: usize, e: &TabRow) -> NotNan<f32> {
        let d = self.m.rows[self.rows[idx] as usize][e.0 as usize];
        NotNan::new((d / 1048576.0) as f32).unwrap()
    }
}
impl ExtendableElementContainer for Tab {
    type InternalElement = TabRow;
    fn push(&mut self, e: TabRow) {
        self.rows.push(e.0)
    }
}
impl Permutable for Tab {
    fn permute(&mut self, p: &[usize]) {
        assert_eq!(p.len(), self.rows.len());
        self.rows = p.iter().map(|&i| self.rows[i]).collect();
    }
}
impl Writeable for Tab {
    fn write<B: Write>(&self, b: &mut B) -> std::io::Result<usize> {
        b.write_all(&(self.rows.len() as u64).to_le_bytes())?;
        for r in &self.rows {
            b.write_all(&r.to_le_bytes())?;
        }
        Ok(8 + 4 * self.rows.len())
    }
}
pub struct KTab;
impl Kind for KTab {
    type C = Tab;
    type E = TabRow;
    type I = TabRow;
    const NAME: &'static str = "tab";
    fn empty() -> Tab {
        Tab { rows: vec![], m: ctx() }
    }
    fn item(row: usize) -> TabRow {
        TabRow(row as u32)
    }
    fn query(row: usize) -> TabRow {
        TabRow(row as u32)
    }
    fn load_bytes(b: &'static [u8]) -> Tab {
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        assert_eq!(b.len(), 8 + 4 * n);
        let rows = (0..n).map(|i| u32::from_le_bytes(b[8 + 4 * i..12 + 4 * i].try_into().unwrap())).collect();
        Tab { rows, m: ctx() }
    }
    fn load_file(f: &File) -> std::io::Result<Tab> {
        use std::io::{Read, Seek, SeekFrom};
        let mut f = f.try_clone()?;
        f.seek(SeekFrom::Start(0))?;
        let mut v = vec![];
        f.read_to_end(&mut v)?;
        Ok(Self::load_bytes(leak(v)))
    }
    fn describe(c: &Tab, i: usize) -> Value {
        json!([c.rows[i]])
    }
}

// ---------------------------------------------------------------- Line
/// Points on a line, in units of 2^-20; for indexes too large for a table.
#[derive(Clone)]
pub struct Line(pub Vec<i32>);
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Point(pub i32);

impl ElementContainer for Line {
    type Element = Point;
    fn get(&self, idx: usize) -> Point {
        Point(self.0[idx])
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, idx: usize, e: &Point) -> NotNan<f32> {
        NotNan::new((self.0[idx] - e.0).abs() as f32 / 1048576.0).unwrap()
    }
}
impl ExtendableElementContainer for Line {
    type InternalElement = Point;
    fn push(&mut self, e: Point) {
        self.0.push(e.0)
    }
}
impl Permutable for Line {
    fn permute(&mut self, p: &[usize]) {
        assert_eq!(p.len(), self.0.len());
        self.0 = p.iter().map(|&i| self.0[i]).collect();
    }
}
impl Writeable for Line {
    fn write<B: Write>(&self, b: &mut B) -> std::io::Result<usize> {
        for r in &self.0 {
            b.write_all(&r.to_le_bytes())?;
        }
        Ok(4 * self.0.len())
    }
}
pub struct KLine;
impl Kind for KLine {
    type C = Line;
    type E = Point;
    type I = Point;
    const NAME: &'static str = "line";
    fn empty() -> Line {
        Line(vec![])
    }
    fn item(row: usize) -> Point {
        Point(ctx().rows[row][0] as i32)
    }
    fn query(row: usize) -> Point {
        Self::item(row)
    }
    fn load_bytes(b: &'static [u8]) -> Line {
        Line(b.chunks(4).map(|c| i32::from_le_bytes(c.try_into().unwrap())).collect())
    }
    fn load_file(f: &File) -> std::io::Result<Line> {
        use std::io::{Read, Seek, SeekFrom};
        let mut f = f.try_clone()?;
        f.seek(SeekFrom::Start(0))?;
        let mut v = vec![];
        f.read_to_end(&mut v)?;
        Ok(Self::load_bytes(leak(v)))
    }
    fn describe(c: &Line, i: usize) -> Value {
        json!(c.0[i])
    }
}

// ---------------------------------------------------------------- dense
pub struct KAng;
impl Kind for KAng {
    type C = angular::Vectors<'static>;
    type E = angular::Vector<'static>;
    type I = angular::Vector<'static>;
    const NAME: &'static str = "ang";
    fn empty() -> Self::C {
        angular::Vectors::new()
    }
    fn item(row: usize) -> Self::I {
        ctx().rows[row].iter().map(|&x| x as f32).collect()
    }
    fn query(row: usize) -> Self::E {
        Self::item(row)
    }
    fn load_bytes(b: &'static [u8]) -> Self::C {
        angular::Vectors::from_bytes(b)
    }
    fn load_file(f: &File) -> std::io::Result<Self::C> {
        unsafe { angular::Vectors::from_file(f) }
    }
    fn describe(c: &Self::C, i: usize) -> Value {
        json!(c.get_element(i).as_slice().iter().map(|&x| x.to_bits() as i32).collect::<Vec<_>>())
    }
}
pub struct KInt;
impl Kind for KInt {
    type C = angular_int::Vectors<'static>;
    type E = angular_int::Vector<'static>;
    type I = angular_int::Vector<'static>;
    const NAME: &'static str = "int";
    fn empty() -> Self::C {
        angular_int::Vectors::new()
    }
    fn item(row: usize) -> Self::I {
        ctx().rows[row].iter().map(|&x| x as f32).collect()
    }
    fn query(row: usize) -> Self::E {
        Self::item(row)
    }
    fn load_bytes(b: &'static [u8]) -> Self::C {
        angular_int::Vectors::from_bytes(b)
    }
    fn load_file(f: &File) -> std::io::Result<Self::C> {
        unsafe { angular_int::Vectors::from_file(f) }
    }
    fn describe(c: &Self::C, i: usize) -> Value {
        json!(c.get_element(i).as_slice().to_vec())
    }
}

// ---------------------------------------------------------------- sums
pub struct KSum;
pub fn sum_empty() -> SumEmbeddings<'static> {
    let mut s = SumEmbeddings::new();
    for e in &ctx().emb {
        s.push_embedding(&e.iter().map(|&x| x as f32).collect::<Vec<f32>>());
    }
    s
}
pub fn terms(row: usize) -> Vec<usize> {
    ctx().rows[row].iter().map(|&x| x as usize).collect()
}
/// Writes `b` to a new file in the scenario directory and opens it for reading.
pub fn temp_file(b: &[u8]) -> File {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let p = ctx().dir.join(format!("t{}", N.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&p, b).unwrap();
    let f = File::open(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    f
}
impl Kind for KSum {
    type C = SumEmbeddings<'static>;
    type E = angular::Vector<'static>;
    type I = Vec<usize>;
    const NAME: &'static str = "sum";
    fn empty() -> Self::C {
        sum_empty()
    }
    fn item(row: usize) -> Vec<usize> {
        terms(row)
    }
    fn query(row: usize) -> Self::E {
        let mut v = vec![0.0f32; ctx().emb[0].len()];
        for t in terms(row) {
            for (a, b) in v.iter_mut().zip(&ctx().emb[t]) {
                *a += *b as f32;
            }
        }
        v.into()
    }
    fn load_bytes(b: &'static [u8]) -> Self::C {
        Self::load_file(&temp_file(b)).unwrap()
    }
    fn load_file(f: &File) -> std::io::Result<Self::C> {
        let mut e = vec![];
        sum_empty().write_embeddings(&mut e)?;
        unsafe { SumEmbeddings::from_files(&temp_file(&e), Some(f)) }
    }
    fn describe(c: &Self::C, i: usize) -> Value {
        json!(c.get_terms(i))
    }
}

/// distances between all rows (as order-preserving integers), through the public API
pub fn dist_matrix<K: Kind>(n: usize) -> Vec<Vec<i64>> {
    let mut c = K::empty();
    for r in 0..n {
        c.push(K::item(r));
    }
    (0..n)
        .map(|i| (0..n).map(|j| bits(c.dist_to_element(i, &K::query(j)))).collect())
        .collect()
}
#[allow(dead_code)]
pub fn vdist<A: Dist<A>>(a: &A, b: &A) -> i64 {
    bits(a.dist(b))
}
