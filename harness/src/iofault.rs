//! Saves on a device that fails as told (C13), and loads of interrupted saves (C14).
use crate::kinds::*;
use crate::sched::Rng;
use crate::seq::{config, digest_layers};
use crate::{guarded, list, u, Out};
use granne::{Builder, Granne, ExtendableElementContainer, GranneBuilder, Index, RwGranneBuilder};
use serde_json::{json, Value};
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Plan {
    /// nothing goes wrong
    None,
    /// the call with this number
    At(usize, Fault),
    /// everything from this call on
    From(usize),
    /// writes that would grow a file beyond this length
    Full(u64),
    /// every write accepts at most this many bytes
    Slow(usize),
    /// random recoverable faults (interruptions, short writes)
    Mess(u64),
    /// the same, and an error at this call
    MessErr(u64, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Err,
    Intr,
    One,
    Half,
    Zero,
}

struct DevState {
    data: [Vec<u8>; 2],
    pos: [u64; 2],
    calls: usize,
    ops: Vec<Value>,
    /// what was accepted, for replaying prefixes: (file, position, bytes)
    log: Vec<(usize, u64, Vec<u8>)>,
    plan: Plan,
    rng: Rng,
}
impl DevState {
    fn new(plan: Plan, pad: usize) -> Self {
        let seed = match plan {
            Plan::Mess(s) | Plan::MessErr(s, _) => s,
            _ => 1,
        };
        let data = [vec![0xAB; pad], vec![0xAB; pad]];
        DevState { data, pos: [pad as u64; 2], calls: 0, ops: vec![], log: vec![], plan, rng: Rng(seed * 2654435761 + 7) }
    }
    /// the fault for this call, if any
    fn fault(&mut self, write: bool) -> Option<Fault> {
        let c = self.calls;
        self.calls += 1;
        match self.plan {
            Plan::At(n, f) if n == c => {
                if write || f == Fault::Err || f == Fault::Intr {
                    Some(f)
                } else {
                    None
                }
            }
            Plan::From(n) if c >= n => Some(Fault::Err),
            Plan::MessErr(_, n) if c == n => Some(Fault::Err),
            Plan::Mess(_) | Plan::MessErr(..) if write => match self.rng.below(4) {
                0 => Some(Fault::Intr),
                1 => Some(Fault::One),
                2 => Some(Fault::Half),
                _ => None,
            },
            _ => None,
        }
    }
}
const MSG: &str = "device error";
fn device_error() -> Error {
    Error::new(ErrorKind::Other, MSG)
}

#[derive(Clone)]
struct Dev(Arc<Mutex<DevState>>, usize);
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let mut s = self.0.lock().unwrap();
        let f = self.1;
        if b.is_empty() {
            return Ok(0);
        }
        let n = match s.fault(true) {
            None => b.len(),
            Some(Fault::Err) => {
                s.ops.push(json!([f, "w", b.len(), -1]));
                return Err(device_error());
            }
            Some(Fault::Intr) => {
                s.ops.push(json!([f, "w", b.len(), -2]));
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            Some(Fault::Zero) => {
                s.ops.push(json!([f, "w", b.len(), 0]));
                return Ok(0);
            }
            Some(Fault::One) => 1,
            Some(Fault::Half) => (b.len() + 1) / 2,
        };
        let pos = s.pos[f];
        let n = match s.plan {
            Plan::Slow(m) => n.min(m),
            Plan::Full(m) => {
                if pos >= m {
                    s.ops.push(json!([f, "w", b.len(), -1]));
                    return Err(device_error());
                }
                n.min((m - pos) as usize)
            }
            _ => n,
        };
        let end = pos as usize + n;
        if s.data[f].len() < end {
            s.data[f].resize(end, 0);
        }
        s.data[f][pos as usize..end].copy_from_slice(&b[..n]);
        s.pos[f] = end as u64;
        s.log.push((f, pos, b[..n].to_vec()));
        s.ops.push(json!([f, "w", b.len(), n]));
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut s = self.0.lock().unwrap();
        let f = self.1;
        match s.fault(false) {
            Some(Fault::Intr) => {
                s.ops.push(json!([f, "f", 0, -2]));
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            Some(_) => {
                s.ops.push(json!([f, "f", 0, -1]));
                Err(device_error())
            }
            None => {
                s.ops.push(json!([f, "f", 0, 0]));
                Ok(())
            }
        }
    }
}
impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let mut s = self.0.lock().unwrap();
        let f = self.1;
        let p = match to {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => s.pos[f] as i64 + x,
            SeekFrom::End(x) => s.data[f].len() as i64 + x,
        };
        match s.fault(false) {
            Some(Fault::Intr) => {
                s.ops.push(json!([f, "s", p, -2]));
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            Some(_) => {
                s.ops.push(json!([f, "s", p, -1]));
                Err(device_error())
            }
            None => {
                if p < 0 {
                    return Err(Error::new(ErrorKind::InvalidInput, "negative"));
                }
                s.pos[f] = p as u64;
                s.ops.push(json!([f, "s", p, 0]));
                Ok(p as u64)
            }
        }
    }
}

fn digest(b: &[u8]) -> u32 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    (h >> 33) as u32
}

enum Src<K: Kind> {
    B(GranneBuilder<K::C>),
    G(Granne<'static, K::C>),
    R(RwGranneBuilder<K::C>),
}

fn save<K: Kind>(src: &Src<K>, what: &str, borrowed: bool, d: &Arc<Mutex<DevState>>, emb: &dyn Fn(&K::C, &mut Dev) -> Option<Result<usize>>) -> Result<Option<usize>> {
    let mut f = Dev(d.clone(), 0);
    match (src, what) {
        (Src::B(b), "index") => {
            if borrowed {
                b.get_index().write_index(&mut f)
            } else {
                b.write_index(&mut f)
            }
        }
        .map(|_| None),
        (Src::G(g), "index") => g.write_index(&mut f).map(|_| None),
        (Src::B(b), "elements") => b.write_elements(&mut f).map(Some),
        (Src::G(g), "elements") => g.write_elements(&mut f).map(Some),
        (Src::B(b), "embeddings") => emb(b.get_elements(), &mut f).unwrap().map(Some),
        (Src::G(g), "embeddings") => emb(g.get_elements(), &mut f).unwrap().map(Some),
        (Src::R(r), _) => r.write(f, Dev(d.clone(), 1)).map(|_| None),
        _ => panic!("save {}", what),
    }
}

fn setup<K: Kind>(s: &Value) -> Src<K> {
    let n = ctx().rows.len();
    let mut c = K::empty();
    for r in 0..n {
        c.push(K::item(r));
    }
    let cfg = config(&s["cfg"]);
    let mut b = GranneBuilder::new(cfg, c);
    b.build_partial(u(s, "n", n));
    let reload = |b: &GranneBuilder<K::C>, file: bool| {
        let (mut i, mut e) = (Cursor::new(vec![]), vec![]);
        b.write_index(&mut i).unwrap();
        b.write_elements(&mut e).unwrap();
        let i = i.into_inner();
        if file {
            unsafe { Granne::from_file(&temp_file(&i), K::load_file(&temp_file(&e)).unwrap()).unwrap() }
        } else {
            Granne::from_bytes(leak(i), K::load_bytes(leak(e)))
        }
    };
    match s["src"].as_str().unwrap() {
        "builder" | "borrowed" => Src::B(b),
        "owned" => Src::G(b.get_index().to_owned()),
        "loaded" => Src::G(reload(&b, false)),
        "file" => Src::G(reload(&b, true)),
        "reordered" => {
            let mut g = reload(&b, false);
            g.reorder(false);
            Src::G(g)
        }
        "rw" => {
            let r = RwGranneBuilder::new(b, u(s, "cap", n + 4), 1);
            for row in list(&s["more"]) {
                r.insert(K::item(row));
            }
            Src::R(r)
        }
        x => panic!("src {}", x),
    }
}

fn contents(d: &DevState, two: bool) -> Value {
    let fs: Vec<&Vec<u8>> = d.data.iter().take(if two { 2 } else { 1 }).collect();
    json!({"len": fs.iter().map(|f| f.len()).collect::<Vec<_>>(), "digest": fs.iter().map(|f| digest(f)).collect::<Vec<_>>(),
        "start": vec![0; fs.len()]})
}

fn go<K: Kind>(s: &Value, out: &mut Out, emb: &dyn Fn(&K::C, &mut Dev) -> Option<Result<usize>>) {
    let src = setup::<K>(s);
    let what = s["what"].as_str().unwrap();
    let borrowed = s["src"].as_str() == Some("borrowed");
    let two = matches!(src, Src::R(_));
    let pad = u(s, "pad", 0);
    let run = |plan: Plan| {
        let d = Arc::new(Mutex::new(DevState::new(plan.clone(), pad)));
        let r = guarded(|| save(&src, what, borrowed, &d, emb));
        let d = match Arc::try_unwrap(d) {
            Ok(m) => m.into_inner().unwrap_or_else(|e| e.into_inner()),
            Err(_) => panic!("device still in use"),
        };
        let mut e = contents(&d, two);
        e["start"] = json!(vec![pad; if two { 2 } else { 1 }]);
        e["ops"] = json!(d.ops);
        e["plan"] = json!(format!("{:?}", plan));
        e["panic"] = json!(r.is_err());
        match r {
            Ok(Ok(n)) => {
                e["ok"] = json!(true);
                if let Some(n) = n {
                    e["n"] = json!(n);
                }
            }
            Ok(Err(x)) => {
                e["ok"] = json!(false);
                e["msg"] = json!(x.to_string());
            }
            Err(m) => {
                e["ok"] = json!(false);
                e["msg"] = json!(m);
            }
        }
        (e, d)
    };
    let (mut e, whole) = run(Plan::None);
    e["ev"] = json!("whole");
    let ok = e["ok"].as_bool().unwrap();
    e["msg"] = e["msg"].as_str().unwrap_or("").into();
    out.emit(e);
    if !ok {
        return;
    }
    let mut rng = Rng(u(s, "seed", 1) as u64 * 31 + 5);
    let calls = whole.calls;
    if s["faults"].as_bool() == Some(true) {
        let mut plans = vec![];
        let cap = u(s, "maxat", 60);
        let ks: Vec<usize> = if calls <= cap { (0..calls).collect() } else { (0..cap).map(|_| rng.below(calls)).chain([0, calls - 1]).collect() };
        for &k in &ks {
            for f in [Fault::Err, Fault::Intr, Fault::One, Fault::Half, Fault::Zero] {
                plans.push(Plan::At(k, f));
            }
            plans.push(Plan::From(k));
        }
        let len = whole.data.iter().map(|d| d.len()).max().unwrap();
        for _ in 0..u(s, "full", 20) {
            plans.push(Plan::Full(rng.below(len + 2) as u64));
        }
        plans.push(Plan::Full(len as u64 - 1));
        plans.push(Plan::Full(0));
        for m in [1, 3, 1000] {
            plans.push(Plan::Slow(m));
        }
        for _ in 0..u(s, "mess", 10) {
            plans.push(Plan::Mess(rng.next() % 1000000));
            plans.push(Plan::MessErr(rng.next() % 1000000, rng.below(3 * calls + 1)));
        }
        for p in plans {
            let (mut e, _) = run(p);
            e["ev"] = json!("run");
            e["msg"] = e["msg"].as_str().unwrap_or("").into();
            out.emit(e);
        }
    }
    if s["disk"].as_bool() == Some(true) {
        disk::<K>(&src, what, borrowed, &whole, two, pad, u(s, "full", 10), &mut rng, out, emb);
    }
    if let Some(max) = s["crash"].as_u64() {
        crashes::<K>(&whole, pad, max as usize, &mut rng, out);
    }
}

// ------------------------------------------------------------------ real files
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
/// files of this process can grow to `n` bytes only (RLIMIT_FSIZE; SIGXFSZ ignored)
fn limit(n: u64) {
    unsafe {
        signal(25, 1);
        assert_eq!(0, setrlimit(1, &RLimit { cur: n, max: u64::MAX }));
    }
}

#[allow(clippy::too_many_arguments)]
fn disk<K: Kind>(src: &Src<K>, what: &str, borrowed: bool, whole: &DevState, two: bool, pad: usize, n: usize, rng: &mut Rng, out: &mut Out,
    emb: &dyn Fn(&K::C, &mut Dev) -> Option<Result<usize>>) {
    let _ = emb;
    if what == "embeddings" || pad > 0 {
        return;
    }
    let dir = ctx().dir.clone();
    let p = |x: &str| dir.join(x).to_str().unwrap().to_string();
    let (pi, pe) = (p("disk-i"), p("disk-e"));
    let len = whole.data.iter().map(|d| d.len()).max().unwrap() as u64;
    let mut plans: Vec<(String, u64, String, String)> = vec![];
    for x in [0, 1, len.saturating_sub(1), len, u64::MAX].into_iter().chain((0..n).map(|_| rng.below(len as usize + 1) as u64)) {
        plans.push((format!("limit {}", x), x, pi.clone(), pe.clone()));
    }
    plans.push(("full index".into(), u64::MAX, "/dev/full".into(), pe.clone()));
    plans.push(("no such directory".into(), u64::MAX, p("none/x"), pe.clone()));
    if two {
        plans.push(("full elements".into(), u64::MAX, pi.clone(), "/dev/full".into()));
        plans.push(("no such directory for elements".into(), u64::MAX, pi.clone(), p("none/x")));
    }
    for (plan, lim, a, b) in plans {
        let _ = std::fs::remove_file(&pi);
        let _ = std::fs::remove_file(&pe);
        limit(lim);
        let r = guarded(|| -> Result<()> {
            match src {
                Src::R(r) => r.save_index_and_elements_to_disk(&a, &b),
                _ => {
                    let mut f = if a == "/dev/full" { std::fs::OpenOptions::new().write(true).open(&a)? } else { std::fs::File::create(&a)? };
                    match (src, what) {
                        (Src::B(x), "index") => {
                            if borrowed {
                                x.get_index().write_index(&mut f)
                            } else {
                                x.write_index(&mut f)
                            }
                        }
                        (Src::G(x), "index") => x.write_index(&mut f),
                        (Src::B(x), _) => x.write_elements(&mut f).map(|_| ()),
                        (Src::G(x), _) => x.write_elements(&mut f).map(|_| ()),
                        _ => unreachable!(),
                    }
                }
            }
        });
        limit(u64::MAX);
        let read = |x: &str| {
            let mut v = vec![];
            if x != "/dev/full" {
                if let Ok(mut f) = std::fs::File::open(x) {
                    f.read_to_end(&mut v).unwrap();
                }
            }
            v
        };
        let mut fs = vec![read(&a)];
        if two {
            fs.push(read(&b));
        }
        let (ok, panic, msg) = match r {
            Ok(Ok(())) => (true, false, String::new()),
            Ok(Err(e)) => (false, false, e.to_string()),
            Err(m) => (false, true, m),
        };
        out.emit(json!({"ev": "disk", "plan": plan, "ok": ok, "panic": panic, "msg": msg,
            "len": fs.iter().map(|f| f.len()).collect::<Vec<_>>(), "digest": fs.iter().map(|f| digest(f)).collect::<Vec<_>>()}));
    }
}

// ------------------------------------------------------------------ crashes
fn load_outcome<K: Kind>(b: &[u8], how: usize, align: usize, complete: &Option<(usize, Vec<u32>)>) -> (String, Option<(usize, Vec<u32>)>) {
    let cfg = || granne::BuildConfig::default().num_neighbors(250);
    // loading
    enum L<K: Kind> {
        G(Granne<'static, K::C>),
        B(GranneBuilder<K::C>),
    }
    let kept: &'static [u8];
    let mut raw: Option<*mut [u8]> = None;
    let loaded: std::result::Result<L<K>, String> = match how {
        0 | 2 => {
            // a copy that is freed again below
            let mut v = vec![0u8; b.len() + 32];
            let base = v.as_ptr() as usize;
            let off = (16 - base % 16) % 16 + align % 16;
            v[off..off + b.len()].copy_from_slice(b);
            let p = Box::into_raw(v.into_boxed_slice());
            raw = Some(p);
            kept = unsafe { &(&(*p))[off..off + b.len()] };
            if how == 0 {
                guarded(|| L::G(Granne::from_bytes(kept, K::empty())))
            } else {
                guarded(|| L::B(GranneBuilder::from_bytes(cfg(), kept, K::empty())))
            }
        }
        1 => guarded(|| unsafe { Granne::from_file(&temp_file(b), K::empty()) }.map(L::G).map_err(|e| e.to_string())).and_then(|x| x),
        _ => guarded(|| GranneBuilder::from_file(cfg(), &temp_file(b), K::empty()).map(L::B).map_err(|e| e.to_string())).and_then(|x| x),
    };
    let r = match loaded {
        Err(_) => ("fails".to_string(), None),
        Ok(x) => match guarded(|| match &x {
            L::G(g) => (g.len(), digest_layers(g)),
            L::B(b) => (b.len(), digest_layers(b)),
        }) {
            Err(m) => (format!("unreadable: {}", m), None),
            Ok(d) => {
                if Some(&d) == complete.as_ref() {
                    ("complete".into(), None)
                } else {
                    (format!("different: {} elements, {:?}", d.0, d.1), Some(d))
                }
            }
        },
    };
    if let Some(p) = raw {
        // nothing that borrows it is left
        unsafe { drop(Box::from_raw(p)) };
    }
    r
}

fn crashes<K: Kind>(whole: &DevState, pad: usize, max: usize, rng: &mut Rng, out: &mut Out) {
    let image = &whole.data[0][pad..];
    let (_, complete) = load_outcome::<K>(image, 0, 0, &None);
    let log: Vec<&(usize, u64, Vec<u8>)> = whole.log.iter().filter(|x| x.0 == 0).collect();
    let total: usize = log.iter().map(|x| x.2.len()).sum();
    let mut f: Vec<u8> = vec![];
    let mut points = 0usize;
    let mut outcomes: std::collections::BTreeMap<(usize, String), (usize, usize)> = Default::default();
    let mut note = |op: usize, cut: usize, o: String| {
        outcomes.entry((op, o)).or_insert((cut, 0)).1 += 1;
    };
    for (i, (_, pos, data)) in log.iter().enumerate() {
        let pos = *pos as usize - pad;
        for cut in 0..=data.len() {
            // every boundary and the last bytes of each write, a sample of the rest
            let edge = cut < 2 || cut + 3 > data.len();
            if edge || total <= max || rng.below(total) < max {
                let mut g = f.clone();
                if g.len() < pos + cut && cut > 0 {
                    g.resize(pos + cut, 0);
                }
                if cut > 0 {
                    g[pos..pos + cut].copy_from_slice(&data[..cut]);
                }
                let how = [0, 0, 0, 0, 0, 0, 1, 2, 0, 3][points % 10];
                points += 1;
                let (o, _) = load_outcome::<K>(&g, how, points % 16, &complete);
                note(i, cut, o);
            }
        }
        if f.len() < pos + data.len() {
            f.resize(pos + data.len(), 0);
        }
        f[pos..pos + data.len()].copy_from_slice(data);
    }
    for how in 0..4 {
        let (o, _) = load_outcome::<K>(&f, how, 3, &complete);
        note(log.len(), how, if o == "complete" { o } else { format!("the finished save: {}", o) });
    }
    for ((op, o), (cut, n)) in outcomes {
        out.emit(json!({"ev": "crash", "op": op, "cut": cut, "outcome": o, "count": n}));
    }
    out.emit(json!({"ev": "crashes", "points": points, "writes": log.len(), "bytes": total}));
}

pub fn run(s: &Value, out: &mut Out) {
    let none1 = |_: &<KTab as Kind>::C, _: &mut Dev| None;
    match s["kind"].as_str().unwrap() {
        "tab" => go::<KTab>(s, out, &none1),
        "ang" => go::<KAng>(s, out, &|_, _| None),
        "int" => go::<KInt>(s, out, &|_, _| None),
        "sum" => go::<KSum>(s, out, &|c, d| Some(c.write_embeddings(d))),
        k => panic!("kind {}", k),
    }
}
