//! Control of thread interleavings at lock operations (through the hooks of the parking_lot shim).
//!
//! * Strict: harness-owned threads run one at a time; at every lock acquisition a policy chooses which
//!   thread continues. The lock semantics of parking_lot are emulated (a waiting writer holds off new
//!   non-recursive readers), so a chosen thread never blocks and a deadlock is seen at once.
//! * Soft: unknown threads (rayon workers) are slowed down so that their lock operations are serialised in
//!   a seeded random order; a thread that shows no activity for a while loses its turn.
use parking_lot::sched::{Hook, Kind};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

const OFF: u8 = 0;
const STRICT: u8 = 1;
const SOFT: u8 = 2;
static MODE: AtomicU8 = AtomicU8::new(OFF);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Default, Clone)]
struct LockSt {
    readers: HashMap<usize, usize>,
    writer: Option<usize>,
    /// a writer that has announced itself and waits for the readers to leave
    pending: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    New,
    Ready(Option<(usize, Kind)>),
    Running,
    Done,
}

/// How the next thread is chosen. Every decision among more than one enabled thread is recorded.
pub enum Policy {
    Random(Rng),
    /// follow `choices` (indices into the enabled list), then prefer the running thread
    Dfs { choices: Vec<usize>, bound: usize },
    /// probabilistic concurrency testing: priorities, lowered at some steps
    Pct { prio: Vec<u64>, change: Vec<usize>, rng: Rng },
}

struct St {
    th: Vec<Th>,
    cur: Option<usize>,
    last: usize,
    locks: HashMap<usize, LockSt>,
    policy: Option<Policy>,
    steps: usize,
    /// (number of options, chosen, preemptions so far, option 0 is continuing)
    trail: Vec<(usize, usize, usize, bool)>,
    preempt: usize,
    dead: bool,
    free: bool,
    log: Vec<serde_json::Value>,
    started: Instant,
}

static ST: Mutex<Option<St>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

fn lock() -> MutexGuard<'static, Option<St>> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}

impl St {
    fn enabled(&self, t: usize) -> bool {
        match self.th[t] {
            Th::Ready(None) => true,
            Th::Ready(Some((a, k))) => {
                let l = self.locks.get(&a).cloned().unwrap_or_default();
                match k {
                    Kind::Shared => l.writer.is_none() && l.pending.is_none(),
                    Kind::Recursive => l.writer.is_none(),
                    _ => {
                        if l.pending == Some(t) {
                            l.readers.is_empty() && l.writer.is_none()
                        } else {
                            l.writer.is_none() && l.pending.is_none()
                        }
                    }
                }
            }
            _ => false,
        }
    }

    /// chooses the next thread to run; the current one has just stopped
    fn pick(&mut self) {
        self.cur = None;
        loop {
            let mut en: Vec<usize> = (0..self.th.len()).filter(|&t| self.enabled(t)).collect();
            if en.is_empty() {
                if self.th.iter().any(|t| matches!(t, Th::Ready(_) | Th::New)) {
                    if self.th.iter().any(|t| *t == Th::New) {
                        return; // wait for all threads to arrive
                    }
                    self.dead = true;
                    self.log.push(serde_json::json!({"ev": "deadlock", "t": 0,
                        "waiting": (0..self.th.len()).filter(|&t| self.th[t] != Th::Done).collect::<Vec<_>>()}));
                }
                return;
            }
            if self.th.iter().any(|t| *t == Th::New) {
                return;
            }
            // continuing the last thread comes first
            if let Some(p) = en.iter().position(|&t| t == self.last) {
                en.swap(0, p);
                en[1..].sort();
            }
            self.steps += 1;
            let cont = en[0] == self.last;
            let c = if en.len() == 1 {
                0
            } else {
                let (step, npre) = (self.steps, self.preempt);
                let ntrail = self.trail.len();
                let c = match self.policy.as_mut().unwrap() {
                    Policy::Random(r) => {
                        if r.below(3) == 0 { 0 } else { r.below(en.len()) }
                    }
                    Policy::Dfs { choices, bound } => {
                        if ntrail < choices.len() {
                            choices[ntrail].min(en.len() - 1)
                        } else {
                            let _ = (npre, bound);
                            0
                        }
                    }
                    Policy::Pct { prio, change, rng } => {
                        if change.contains(&step) {
                            let t = en[0];
                            prio[t] = rng.next() % 1000;
                        }
                        (0..en.len()).max_by_key(|&i| prio[en[i]]).unwrap()
                    }
                };
                self.trail.push((en.len(), c, self.preempt, cont));
                if cont && c != 0 {
                    self.preempt += 1;
                }
                c
            };
            let t = en[c];
            self.last = t;
            if let Th::Ready(Some((a, k))) = self.th[t] {
                let l = self.locks.entry(a).or_default();
                match k {
                    Kind::Shared | Kind::Recursive => {
                        *l.readers.entry(t).or_insert(0) += 1;
                    }
                    _ => {
                        if l.readers.is_empty() {
                            l.pending = None;
                            l.writer = Some(t);
                        } else {
                            l.pending = Some(t); // announced; waits for the readers
                            continue;
                        }
                    }
                }
            }
            self.th[t] = Th::Running;
            self.cur = Some(t);
            CV.notify_all();
            return;
        }
    }
}

struct Dead;

/// Blocks the calling thread (which wants `req`) until it is chosen.
fn stop(t: usize, req: Option<(usize, Kind)>) {
    let mut g = lock();
    {
        let Some(s) = g.as_mut() else { return };
        if s.free {
            return;
        }
        s.th[t] = Th::Ready(req);
        s.pick();
        if s.dead {
            CV.notify_all();
        }
    }
    loop {
        let s = g.as_mut().unwrap();
        if s.free {
            return;
        }
        if s.dead {
            s.th[t] = Th::Running; // unwinds; releases are ignored from here on
            drop(g);
            std::panic::resume_unwind(Box::new(Dead));
        }
        if s.cur == Some(t) {
            return;
        }
        let (g2, _to) = CV.wait_timeout(g, Duration::from_secs(1)).unwrap_or_else(|e| e.into_inner());
        g = g2;
        let s = g.as_mut().unwrap();
        if !s.dead && s.cur != Some(t) && s.started.elapsed() > Duration::from_secs(20) {
            // the running thread does not reach a hook any more: give up controlling this run
            s.free = true;
            CV.notify_all();
        }
    }
}

pub struct TheHook;
impl Hook for TheHook {
    fn acquire(&self, addr: usize, kind: Kind) {
        match MODE.load(Ordering::Relaxed) {
            STRICT => {
                let t = TID.with(|t| t.get());
                if t != usize::MAX && !std::thread::panicking() {
                    stop(t, Some((addr, kind)));
                }
            }
            SOFT => soft_step(),
            _ => {}
        }
    }
    fn acquired(&self, addr: usize, kind: Kind) {
        if MODE.load(Ordering::Relaxed) == STRICT {
            let t = TID.with(|t| t.get());
            if t != usize::MAX {
                if let Some(s) = lock().as_mut() {
                    let l = s.locks.entry(addr).or_default();
                    match kind {
                        Kind::Exclusive => l.writer = Some(t),
                        _ => *l.readers.entry(t).or_insert(0) += 1,
                    }
                }
            }
        }
    }
    fn released(&self, addr: usize, kind: Kind) {
        if MODE.load(Ordering::Relaxed) == STRICT {
            let t = TID.with(|t| t.get());
            if t != usize::MAX {
                if let Some(s) = lock().as_mut() {
                    if let Some(l) = s.locks.get_mut(&addr) {
                        match kind {
                            Kind::Exclusive => l.writer = None,
                            _ => {
                                // a guard may be released by another thread than the one that took it
                                let k = if l.readers.contains_key(&t) { Some(t) } else { l.readers.keys().next().copied() };
                                if let Some(k) = k {
                                    let n = l.readers.get_mut(&k).unwrap();
                                    *n -= 1;
                                    if *n == 0 {
                                        l.readers.remove(&k);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn downgraded(&self, addr: usize) {
        if MODE.load(Ordering::Relaxed) == STRICT {
            let t = TID.with(|t| t.get());
            if t != usize::MAX {
                if let Some(s) = lock().as_mut() {
                    if let Some(l) = s.locks.get_mut(&addr) {
                        l.writer = None;
                        *l.readers.entry(t).or_insert(0) += 1;
                    }
                }
            }
        }
    }
}

pub fn install() {
    parking_lot::sched::install(Box::new(TheHook));
}

/// Appends an event to the log of the current controlled run (ordered with all others).
pub fn log_event(v: serde_json::Value) {
    if let Some(s) = lock().as_mut() {
        s.log.push(v)
    }
}

/// A scheduling point that is not a lock operation.
pub fn yield_point() {
    if MODE.load(Ordering::Relaxed) == STRICT {
        let t = TID.with(|t| t.get());
        if t != usize::MAX {
            stop(t, None)
        }
    }
}

pub struct Run {
    pub log: Vec<serde_json::Value>,
    pub trail: Vec<(usize, usize, usize, bool)>,
    pub steps: usize,
    pub free: bool,
    pub dead: bool,
    pub hung: bool,
}

/// Runs `n` threads executing `f(tid)` under the strict scheduler.
pub fn run_strict<F>(n: usize, policy: Policy, f: std::sync::Arc<F>) -> Run
where
    F: Fn(usize) + Send + Sync + 'static,
{
    *lock() = Some(St {
        th: vec![Th::New; n],
        cur: None,
        last: usize::MAX,
        locks: HashMap::new(),
        policy: Some(policy),
        steps: 0,
        trail: vec![],
        preempt: 0,
        dead: false,
        free: false,
        log: vec![],
        started: Instant::now(),
    });
    MODE.store(STRICT, Ordering::SeqCst);
    let done = std::sync::Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let f = f.clone();
            let done = done.clone();
            std::thread::spawn(move || {
                TID.with(|c| c.set(t));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    stop(t, None);
                    f(t);
                }));
                TID.with(|c| c.set(usize::MAX));
                let mut g = lock();
                if let Some(s) = g.as_mut() {
                    s.th[t] = Th::Done;
                    if let Err(e) = r {
                        if !e.is::<Dead>() {
                            let m = crate::panic_text(&e);
                            s.log.push(serde_json::json!({"ev": "panic", "t": t, "msg": m}));
                        }
                    }
                    if !s.dead && !s.free {
                        // locks left behind by this thread (guards are gone after unwinding)
                        s.pick();
                    }
                }
                CV.notify_all();
                drop(g);
                done.fetch_add(1, Ordering::SeqCst);
            })
        })
        .collect();
    // wait for the threads, with a limit
    let t0 = Instant::now();
    let mut hung = false;
    while done.load(Ordering::SeqCst) < n {
        std::thread::sleep(Duration::from_micros(20));
        if t0.elapsed() > Duration::from_secs(60) {
            hung = true;
            break;
        }
    }
    if !hung {
        for h in hs {
            let _ = h.join();
        }
    }
    MODE.store(OFF, Ordering::SeqCst);
    let s = lock().take().unwrap();
    Run { log: s.log, trail: s.trail, steps: s.steps, free: s.free, dead: s.dead, hung }
}

/// The next choice sequence in depth-first order with at most `bound` preemptions, if any.
pub fn next_choices(trail: &[(usize, usize, usize, bool)], bound: usize) -> Option<Vec<usize>> {
    let mut i = trail.len();
    while i > 0 {
        i -= 1;
        let (n, c, pre, cont) = trail[i];
        let cost = if cont { 1 } else { 0 };
        if c + 1 < n && pre + cost <= bound {
            let mut v: Vec<usize> = trail[..i].iter().map(|x| x.1).collect();
            v.push(c + 1);
            return Some(v);
        }
    }
    None
}

// ---------------------------------------------------------------- soft mode
struct Soft {
    rng: Rng,
    waiting: Vec<u64>,
    holder: Option<(u64, Instant)>,
    ops: u64,
}
static SOFT_ST: Mutex<Option<Soft>> = Mutex::new(None);
static SOFT_CV: Condvar = Condvar::new();
static NEXT: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static SID: Cell<u64> = const { Cell::new(0) };
}
const LEASE: Duration = Duration::from_micros(120);
const GATHER: Duration = Duration::from_micros(60);

fn soft_step() {
    let id = SID.with(|s| {
        if s.get() == 0 {
            s.set(NEXT.fetch_add(1, Ordering::Relaxed))
        }
        s.get()
    });
    let mut g = SOFT_ST.lock().unwrap_or_else(|e| e.into_inner());
    let Some(s) = g.as_mut() else { return };
    s.ops += 1;
    if let Some((h, _)) = s.holder {
        if h == id {
            s.holder = None;
        }
    }
    s.waiting.push(id);
    let arrived = Instant::now();
    loop {
        let Some(s) = g.as_mut() else { return };
        if !s.waiting.contains(&id) {
            return; // chosen
        }
        let free = match s.holder {
            None => true,
            Some((_, t)) => t.elapsed() > LEASE,
        };
        if free && (s.waiting.len() > 1 || arrived.elapsed() > GATHER) {
            let i = s.rng.below(s.waiting.len());
            let w = s.waiting.swap_remove(i);
            s.holder = Some((w, Instant::now()));
            SOFT_CV.notify_all();
            if w == id {
                return;
            }
        }
        let (g2, _) = SOFT_CV.wait_timeout(g, Duration::from_micros(50)).unwrap_or_else(|e| e.into_inner());
        g = g2;
    }
}

pub fn soft_begin(seed: u64) {
    *SOFT_ST.lock().unwrap_or_else(|e| e.into_inner()) =
        Some(Soft { rng: Rng(seed | 1), waiting: vec![], holder: None, ops: 0 });
    MODE.store(SOFT, Ordering::SeqCst);
}
pub fn soft_end() -> u64 {
    MODE.store(OFF, Ordering::SeqCst);
    let r = SOFT_ST.lock().unwrap_or_else(|e| e.into_inner()).take();
    SOFT_CV.notify_all();
    r.map_or(0, |s| s.ops)
}

/// Called by the Tab container when an element is fetched (the start of indexing it): in soft mode also
/// a scheduling point, so that several workers get going before the first one finishes.
pub fn at_get(_idx: usize) {
    if MODE.load(Ordering::Relaxed) == SOFT {
        soft_step()
    }
}
