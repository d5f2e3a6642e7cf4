//! Generation from a recorded sequence of choices, running, shrinking, replaying and reporting.

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::hashseed;

// ------------------------------------------------------------------ source of choices

/// Draws bounded choices, from a generator or from a recorded sequence.
/// Smaller choices mean simpler cases: shrinking deletes and lowers recorded choices.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub log: Vec<u64>,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { state: seed, replay: None, pos: 0, log: vec![] }
    }
    pub fn recorded(choices: Vec<u64>) -> Src {
        Src { state: 0, replay: Some(choices), pos: 0, log: vec![] }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.state, 0x1234_5678_9abc_def1)
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => {
                let r = self.raw();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.log.push(v);
        v
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// Uniform in lo..=hi; 0 (or the bound nearest to it) is the simplest
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let pivot = 0i64.clamp(lo, hi);
        let v = self.below((hi - lo + 1) as u64) as i64;
        // order of simplicity: pivot, pivot+1, ..., hi, pivot-1, ..., lo
        if v <= hi - pivot { pivot + v } else { pivot - (v - (hi - pivot)) }
    }
    /// True in k of n cases; false is the simplest
    pub fn chance(&mut self, k: u64, n: u64) -> bool {
        self.below(n) >= n - k
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index into weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn bits(&mut self) -> u64 {
        self.below(1 << 32) << 32 | self.below(1 << 32)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // the recorded choice 0 leaves the element where it is
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// A small size, with a tail of larger ones
    pub fn size(&mut self, typical: usize, max: usize) -> usize {
        if self.chance(1, 10) { self.usize(0, max) } else { self.usize(0, typical.min(max)) }
    }
    /// Decimal fraction k/10^d, exactly as written
    pub fn decimal(&mut self, max: i64, places: u32) -> f64 {
        let p = 10i64.pow(places);
        let k = self.int(-max * p, max * p);
        // parse the text so that the value is the nearest to the written one
        format!("{}e-{}", k, places).parse().unwrap()
    }
    /// `hi`, or rarely a number up to `more`
    pub fn tail(&mut self, hi: usize, more: usize) -> usize {
        if self.chance(1, 50) { self.usize(hi, more) } else { hi }
    }
    /// Uniform fraction in [lo, hi] on a grid of 1/1000
    pub fn frac(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * (self.below(1001) as f64) / 1000.0
    }
}

// ------------------------------------------------------------------ properties

#[derive(Debug, Clone)]
pub struct Failure {
    pub key: String,
    pub msg: String,
}

#[derive(Debug, Clone, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

pub type Checked = Result<Info, Failure>;

impl From<String> for Failure {
    fn from(msg: String) -> Failure {
        Failure { key: String::new(), msg }
    }
}
impl From<&str> for Failure {
    fn from(msg: &str) -> Failure {
        Failure { key: String::new(), msg: msg.to_string() }
    }
}

pub fn ok(nontrivial: bool, labels: Vec<&'static str>) -> Checked {
    Ok(Info { nontrivial, labels })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) { return Err($crate::engine::Failure::from(format!($($t)*))); }
    };
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Failure::from(format!($($t)*))) };
}

pub trait Prop: 'static {
    type Case: Serialize + DeserializeOwned + Send + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    /// Number of cases in the quick tier
    const QUICK: u64;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// The space is finite and visited completely by `index`
    fn generate(s: &mut Src) -> Self::Case;
    fn check(c: &Self::Case) -> Checked;
    /// Fixed cases that run before the generated ones
    fn fixed() -> Vec<Self::Case> {
        vec![]
    }
}

/// What one case looked like and did
pub struct Ran {
    pub json: Value,
    pub result: Checked,
    pub choices: Vec<u64>,
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub assumptions: &'static [&'static str],
    pub fixed_count: fn() -> u64,
    /// Runs a case; `announce` is called with its JSON before the code under test runs, if asked for
    pub run: fn(Origin, Option<&dyn Fn(&Value)>) -> Ran,
    /// The choices that a seed leads to, without running the case
    pub log: fn(u64, &mut Vec<u64>),
}

pub enum Origin {
    Seed(u64),
    Choices(Vec<u64>),
    Fixed(u64),
    Json(Value, u64),
}

// ------------------------------------------------------------------ panics

thread_local! {
    // a fixed buffer: the hook must not allocate while the code under test is being tracked
    static LAST_PANIC: RefCell<([u8; 400], usize)> = const { RefCell::new(([0; 400], 0)) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info
            .payload()
            .downcast_ref::<&str>()
            .copied()
            .or_else(|| info.payload().downcast_ref::<String>().map(|s| s.as_str()))
            .unwrap_or("panic");
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                use std::io::Write;
                let mut w = &mut p.0[..];
                let cut: &str = &text[..(0..=text.len().min(250)).rev().find(|&i| text.is_char_boundary(i)).unwrap_or(0)];
                let _ = match info.location() {
                    Some(l) => write!(w, "{} ({}:{})", cut, l.file(), l.line()),
                    None => write!(w, "{}", cut),
                };
                let left = w.len();
                p.1 = 400 - left;
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| {
        let p = p.borrow();
        String::from_utf8_lossy(&p.0[..p.1]).into_owned()
    })
}

/// Calls code under test that may refuse by panicking.
pub fn refused<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

// ------------------------------------------------------------------ one case

const STACK: usize = 64 << 20;

fn in_thread<R: Send>(hash_seed: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, move || {
                hashseed::set(hash_seed);
                f()
            })
            .expect("cannot start a thread")
            .join()
            .unwrap_or_else(|_| panic!("case thread ended by a panic of the harness"))
    })
}

pub fn run_typed<P: Prop>(origin: Origin, announce: Option<&dyn Fn(&Value)>) -> Ran {
    let (case, hash_seed, choices): (P::Case, u64, Vec<u64>) = match origin {
        Origin::Json(v, hs) => (serde_json::from_value(v).expect("the replay file does not hold a case of this property"), hs, vec![]),
        Origin::Fixed(i) => (P::fixed().swap_remove(i as usize), i, vec![]),
        Origin::Seed(_) | Origin::Choices(_) => {
            let mut s = match origin {
                Origin::Seed(x) => Src::random(x),
                Origin::Choices(c) => Src::recorded(c),
                _ => unreachable!(),
            };
            let hs = s.below(1 << 20);
            let c = P::generate(&mut s);
            (c, hs, s.log)
        }
    };
    let json = json!({ "hash_seed": hash_seed, "case": serde_json::to_value(&case).expect("case") });
    if let Some(a) = announce {
        a(&json);
    }
    let result = in_thread(hash_seed, move || {
        let r = catch_unwind(AssertUnwindSafe(|| P::check(&case)));
        match r {
            Ok(r) => r,
            Err(_) => Err(Failure { key: String::new(), msg: format!("panicked: {}", last_panic()) }),
        }
    });
    Ran { json, result, choices }
}

pub const fn def<P: Prop>() -> PropDef {
    fn fixed_count<P: Prop>() -> u64 {
        P::fixed().len() as u64
    }
    fn log<P: Prop>(seed: u64, out: &mut Vec<u64>) {
        let mut s = Src::random(seed);
        s.below(1 << 20);
        let _ = P::generate(&mut s);
        *out = s.log;
    }
    PropDef { log: log::<P>, id: P::ID, rule: P::RULE, quick: P::QUICK, assumptions: P::ASSUMPTIONS, fixed_count: fixed_count::<P>, run: run_typed::<P> }
}

// ------------------------------------------------------------------ shrinking

pub fn shrink(def: &PropDef, start: Vec<u64>, keep: impl Fn(&Ran) -> bool, budget: Duration, max_tries: u32) -> (Vec<u64>, u32) {
    let deadline = Instant::now() + budget;
    let tries = std::cell::Cell::new(0u32);
    let mut best = start;
    let attempt = |c: &Vec<u64>| -> Option<Vec<u64>> {
        if tries.get() >= max_tries || Instant::now() > deadline {
            return None;
        }
        tries.set(tries.get() + 1);
        let ran = (def.run)(Origin::Choices(c.clone()), None);
        if keep(&ran) {
            // what was really drawn, which may be shorter
            Some(ran.choices)
        } else {
            None
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                match attempt(&c) {
                    Some(n) if better(&n, &best) => best = n,
                    _ => i += k,
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero blocks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    if let Some(n) = attempt(&c) {
                        if better(&n, &best) {
                            best = n;
                        }
                    }
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match attempt(&c) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before || tries.get() >= max_tries || Instant::now() > deadline {
            return (best, tries.get());
        }
    }
}

// ------------------------------------------------------------------ a run over many cases

pub struct Slots {
    /// index+1 of the case each worker is on; 0: idle
    pub current: Vec<AtomicU64>,
    pub since: Vec<AtomicU64>,
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(u64, Ran)>,
    pub known: BTreeMap<String, u64>,
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, 7)
}

pub fn origin(def: &PropDef, seed: u64, index: u64) -> Origin {
    let n = (def.fixed_count)();
    if index < n { Origin::Fixed(index) } else { Origin::Seed(mix(mix(seed, hash_str(def.id)), index)) }
}

pub fn run_many(def: &'static PropDef, seed: u64, cases: u64, deadline: Option<Instant>, known: &[String], workers: usize, crumbs: &'static Crumbs) -> Outcome {
    struct Acc {
        evaluations: u64,
        seen: HashSet<u64>,
        labels: BTreeMap<String, u64>,
        samples: BTreeMap<u64, Value>,
        failure: Option<(u64, Ran)>,
        known: BTreeMap<String, u64>,
    }
    let acc = Arc::new(Mutex::new(Acc { evaluations: 0, seen: HashSet::new(), labels: BTreeMap::new(), samples: BTreeMap::new(), failure: None, known: BTreeMap::new() }));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let fixed = (def.fixed_count)();
    let total = cases + fixed;
    let known: Arc<Vec<String>> = Arc::new(known.to_vec());
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (acc, next, stop, known) = (acc.clone(), next.clone(), stop.clone(), known.clone());
            sc.spawn(move || loop {
                if stop.load(Ordering::Relaxed) || deadline.is_some_and(|d| Instant::now() > d) {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= total {
                    break;
                }
                crumbs.enter(w, i);
                let ran = (def.run)(origin(def, seed, i), None);
                crumbs.leave(w);
                let mut a = acc.lock().unwrap();
                a.evaluations += 1;
                match &ran.result {
                    Ok(info) => {
                        for l in &info.labels {
                            *a.labels.entry(l.to_string()).or_default() += 1;
                        }
                        if info.nontrivial {
                            let text = ran.json["case"].to_string();
                            a.seen.insert(hash_str(&text));
                            // three samples of the run, the first ones by index
                            // and generated ones before fixed ones
                            let rank = if i < fixed { i + (1 << 40) } else { i };
                            if a.samples.len() < 3 || a.samples.keys().next_back().is_some_and(|&k| rank < k) {
                                if text.len() < 4000 {
                                    a.samples.insert(rank, ran.json.clone());
                                    if a.samples.len() > 3 {
                                        a.samples.pop_last();
                                    }
                                }
                            }
                        }
                    }
                    Err(f) => {
                        if !f.key.is_empty() && known.iter().any(|k| k == &f.key) {
                            *a.known.entry(f.key.clone()).or_default() += 1;
                        } else {
                            stop.store(true, Ordering::Relaxed);
                            if a.failure.as_ref().is_none_or(|(j, _)| i < *j) {
                                a.failure = Some((i, ran));
                            }
                        }
                    }
                }
            });
        }
    });
    let a = Arc::try_unwrap(acc).ok().unwrap().into_inner().unwrap();
    Outcome { evaluations: a.evaluations, distinct: a.seen.len() as u64, labels: a.labels, samples: a.samples.into_values().collect(), failure: a.failure, known: a.known }
}

// ------------------------------------------------------------------ crumbs: where a crashed run was

/// A small shared file with the case each worker is on, read by the parent after a crash or hang.
pub struct Crumbs {
    map: *mut u64,
    pub workers: usize,
}
unsafe impl Sync for Crumbs {}
unsafe impl Send for Crumbs {}

impl Crumbs {
    pub fn create(path: &str, workers: usize) -> Crumbs {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("crumbs file");
        f.set_len((workers * 16) as u64).unwrap();
        let map = unsafe { libc::mmap(std::ptr::null_mut(), workers * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(map != libc::MAP_FAILED);
        Crumbs { map: map as *mut u64, workers }
    }
    fn cell(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.map.add(i) as *const AtomicU64) }
    }
    fn now() -> u64 {
        static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
        T0.get_or_init(Instant::now).elapsed().as_millis() as u64
    }
    pub fn enter(&self, w: usize, i: u64) {
        self.cell(2 * w + 1).store(Self::now(), Ordering::SeqCst);
        self.cell(2 * w).store(i + 1, Ordering::SeqCst);
    }
    pub fn leave(&self, w: usize) {
        self.cell(2 * w).store(0, Ordering::SeqCst);
    }
    /// Ends the process when a case takes longer than `limit`
    pub fn watch(&'static self, limit: Duration, exit_code: i32) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for w in 0..self.workers {
                let i = self.cell(2 * w).load(Ordering::SeqCst);
                let t = self.cell(2 * w + 1).load(Ordering::SeqCst);
                if i != 0 && Self::now().saturating_sub(t) > limit.as_millis() as u64 {
                    // mark the slow one alone
                    for v in 0..self.workers {
                        if v != w {
                            self.cell(2 * v).store(0, Ordering::SeqCst);
                        }
                    }
                    unsafe { libc::_exit(exit_code) }
                }
            }
        });
    }
    pub fn read(path: &str) -> Vec<u64> {
        let b = std::fs::read(path).unwrap_or_default();
        b.chunks_exact(16).map(|c| u64::from_le_bytes(c[..8].try_into().unwrap())).filter(|&x| x != 0).map(|x| x - 1).collect()
    }
}
