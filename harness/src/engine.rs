//! A small property-based testing engine over recorded choice sequences.
//!
//! Every generator draws all of its randomness from a [`Source`]. A source
//! records what was drawn, so that any case can be replayed, shrunk (by
//! editing the recorded choices and generating again) or driven by libFuzzer
//! (by decoding the choices from its bytes). A run is a pure function of the
//! code under test, the seed and the tier.

use serde::{de::DeserializeOwned, Serialize};
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- randomness

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// splitmix64.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    #[inline]
    pub fn next(&mut self) -> u64 {
        let r = mix(self.0);
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn str_hash(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
    /// Choices decoded from a byte string (libFuzzer).
    Bytes(Vec<u8>, usize),
}

/// The only origin of choices for generators.
pub struct Source {
    mode: Mode,
    pub log: Vec<u64>,
    /// Scale factor of the tier: 0 = quick, 1 = thorough.
    pub tier: u8,
}

impl Source {
    pub fn random(seed: u64, tier: u8) -> Self {
        Source { mode: Mode::Random(Rng(seed)), log: Vec::new(), tier }
    }
    pub fn replay(choices: Vec<u64>, tier: u8) -> Self {
        Source { mode: Mode::Replay(choices, 0), log: Vec::new(), tier }
    }
    pub fn bytes(data: &[u8], tier: u8) -> Self {
        Source { mode: Mode::Bytes(data.to_vec(), 0), log: Vec::new(), tier }
    }

    /// A value in `0..=max`. `0` is the simplest choice.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match self.mode {
            Mode::Random(ref mut r) => {
                if max == u64::MAX {
                    r.next()
                } else {
                    r.below(max + 1)
                }
            }
            Mode::Replay(ref c, ref mut pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(max)
            }
            Mode::Bytes(ref d, ref mut pos) => {
                let width = match max {
                    0 => 0,
                    1..=0xff => 1,
                    0x100..=0xffff => 2,
                    0x1_0000..=0xffff_ffff => 4,
                    _ => 8,
                };
                let mut v = 0u64;
                for i in 0..width {
                    v |= (d.get(*pos + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                *pos += width;
                if max == u64::MAX {
                    v
                } else {
                    v % (max + 1)
                }
            }
        };
        self.log.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.upto(u64::MAX)
    }
    pub fn u32(&mut self) -> u32 {
        self.upto(u32::MAX as u64) as u32
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// `true` with probability `num / den`; `false` is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    /// Picks an index by weight; the first is the simplest.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut v = self.upto(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }
    /// A list whose elements can be deleted from the choice sequence one at a
    /// time; of `min..=max` elements, `avg` of them on average (before capping).
    pub fn list<T>(
        &mut self,
        min: usize,
        max: usize,
        avg: usize,
        mut f: impl FnMut(&mut Source, usize) -> T,
    ) -> Vec<T> {
        let mut out = Vec::new();
        let avg = avg.max(1) as u64;
        while out.len() < max {
            if out.len() >= min && !self.chance(avg, avg + 1) {
                break;
            }
            let i = out.len();
            out.push(f(self, i));
        }
        out
    }
    /// A size from several scales: mostly small, now and then up to `max`.
    pub fn size(&mut self, min: usize, max: usize) -> usize {
        let top = match self.weighted(&[40, 30, 15, 10, 5]) {
            0 => 3,
            1 => 8,
            2 => 20,
            3 => 70,
            _ => max,
        };
        self.range(min, (min + top).min(max.max(min)))
    }
}

// ---------------------------------------------------------------- properties

/// What a check tells the engine about a case beside its verdict.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub discarded: bool,
    /// Sub-checks evaluated (compared observations), for the evidence.
    pub comparisons: u64,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err(format!(
                        "{}: got {:?}, expected {:?}",
                        format!($($arg)*),
                        a,
                        b
                    ));
                }
            }
        }
    }};
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Hash + Debug + Send + Sync;
    const ID: &'static str;
    const RULE: &'static str;
    /// Random cases for (quick, thorough).
    const CASES: (u64, u64);
    fn gen(s: &mut Source) -> Self::Case;
    fn check(c: &Self::Case, cx: &mut Cx) -> Verdict;
    /// The case of a text that a byte-level fuzzer made, if there is one.
    fn of_bytes(_: &[u8]) -> Option<Self::Case> {
        None
    }
    /// A fixed, exhaustively enumerated part of the input space.
    fn fixed() -> Vec<Self::Case> {
        Vec::new()
    }
    fn assumptions() -> Vec<&'static str> {
        Vec::new()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
    }));
}

fn payload_str(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Runs `f`, turning a panic into an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| format!("panicked: {}", payload_str(&*p)))),
    }
}

pub fn run_check<P: Prop>(case: &P::Case) -> (Verdict, Cx) {
    let mut cx = Cx::default();
    let v = match guard(|| P::check(case, &mut cx)) {
        Ok(v) => v,
        Err(p) => Err(p),
    };
    (v, cx)
}

pub fn case_hash<T: Hash>(c: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    c.hash(&mut h);
    mix(h.0)
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

// ---------------------------------------------------------------- shrinking

/// Makes `choices` as small and simple as possible while `fails` holds for
/// what is generated from them. `fails` returns the choices actually used.
pub fn shrink(
    start: Vec<u64>,
    max_evals: usize,
    deadline: Instant,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = start;
    let mut evals = 0usize;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if evals >= max_evals || Instant::now() > deadline {
                return best;
            }
            evals += 1;
            match fails(&cand) {
                Some(mut used) => {
                    while used.last() == Some(&0) {
                        used.pop();
                    }
                    let better = (used.len(), &used[..]) < (best.len(), &best[..]);
                    if better {
                        best = used;
                    }
                    better
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1).next_power_of_two();
        while size >= 1 {
            let mut at = best.len();
            while at > 0 {
                let lo = at.saturating_sub(size);
                if at <= best.len() {
                    let mut c = best.clone();
                    c.drain(lo..at);
                    if !attempt!(c) {
                        // Delete and lower the count that may precede it.
                        if lo > 0 && lo <= best.len() && size <= 8 && best[lo - 1] > 0 {
                            let mut c = best.clone();
                            c[lo - 1] -= 1;
                            c.drain(lo..at.min(best.len()));
                            attempt!(c);
                        }
                    }
                }
                at = lo.min(best.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks.
        let mut size = (best.len() / 2).max(1).next_power_of_two();
        while size >= 1 {
            let mut lo = 0;
            while lo < best.len() {
                let hi = (lo + size).min(best.len());
                if best[lo..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[lo..hi].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                lo += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single choices.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v);
                // Smallest value that still fails, assuming monotonicity.
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    if i >= best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] = mid;
                    if mid < best[i] && attempt!(c) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    attempt!(c);
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------- runner

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: u64,
    pub comparisons: u64,
    pub fixed: u64,
    pub regress: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<(usize, String)>,
    /// Time and number of the slowest case.
    pub slowest: (f64, u64),
}

const MAX_SAMPLES: usize = 6;

impl Stats {
    pub fn record<P: Prop>(&mut self, case: &P::Case, cx: &Cx, index: u64) {
        self.evaluations += 1;
        self.comparisons += cx.comparisons;
        if cx.discarded {
            self.discarded += 1;
        }
        for l in &cx.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if cx.nontrivial {
            self.nontrivial.insert(case_hash(case));
            if self.samples.len() < MAX_SAMPLES && index % 7 == 0 {
                let s = serde_json::to_string(case).unwrap();
                if s.len() < 4000 {
                    self.samples.push((index as usize, s));
                }
            }
        }
    }
    fn took(&mut self, began: Instant, n: u64) {
        let t = began.elapsed().as_secs_f64();
        if t > self.slowest.0 {
            self.slowest = (t, n);
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.discarded += o.discarded;
        self.comparisons += o.comparisons;
        self.fixed += o.fixed;
        self.regress += o.regress;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        if o.slowest.0 > self.slowest.0 {
            self.slowest = o.slowest;
        }
        self.samples.extend(o.samples);
        self.samples.sort();
        self.samples.truncate(MAX_SAMPLES);
    }
}

/// A failing case, shrunk.
pub struct Failure {
    pub message: String,
    pub case_json: String,
    pub choices: Vec<u64>,
}

/// The stack of what runs cases: that of any thread of a Rust program, and the
/// harness's own part.
pub const STACK: usize = 2 << 20;

pub struct RunCfg {
    pub seed: u64,
    pub tier: u8,
    pub threads: usize,
    pub cases: u64,
    /// Where each thread notes the case it is about to run.
    pub slots: Option<std::fs::File>,
    /// Where a failure goes before it is made small, lest that ends badly.
    pub first: Option<std::path::PathBuf>,
    /// When to stop generating cases, however many there were.
    pub until: Option<Instant>,
    pub regress: Vec<String>,
}

pub fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    mix(mix(str_hash(id) ^ mix(seed)).wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95)))
}

/// The marker of a slot while its thread is not running a case.
pub const IDLE: u64 = u64::MAX;
/// Slots from this on number the fixed and regression cases.
pub const FIXED_BASE: u64 = 1 << 62;

pub fn run<P: Prop>(cfg: &RunCfg) -> (Stats, Option<Failure>) {
    let stop = AtomicBool::new(false);
    let first_fail = AtomicU64::new(u64::MAX);
    let failures: Mutex<BTreeMap<u64, (String, Vec<u64>, String)>> = Mutex::new(BTreeMap::new());
    let total = Mutex::new(Stats::default());

    // Regression inputs, then the enumerated part.
    let mut extra: Vec<(P::Case, bool)> = Vec::new();
    for r in &cfg.regress {
        match serde_json::from_str::<P::Case>(r) {
            Ok(c) => extra.push((c, true)),
            Err(e) => panic!("bad regression case for {}: {}", P::ID, e),
        }
    }
    extra.extend(P::fixed().into_iter().map(|c| (c, false)));
    let extra = &extra;

    let slot = |t: usize, v: u64| {
        if let Some(ref f) = cfg.slots {
            use std::os::unix::fs::FileExt;
            let tid = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&v.to_le_bytes());
            b[8..].copy_from_slice(&tid.to_le_bytes());
            let _ = f.write_at(&b, t as u64 * 16);
        }
    };
    let slot = &slot;

    std::thread::scope(|sc| {
        for t in 0..cfg.threads {
            let (stop, first_fail, failures, total) = (&stop, &first_fail, &failures, &total);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let mut i = t;
                    while i < extra.len() {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        slot(t, FIXED_BASE + i as u64);
                        let began = Instant::now();
                        let (v, cx) = run_check::<P>(&extra[i].0);
                        st.took(began, FIXED_BASE + i as u64);
                        st.record::<P>(&extra[i].0, &cx, 1);
                        if extra[i].1 {
                            st.regress += 1;
                        } else {
                            st.fixed += 1;
                        }
                        if let Err(m) = v {
                            stop.store(true, Ordering::Relaxed);
                            first_fail.store(0, Ordering::Relaxed);
                            let json = serde_json::to_string(&extra[i].0).unwrap();
                            failures.lock().unwrap().insert(i as u64, (m, Vec::new(), json));
                        }
                        i += cfg.threads;
                    }
                    let mut i = t as u64;
                    while i < cfg.cases {
                        if i / cfg.threads as u64 % 64 == 0 && cfg.until.map_or(false, |u| Instant::now() > u) {
                            break;
                        }
                        if stop.load(Ordering::Relaxed) && i > first_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        slot(t, i);
                        let began = Instant::now();
                        let mut s = Source::random(case_seed(P::ID, cfg.seed, i), cfg.tier);
                        let case = P::gen(&mut s);
                        let (v, cx) = run_check::<P>(&case);
                        st.took(began, i);
                        st.record::<P>(&case, &cx, i);
                        if let Err(m) = v {
                            // Cases with lower numbers still run, so that the
                            // reported one does not depend on thread timing.
                            stop.store(true, Ordering::Relaxed);
                            first_fail.fetch_min(i, Ordering::Relaxed);
                            failures.lock().unwrap().insert(
                                (1 << 40) + i,
                                (m, s.log, String::new()),
                            );
                        }
                        i += cfg.threads as u64;
                    }
                    slot(t, IDLE);
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });

    let fail = failures.into_inner().unwrap().into_iter().next().map(|(_, f)| f);
    let fail = fail.map(|(message, choices, json)| {
        if choices.is_empty() {
            return Failure { message, case_json: json, choices };
        }
        if let Some(ref path) = cfg.first {
            let mut s = Source::replay(choices.clone(), cfg.tier);
            let case = serde_json::to_value(P::gen(&mut s)).unwrap();
            let v = serde_json::json!({ "message": message, "case": case });
            let _ = std::fs::write(path, v.to_string());
        }
        let deadline = Instant::now() + Duration::from_secs(30);
        let shrunk = shrink(choices, 20_000, deadline, |cand| {
            let mut s = Source::replay(cand.to_vec(), cfg.tier);
            let case = P::gen(&mut s);
            match run_check::<P>(&case) {
                (Err(_), _) => Some(s.log),
                _ => None,
            }
        });
        let mut s = Source::replay(shrunk.clone(), cfg.tier);
        let case = P::gen(&mut s);
        let message = match run_check::<P>(&case).0 {
            Err(m) => m,
            Ok(()) => message,
        };
        Failure { message, case_json: serde_json::to_string(&case).unwrap(), choices: shrunk }
    });
    (total.into_inner().unwrap(), fail)
}
