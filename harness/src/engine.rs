//! Choice-sequence property engine: generation, coverage-guided mutation, shrinking, replay.
//!
//! A generated case is a pure function of a sequence of `u64` choices. Random generation records
//! the choices it makes, shrinking edits the sequence, and a replay file stores it.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32) ^ 0xA5A5_1234_5678_9ABC);
    r.next() ^ Rng::new(b).next().rotate_left(17)
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// Hard bound on the number of choices of one case; after it all choices are 0 (the simplest).
const MAX_CHOICES: usize = 60_000;

pub struct Src {
    forced: Vec<u64>,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    /// Choices are also written here as they are made, for cases that kill the process.
    pub trace: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { forced: Vec::new(), rng: Some(Rng::new(seed)), rec: Vec::new(), trace: None }
    }
    pub fn forced(forced: Vec<u64>, seed: Option<u64>) -> Src {
        Src { forced, rng: seed.map(Rng::new), rec: Vec::new(), trace: None }
    }
    /// A choice in `0..n`. Smaller is simpler.
    pub fn draw(&mut self, n: u64) -> u64 {
        let pos = self.rec.len();
        let v = if n <= 1 || pos >= MAX_CHOICES {
            0
        } else if pos < self.forced.len() {
            self.forced[pos] % n
        } else if let Some(ref mut r) = self.rng {
            r.below(n)
        } else {
            0
        };
        self.rec.push(v);
        if let Some(ref mut f) = self.trace {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        v
    }
    pub fn next_mask(&mut self) -> u64 {
        self.draw(1 << 60)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    /// True with probability `num/den`; the simplest outcome is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.idx(items.len());
        &items[i]
    }
    /// Index by weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// Like `count`, but now and then up to `long`.
    pub fn count_long(&mut self, avg: u64, max: usize, long: usize) -> usize {
        if self.chance(1, 40) {
            self.idx(long + 1)
        } else {
            self.count(avg, max)
        }
    }
    /// Number of items for a list: geometric-like up to `max`.
    pub fn count(&mut self, avg: u64, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(avg, avg + 1) {
            n += 1;
        }
        n
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Narrow signature, used to match known findings and to keep shrinking on one failure.
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)+) => {
        if !$cond {
            return Err($crate::engine::Fail { sig: $sig.to_string(), msg: format!($($arg)+) });
        }
    };
}

/// Per-case report of what the case was.
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub input: String,
    pub fp: Option<u64>,
    pub known: Vec<String>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nontrivial: false, labels: Vec::new(), input: String::new(), fp: None, known: Vec::new() }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Describes the case: shown in samples and failures, and used as the identity of the case.
    pub fn set_input(&mut self, s: &str) {
        self.fp = Some(hash_bytes(s.as_bytes()));
        self.input = s.to_string();
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC_INFO: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC_INFO.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs a closure and turns a panic into an error text.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_INFO.with(|p| p.borrow().clone()))
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> R {
    match no_panic(|| f(src, ctx)) {
        Ok(r) => r,
        Err(msg) => Err(Fail { sig: "panic".to_string(), msg: format!("panic: {}", msg) }),
    }
}

/// Shrinks a failing choice sequence: `test` returns the recorded choices when it still fails.
pub fn shrink(start: Vec<u64>, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>, mut budget: usize) -> Vec<u64> {
    let mut best = start;
    fn strip(mut v: Vec<u64>) -> Vec<u64> {
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    best = strip(best);
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = 64;
        while size >= 1 {
            let mut i = best.len();
            while i >= 1 && budget > 0 {
                let lo = i.saturating_sub(size);
                if lo < best.len() {
                    let mut c = best.clone();
                    let hi = i.min(c.len());
                    c.drain(lo..hi);
                    budget -= 1;
                    if let Some(r) = test(&c) {
                        let r = strip(r);
                        let c = strip(c);
                        let cand = if better(&r, &c) { r } else { c };
                        if better(&cand, &best) {
                            best = cand;
                        }
                    }
                }
                i = lo.min(best.len());
                if lo == 0 {
                    break;
                }
            }
            size /= 2;
        }
        // Zero and lower values.
        let mut i = 0;
        while i < best.len() && budget > 0 {
            if best[i] != 0 {
                let orig = best[i];
                let mut tried = vec![0, 1, orig / 2, orig - 1];
                tried.dedup();
                for v in tried {
                    if v >= orig || budget == 0 || i >= best.len() {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = v;
                    budget -= 1;
                    if test(&c).is_some() {
                        let c = strip(c);
                        if better(&c, &best) {
                            best = c;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            return best;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Coverage feedback (LLVM inline 8-bit counters).

static mut REGIONS: [(usize, usize); 4096] = [(0, 0); 4096];
static mut NREGIONS: usize = 0;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    unsafe {
        let n = NREGIONS;
        if (start as usize) < (stop as usize) && n < 4096 {
            for i in 0..n {
                if REGIONS[i].0 == start as usize {
                    return;
                }
            }
            REGIONS[n] = (start as usize, stop as usize);
            NREGIONS = n + 1;
        }
    }
}

pub struct Coverage {
    seen: Vec<u8>,
    pub edges: usize,
}

impl Coverage {
    pub fn new() -> Coverage {
        let mut total = 0;
        unsafe {
            for i in 0..NREGIONS {
                total += REGIONS[i].1 - REGIONS[i].0;
            }
        }
        Coverage { seen: vec![0; total], edges: 0 }
    }
    pub fn available(&self) -> bool {
        !self.seen.is_empty()
    }
    pub fn reset(&self) {
        unsafe {
            for i in 0..NREGIONS {
                let (a, b) = REGIONS[i];
                std::ptr::write_bytes(a as *mut u8, 0, b - a);
            }
        }
    }
    /// Merges the counters of the last case; true if it reached something new.
    pub fn merge(&mut self) -> bool {
        let mut new = false;
        let mut base = 0;
        unsafe {
            for i in 0..NREGIONS {
                let (a, b) = REGIONS[i];
                let mem = std::slice::from_raw_parts(a as *const u8, b - a);
                let (pre, mid, post) = mem.align_to::<u64>();
                let mut off = base;
                let mut one = |off: usize, c: u8, seen: &mut Vec<u8>, edges: &mut usize| {
                    let bucket = match c {
                        0 => 0u8,
                        1 => 1,
                        2 => 2,
                        3..=4 => 4,
                        5..=8 => 8,
                        9..=16 => 16,
                        17..=64 => 32,
                        _ => 64,
                    };
                    if seen[off] & bucket != bucket {
                        if seen[off] == 0 {
                            *edges += 1;
                        }
                        seen[off] |= bucket;
                        new = true;
                    }
                };
                for c in pre {
                    if *c != 0 {
                        one(off, *c, &mut self.seen, &mut self.edges);
                    }
                    off += 1;
                }
                for w in mid {
                    if *w != 0 {
                        for (k, c) in w.to_ne_bytes().iter().enumerate() {
                            if *c != 0 {
                                one(off + k, *c, &mut self.seen, &mut self.edges);
                            }
                        }
                    }
                    off += 8;
                }
                for c in post {
                    if *c != 0 {
                        one(off, *c, &mut self.seen, &mut self.edges);
                    }
                    off += 1;
                }
                base += b - a;
            }
        }
        new
    }
}

/// Mutates a choice sequence.
pub fn mutate(rng: &mut Rng, parent: &[u64], other: &[u64]) -> Vec<u64> {
    let mut v = parent.to_vec();
    let rounds = 1 + rng.below(4);
    for _ in 0..rounds {
        if v.is_empty() {
            v.push(rng.below(64));
            continue;
        }
        let n = v.len() as u64;
        match rng.below(8) {
            0 | 1 => {
                let i = rng.below(n) as usize;
                v[i] = rng.below(256);
            }
            2 => {
                let i = rng.below(n) as usize;
                v[i] = rng.next() >> rng.below(64);
            }
            3 => {
                let i = rng.below(n) as usize;
                v[i] = if rng.below(2) == 0 { v[i].wrapping_add(1) } else { v[i].saturating_sub(1) };
            }
            4 => {
                let i = rng.below(n) as usize;
                let len = 1 + rng.below(16.min(n - i as u64)) as usize;
                let e = (i + len).min(v.len());
                v.drain(i..e);
            }
            5 => {
                let i = rng.below(n) as usize;
                let len = 1 + rng.below(24.min(n - i as u64)) as usize;
                let e = (i + len).min(v.len());
                let part: Vec<u64> = v[i..e].to_vec();
                let at = rng.below(n + 1) as usize;
                v.splice(at..at, part);
            }
            6 => {
                if !other.is_empty() {
                    let i = rng.below(other.len() as u64) as usize;
                    let len = 1 + rng.below((other.len() - i) as u64) as usize;
                    let at = rng.below(n + 1) as usize;
                    let end = if rng.below(2) == 0 { at } else { (at + len).min(v.len()) };
                    v.splice(at..end, other[i..(i + len).min(other.len())].iter().cloned());
                }
            }
            _ => {
                // Keep a prefix, the rest is generated anew.
                let i = rng.below(n) as usize;
                v.truncate(i);
            }
        }
        if v.len() > 4000 {
            v.truncate(4000);
        }
    }
    v
}
