//! The simulator core: one seed (or one recorded tape) decides everything.
//!
//! * `choose(n)` is the only source of nondeterminism. Drawn from a PRNG when
//!   recording, from the tape when replaying (a tape that has run out yields 0).
//! * `cb(kind)` is called by every piece of caller-supplied code; the fault
//!   plan may crash (panic) the k-th such call.
//! * `sched` runs real OS threads one at a time, in an order decided by `choose`.
//! * `heap` is the simulated allocator.

pub mod heap;
pub mod runner;
pub mod sched;
pub mod vast;
pub use vast::{tame, tame_empty, vast_run};

use std::any::Any;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
#[cfg(not(miri))]
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable short key; minimisation keeps it constant.
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
struct Ctx {
    rng: [u64; 4],
    /// Choices to use before (or instead of) the PRNG.
    fixed: Vec<u64>,
    replaying: bool,
    tape: Vec<u64>,
    tape_out: Option<std::fs::File>,
    hash: u64,
    state_hash: u64,
    violation: Option<Violation>,
    log: Option<Vec<String>>,
    /// Counters of this run.
    stats: BTreeMap<&'static str, u64>,
    steps: u64,
    // fault plan
    cb_on: bool,
    cb_count: u64,
    cb_fault_at: u64,
    cb_fired: Option<&'static str>,
}

#[cfg(not(miri))]
static CTX: Mutex<Option<Ctx>> = Mutex::new(None);

/// Under Miri every statement counts and simulations are single-threaded.
#[cfg(miri)]
struct Ctxs(std::cell::UnsafeCell<Option<Ctx>>);
#[cfg(miri)]
unsafe impl Sync for Ctxs {}
#[cfg(miri)]
static CTX: Ctxs = Ctxs(std::cell::UnsafeCell::new(None));
#[cfg(miri)]
fn lock() -> &'static mut Option<Ctx> {
    unsafe { &mut *CTX.0.get() }
}
#[cfg(miri)]
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    f(lock().as_mut().unwrap())
}

#[cfg(not(miri))]
fn lock() -> MutexGuard<'static, Option<Ctx>> {
    match CTX.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

#[cfg(not(miri))]
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _pause = heap::Pause::new();
    let mut g = lock();
    f(g.get_or_insert_with(Ctx::default))
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    mix64(*x)
}

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    mix64(a ^ mix64(b.wrapping_add(0x1234_5678_9ABC_DEF1)))
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix64(h)
}

impl Ctx {
    fn seed(&mut self, seed: u64) {
        let mut s = seed;
        for r in &mut self.rng {
            *r = splitmix(&mut s);
        }
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.rng;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
}

/// Where the choices of a run come from.
#[derive(Clone)]
pub enum Source {
    /// PRNG seed, with a prefix of forced choices.
    Seed(u64, Vec<u64>),
    Tape(Vec<u64>),
}

pub struct Report {
    pub tape: Vec<u64>,
    pub hash: u64,
    pub state_hash: u64,
    pub violation: Option<Violation>,
    pub stats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub steps: u64,
    /// The scenario itself panicked: an error of the harness.
    pub harness_panic: Option<String>,
}

/// Payload of a panic injected by the fault plan.
pub struct Injected(pub &'static str);
/// Payload used to unwind out of a run that is over (deadlock, violation).
pub struct SimAbort;
/// Payload used by scripted caller code that cancels the call it is in.
pub struct Cancel;

const MAX_TAPE: usize = 400_000;

/// Runs one simulated execution.
pub fn run(source: Source, log: bool, tape_out: Option<std::fs::File>, f: impl FnOnce()) -> Report {
    {
        let mut c = Ctx { log: log.then(Vec::new), tape_out, ..Ctx::default() };
        match source {
            Source::Seed(s, fixed) => {
                c.seed(s);
                c.fixed = fixed;
            }
            Source::Tape(t) => {
                c.fixed = t;
                c.replaying = true;
            }
        }
        *lock() = Some(c);
    }
    heap::begin_run();
    let r = catch_unwind(AssertUnwindSafe(f));
    heap::end_run();
    if let Some(what) = heap::corruption() {
        violate("heap-corruption", &what);
    }
    let c = lock().take().unwrap();
    let harness_panic = match r {
        Ok(()) => None,
        Err(p) if p.is::<SimAbort>() => None,
        Err(p) => Some(payload_str(&*p)),
    };
    Report {
        tape: c.tape,
        hash: c.hash,
        state_hash: c.state_hash,
        violation: c.violation,
        stats: c.stats,
        log: c.log.unwrap_or_default(),
        steps: c.steps,
        harness_panic,
    }
}

pub fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(i) = p.downcast_ref::<Injected>() {
        format!("injected panic in {}", i.0)
    } else if p.is::<Cancel>() {
        "scripted cancel".into()
    } else if p.is::<SimAbort>() {
        "simulation abort".into()
    } else if p.is::<heap::Refused>() {
        "allocation refused".into()
    } else {
        "panic with an unknown payload".into()
    }
}

/// A choice in `0..n`; 0 is by convention the simplest alternative.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|c| {
        let pos = c.tape.len();
        if pos >= MAX_TAPE {
            return 0;
        }
        let v = if cfg!(miri) && !c.replaying && c.fixed.is_empty() {
            // a cheaper generator
            let x = c.rng[0] | 1;
            let x = x ^ (x << 13);
            let x = x ^ (x >> 7);
            let x = x ^ (x << 17);
            c.rng[0] = x;
            (x >> 11) % n as u64
        } else if c.replaying {
            c.fixed.get(pos).map_or(0, |v| v % n as u64)
        } else {
            let drawn = ((c.next() as u128 * n as u128) >> 64) as u64;
            match c.fixed.get(pos) {
                Some(v) => v % n as u64,
                None => drawn,
            }
        };
        c.tape.push(v);
        if let Some(out) = &mut c.tape_out {
            let _ = out.write_all(format!("{v}\n").as_bytes());
        }
        v as usize
    })
}

/// A choice in `lo..=hi`, `lo` simplest.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}

/// True with probability `num/den`; false is simplest.
pub fn chance(num: usize, den: usize) -> bool {
    choose(den) >= den - num
}

/// Picks by weight; entry 0 simplest.
pub fn weighted(ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut x = choose(total as usize) as u32;
    for (i, w) in ws.iter().enumerate() {
        if x < *w {
            return i;
        }
        x -= w;
    }
    0
}

pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len())]
}

/// Records an event into the trace hash.
pub fn event(kind: &'static str, a: u64, b: u64) {
    with(|c| {
        c.steps += 1;
        if cfg!(miri) {
            c.hash = (c.hash ^ a ^ (b << 20) ^ ((kind.len() as u64) << 40)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
            return;
        }
        c.hash = mix(c.hash, mix(hash_str(kind), mix(a, b)));
    })
}

/// Folds a state into the distinct-state measure of the run.
pub fn state(h: u64) {
    with(|c| c.state_hash = mix(c.state_hash, h));
}

pub fn logging() -> bool {
    with(|c| c.log.is_some())
}

/// Adds a line to the human-readable trace (no effect on the run).
pub fn note(f: impl FnOnce() -> String) {
    let _pause = heap::Pause::new();
    if logging() {
        let s = f();
        with(|c| {
            if let Some(l) = &mut c.log {
                if l.len() < 4000 {
                    l.push(s)
                }
            }
        });
    }
}

pub fn count(key: &'static str, n: u64) {
    with(|c| *c.stats.entry(key).or_insert(0) += n);
}

pub fn stat(key: &'static str) -> u64 {
    with(|c| c.stats.get(key).copied().unwrap_or(0))
}

/// Reports a violation; the first one of a run wins.
pub fn violate(class: &str, msg: &str) {
    let _pause = heap::Pause::new();
    note(|| format!("VIOLATION {class}: {msg}"));
    with(|c| {
        if c.violation.is_none() {
            c.violation = Some(Violation { class: class.into(), msg: msg.into() });
        }
    });
}

pub fn violated() -> bool {
    with(|c| c.violation.is_some())
}

/// Ends the run now if it is already known to violate.
pub fn stop_if_violated() {
    if violated() && !std::thread::panicking() {
        std::panic::panic_any(SimAbort);
    }
}

/// `violate` unless `ok`.
pub fn ensure(ok: bool, class: &str, msg: impl FnOnce() -> String) -> bool {
    if !ok {
        let _pause = heap::Pause::new();
        violate(class, &msg());
    }
    ok
}

// ---------------------------------------------------------------- faults

/// Starts counting callbacks; the `fault_at`-th (1-based, 0 = none) crashes.
pub fn cb_begin(fault_at: u64) {
    with(|c| {
        c.cb_on = true;
        c.cb_count = 0;
        c.cb_fault_at = fault_at;
        c.cb_fired = None;
    });
}

/// Stops counting; returns (callbacks seen, kind of the one that crashed).
pub fn cb_end() -> (u64, Option<&'static str>) {
    with(|c| {
        c.cb_on = false;
        (c.cb_count, c.cb_fired)
    })
}

/// Suspends callback counting while harness code runs inside the window.
pub fn cb_pause<R>(f: impl FnOnce() -> R) -> R {
    let old = with(|c| std::mem::replace(&mut c.cb_on, false));
    let r = f();
    with(|c| c.cb_on = old);
    r
}

/// Every piece of caller-supplied code calls this first.
pub fn cb(kind: &'static str) {
    let fire = with(|c| {
        if !c.cb_on {
            return false;
        }
        c.cb_count += 1;
        if c.cb_count == c.cb_fault_at && c.cb_fired.is_none() && !std::thread::panicking() {
            c.cb_fired = Some(kind);
            *c.stats.entry("faults_fired").or_insert(0) += 1;
            true
        } else {
            false
        }
    });
    if fire {
        note(|| format!("  FAULT: {kind} panics"));
        count(kind, 1);
        std::panic::panic_any(Injected(kind));
    }
}

/// Catches an unwind; re-raises `SimAbort`.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) if p.is::<SimAbort>() => std::panic::resume_unwind(p),
        Err(p) => Err(p),
    }
}
