//! A simulated `rayon-core`: the API the real `rayon` crate builds on, with
//! the thread pool replaced by workers that the simulation schedules.
//!
//! Four modes, chosen per run with [`sim::configure`]:
//!
//! * `Off`: sequential execution, nothing migrates.
//! * `Inline`: one thread; for every `join` the tape decides whether the
//!   second half was stolen, and whether the thief finished before, or started
//!   after, the first half.
//! * `Pool`: real OS threads under the baton scheduler (`simrt::sched`), each
//!   with a deque; popping, stealing and pre-emption are decided by the tape.
//! * `Forked`: every second half and every spawned job gets a thread of its
//!   own while there is room. Meant for Miri, whose seeded scheduler then
//!   decides, instead of the tape.

use simrt::sched::{block_until, tid, yield_point};
use simrt::{choose, count, event};
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::AcqRel, Ordering::Acquire, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::Arc;

// ------------------------------------------------------------- the simulation

pub mod sim {
    use super::*;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Mode {
        Off,
        Inline,
        Pool,
        Forked,
    }

    pub(crate) static MODE: AtomicUsize = AtomicUsize::new(0);
    pub(crate) static THREADS: AtomicUsize = AtomicUsize::new(4);
    /// Joins since the last `configure`. Every steal makes rayon split further;
    /// over astronomically long ranges the splitting has to end.
    pub(crate) static JOINS: AtomicUsize = AtomicUsize::new(0);
    pub(crate) const JOINS_MAX: usize = 3000;
    pub(crate) static STOP: AtomicBool = AtomicBool::new(false);

    pub(crate) fn mode() -> Mode {
        match MODE.load(SeqCst) {
            1 => Mode::Inline,
            2 => Mode::Pool,
            3 => Mode::Forked,
            _ => Mode::Off,
        }
    }

    pub(crate) struct State {
        pub injector: VecDeque<JobRef>,
        pub deques: Vec<VecDeque<JobRef>>,
    }
    pub(crate) static STATE: Mutex<State> =
        Mutex::new(State { injector: VecDeque::new(), deques: Vec::new() });

    pub(crate) fn state() -> std::sync::MutexGuard<'static, State> {
        match STATE.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }

    pub(crate) fn any_job() -> bool {
        let s = state();
        !s.injector.is_empty() || s.deques.iter().any(|d| !d.is_empty())
    }

    /// Sets the mode and the pool size for what follows.
    pub fn configure(mode: Mode, threads: usize) {
        THREADS.store(threads.max(1), SeqCst);
        JOINS.store(0, SeqCst);
        MODE.store(
            match mode {
                Mode::Off => 0,
                Mode::Inline => 1,
                Mode::Pool => 2,
                Mode::Forked => 3,
            },
            SeqCst,
        );
    }

    /// Runs `client` on a simulated thread of its own next to a simulated pool
    /// of `threads` workers.
    pub fn with_pool(threads: usize, client: impl FnOnce() + Send) {
        configure(Mode::Pool, threads);
        STOP.store(false, SeqCst);
        {
            let mut s = state();
            s.injector.clear();
            s.deques = (0..threads).map(|_| VecDeque::new()).collect();
        }
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![Box::new(move || {
            struct Stop;
            impl Drop for Stop {
                fn drop(&mut self) {
                    STOP.store(true, SeqCst);
                }
            }
            let _stop = Stop;
            client()
        })];
        for w in 0..threads {
            bodies.push(Box::new(move || worker(w)));
        }
        let r = catch_unwind(AssertUnwindSafe(|| simrt::sched::run_threads(bodies)));
        configure(Mode::Off, threads);
        if let Err(p) = r {
            resume_unwind(p);
        }
    }

    fn worker(w: usize) {
        WORKER.with(|c| c.set(Some(w)));
        loop {
            block_until(|| STOP.load(SeqCst) || any_job());
            match find_work(w, false) {
                Some((job, _)) => unsafe { job.execute() },
                None => {
                    if STOP.load(SeqCst) {
                        return;
                    }
                }
            }
        }
    }
}

use sim::Mode;

thread_local! {
    static WORKER: Cell<Option<usize>> = const { Cell::new(None) };
}

#[derive(Clone, Copy)]
pub(crate) struct JobRef {
    data: usize,
    exec: unsafe fn(usize),
}
unsafe impl Send for JobRef {}

impl JobRef {
    unsafe fn execute(self) {
        unsafe { (self.exec)(self.data) }
    }
}

/// Looks for a job for worker `w`: own deque (most recent first), then the
/// other deques (oldest first, victim chosen) and the injector.
fn find_work(w: usize, own: bool) -> Option<(JobRef, bool)> {
    let mut s = sim::state();
    if own || !s.deques[w].is_empty() {
        if let Some(j) = s.deques[w].pop_back() {
            return Some((j, false));
        }
    }
    let victims: Vec<usize> =
        (0..s.deques.len()).filter(|v| *v != w && !s.deques[*v].is_empty()).collect();
    let k = victims.len() + usize::from(!s.injector.is_empty());
    if k == 0 {
        return None;
    }
    drop(s);
    let c = choose(k);
    s = sim::state();
    if c < victims.len() {
        count("rayon_steals", 1);
        event("steal", w as u64, victims[c] as u64);
        let j = s.deques[victims[c]].pop_front()?;
        Some((j, true))
    } else {
        event("inject", w as u64, 0);
        let j = s.injector.pop_front()?;
        Some((j, true))
    }
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<Option<Result<R, Box<dyn Any + Send>>>>,
    done: Arc<AtomicBool>,
}

impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F) -> Self {
        StackJob {
            f: UnsafeCell::new(Some(f)),
            r: UnsafeCell::new(None),
            done: Arc::new(AtomicBool::new(false)),
        }
    }
    fn as_ref(&self) -> JobRef {
        unsafe fn exec<F: FnOnce(bool) -> R, R>(data: usize) {
            unsafe {
                let job = data as *const StackJob<F, R>;
                let done = (*job).done.clone();
                let f = (*(*job).f.get()).take().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| f(true)));
                *(*job).r.get() = Some(r);
                done.store(true, SeqCst);
            }
            yield_point();
        }
        JobRef { data: self as *const Self as usize, exec: exec::<F, R> }
    }
    fn run_inline(&self, migrated: bool) -> R {
        let f = unsafe { (*self.f.get()).take().unwrap() };
        f(migrated)
    }
    fn into_result(self) -> Result<R, Box<dyn Any + Send>> {
        self.r.into_inner().unwrap()
    }
}

/// Runs `op` on a worker of the simulated pool and waits for it.
fn in_worker<R: Send>(op: impl FnOnce(bool) -> R + Send) -> R {
    let job = StackJob::new(move |_| op(true));
    sim::state().injector.push_back(job.as_ref());
    let done = job.done.clone();
    block_until(move || done.load(SeqCst));
    while !job.done.load(SeqCst) {
        // only after an aborted simulation
        resume_unwind(Box::new(simrt::SimAbort));
    }
    match job.into_result() {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

fn pool_join<A, B, RA: Send, RB: Send>(a: A, b: B, w: usize, injected: bool) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
{
    let job_b = StackJob::new(move |migrated| b(FnContext::new(migrated)));
    let ref_b = job_b.as_ref();
    sim::state().deques[w].push_back(ref_b);
    count("rayon_joins", 1);
    yield_point();
    let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
    yield_point();
    let mut inline = None;
    while !job_b.done.load(SeqCst) {
        let own = sim::state().deques[w].pop_back();
        match own {
            Some(j) if j.data == ref_b.data => {
                if ra.is_err() {
                    // nobody may touch this frame after it is gone
                    unsafe { j.execute() };
                } else {
                    inline = Some(job_b.run_inline(injected));
                }
                break;
            }
            Some(j) => unsafe { j.execute() },
            None => {
                let done = job_b.done.clone();
                block_until(move || done.load(SeqCst) || sim::any_job());
                if job_b.done.load(SeqCst) {
                    break;
                }
                if let Some((j, _)) = find_work(w, true) {
                    unsafe { j.execute() }
                }
            }
        }
    }
    let ra = match ra {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    };
    let rb = match inline {
        Some(r) => r,
        None => match job_b.into_result() {
            Ok(r) => r,
            Err(p) => resume_unwind(p),
        },
    };
    (ra, rb)
}

fn inline_join<A, B, RA, RB>(a: A, b: B, injected: bool) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA,
    B: FnOnce(FnContext) -> RB,
{
    count("rayon_joins", 1);
    let late = sim::JOINS.fetch_add(1, SeqCst) >= sim::JOINS_MAX;
    let how = if late { 0 } else { choose(4) };
    event("join", how as u64, 0);
    match how {
        // popped back by the same worker
        0 | 1 => {
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
            match ra {
                Ok(ra) => (ra, b(FnContext::new(injected))),
                Err(p) => {
                    let _ = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(!late))));
                    resume_unwind(p)
                }
            }
        }
        // stolen, and finished before the first half
        2 => {
            count("rayon_steals", 1);
            let w = choose(sim::THREADS.load(SeqCst));
            let rb = as_worker(w, || catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true)))));
            let ra = a(FnContext::new(injected));
            match rb {
                Ok(rb) => (ra, rb),
                Err(p) => resume_unwind(p),
            }
        }
        // stolen, but started after the first half
        _ => {
            count("rayon_steals", 1);
            let w = choose(sim::THREADS.load(SeqCst));
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
            let rb = as_worker(w, || catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true)))));
            match (ra, rb) {
                (Ok(ra), Ok(rb)) => (ra, rb),
                (Err(p), _) | (_, Err(p)) => resume_unwind(p),
            }
        }
    }
}

fn as_worker<R>(w: usize, f: impl FnOnce() -> R) -> R {
    let old = WORKER.with(|c| c.replace(Some(w)));
    let r = f();
    WORKER.with(|c| c.set(old));
    r
}

// --------------------------------------------------------- a thread per half

/// Worker numbers in use. Giving one back happens before it is taken again, as
/// it does when one thread carries the number all the time; nothing else is
/// ordered by it.
static BUSY: [AtomicBool; 64] = [const { AtomicBool::new(false) }; 64];

struct Number(usize);
impl Number {
    fn take() -> Option<Number> {
        let n = sim::THREADS.load(Relaxed).min(64);
        (0..n).find(|i| BUSY[*i].compare_exchange(false, true, Acquire, Relaxed).is_ok()).map(Number)
    }
}
impl Drop for Number {
    fn drop(&mut self) {
        BUSY[self.0].store(false, std::sync::atomic::Ordering::Release);
    }
}

fn forked_join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let mine = if WORKER.with(|c| c.get()).is_none() { Number::take() } else { None };
    let injected = mine.is_some();
    let me = WORKER.with(|c| c.get()).or(mine.as_ref().map(|n| n.0));
    let go = move || {
        let Some(other) = Number::take() else {
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
            return match ra {
                Ok(ra) => (ra, b(FnContext::new(injected))),
                Err(p) => {
                    let _ = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(injected))));
                    resume_unwind(p)
                }
            };
        };
        let (ra, rb) = std::thread::scope(|s| {
            let b = s.spawn(move || {
                let number = other;
                as_worker(number.0, || b(FnContext::new(true)))
            });
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
            (ra, b.join())
        });
        match (ra, rb) {
            (Ok(ra), Ok(rb)) => (ra, rb),
            (Err(p), _) | (_, Err(p)) => resume_unwind(p),
        }
    };
    match me {
        Some(w) => as_worker(w, go),
        None => go(),
    }
}

// ------------------------------------------------------------- scoped jobs

/// The jobs of a scope: how many are unfinished, the first panic, the jobs put
/// off (`Inline`) and the threads started (`Forked`).
#[derive(Default)]
struct Jobs {
    pending: Arc<AtomicUsize>,
    panic: Arc<Mutex<Option<Box<dyn Any + Send>>>>,
    later: Mutex<Vec<Job>>,
    threads: Mutex<Vec<std::thread::JoinHandle<()>>>,
}
type Job = Box<dyn FnOnce() + Send + 'static>;

fn quiet<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

impl Jobs {
    /// `f` must stay valid until `wait` returns.
    unsafe fn add<'a>(&self, f: impl FnOnce() + Send + 'a) {
        let (pending, panic) = (self.pending.clone(), self.panic.clone());
        let job: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
            if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
                quiet(&panic).get_or_insert(p);
            }
            pending.fetch_sub(1, AcqRel);
        });
        let job: Job = unsafe { std::mem::transmute(job) };
        self.pending.fetch_add(1, Relaxed);
        match sim::mode() {
            Mode::Off => job(),
            Mode::Inline => {
                count("rayon_spawns", 1);
                if choose(2) == 0 { job() } else { quiet(&self.later).push(job) }
            }
            Mode::Pool => {
                count("rayon_spawns", 1);
                unsafe fn exec(data: usize) {
                    let job: Box<Job> = unsafe { Box::from_raw(data as *mut Job) };
                    job();
                    yield_point();
                }
                let job = JobRef { data: Box::into_raw(Box::new(job)) as usize, exec };
                match WORKER.with(|c| c.get()) {
                    Some(w) => sim::state().deques[w].push_back(job),
                    None => sim::state().injector.push_back(job),
                }
                yield_point();
            }
            Mode::Forked => match Number::take() {
                None => job(),
                Some(number) => {
                    let t = std::thread::spawn(move || {
                        let number = number;
                        as_worker(number.0, job)
                    });
                    quiet(&self.threads).push(t);
                }
            },
        }
    }

    /// Until all jobs are done.
    fn wait(&self) {
        match sim::mode() {
            Mode::Off => {}
            Mode::Inline => loop {
                let mut later = quiet(&self.later);
                if later.is_empty() {
                    break;
                }
                let i = choose(later.len());
                event("scope-job", i as u64, 0);
                let job = later.swap_remove(i);
                drop(later);
                job();
            },
            Mode::Pool => {
                while self.pending.load(Acquire) > 0 {
                    let p = self.pending.clone();
                    match WORKER.with(|c| c.get()) {
                        None => {
                            block_until(move || p.load(SeqCst) == 0);
                        }
                        Some(w) => {
                            let own = sim::state().deques[w].pop_back();
                            match own {
                                Some(j) => unsafe { j.execute() },
                                None => {
                                    block_until(move || p.load(SeqCst) == 0 || sim::any_job());
                                    if self.pending.load(SeqCst) > 0
                                        && let Some((j, _)) = find_work(w, true)
                                    {
                                        unsafe { j.execute() }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Mode::Forked => loop {
                let Some(t) = quiet(&self.threads).pop() else { break };
                let _ = t.join();
            },
        }
        if let Some(p) = quiet(&self.panic).take() {
            resume_unwind(p);
        }
    }
}

fn in_scope<R>(jobs: &Jobs, op: impl FnOnce() -> R) -> R {
    let r = catch_unwind(AssertUnwindSafe(op));
    if let Err(p) = catch_unwind(AssertUnwindSafe(|| jobs.wait())) {
        if r.is_ok() {
            resume_unwind(p);
        }
    }
    match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

/// Where an operation of the pool runs: on a worker.
fn on_worker<R: Send>(op: impl FnOnce() -> R + Send) -> R {
    if sim::mode() == Mode::Pool && WORKER.with(|c| c.get()).is_none() && tid().is_some() {
        in_worker(move |_| op())
    } else {
        op()
    }
}

// ------------------------------------------------------------------- the API

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    match sim::mode() {
        Mode::Off => {
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
            match ra {
                Ok(ra) => (ra, b(FnContext::new(false))),
                Err(p) => {
                    let _ = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(false))));
                    resume_unwind(p)
                }
            }
        }
        Mode::Inline => {
            let fresh = WORKER.with(|c| c.get()).is_none();
            if fresh {
                let w = choose(sim::THREADS.load(SeqCst));
                let r = as_worker(w, || catch_unwind(AssertUnwindSafe(|| inline_join(a, b, true))));
                match r {
                    Ok(r) => r,
                    Err(p) => resume_unwind(p),
                }
            } else {
                inline_join(a, b, false)
            }
        }
        Mode::Forked => forked_join(a, b),
        Mode::Pool => match WORKER.with(|c| c.get()) {
            Some(w) => pool_join(a, b, w, false),
            None => {
                assert!(tid().is_some(), "rayon used outside the simulation");
                in_worker(move |_| {
                    let w = WORKER.with(|c| c.get()).unwrap();
                    pool_join(a, b, w, true)
                })
            }
        },
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| a(), move |_| b())
}

pub fn current_num_threads() -> usize {
    sim::THREADS.load(SeqCst)
}

pub fn max_num_threads() -> usize {
    1 << 16
}

pub fn current_thread_index() -> Option<usize> {
    WORKER.with(|c| c.get())
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    yield_point();
    current_thread_index().map(|_| Yield::Idle)
}

pub fn yield_local() -> Option<Yield> {
    yield_point();
    current_thread_index().map(|_| Yield::Idle)
}

// Free spawns and broadcasts run their jobs at the point of the call, one legal
// schedule of many; the jobs of a scope are scheduled.

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}

pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}

macro_rules! scope_type {
    ($Scope:ident $spawn:ident $scope:ident $in_place:ident) => {
        pub struct $Scope<'scope> {
            jobs: Jobs,
            #[allow(clippy::type_complexity)]
            _marker: PhantomData<Box<dyn FnOnce(&$Scope<'scope>) + Send + Sync + 'scope>>,
        }

        impl<'scope> $Scope<'scope> {
            pub fn $spawn<B: FnOnce(&$Scope<'scope>) + Send + 'scope>(&self, b: B) {
                let me = self as *const Self as usize;
                // the scope waits for its jobs before it goes away
                unsafe { self.jobs.add(move || b(&*(me as *const Self))) }
            }
            pub fn spawn_broadcast<B>(&self, b: B)
            where
                B: Fn(&$Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                for i in 0..current_num_threads() {
                    b(self, BroadcastContext::new(i))
                }
            }
        }
        impl fmt::Debug for $Scope<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($Scope))
            }
        }

        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R + Send,
            R: Send,
        {
            on_worker(move || $in_place(op))
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R,
        {
            let s = $Scope { jobs: Jobs::default(), _marker: PhantomData };
            in_scope(&s.jobs, || op(&s))
        }
    };
}
scope_type!(Scope spawn scope in_place_scope);
scope_type!(ScopeFifo spawn_fifo scope_fifo in_place_scope_fifo);

#[derive(Debug)]
pub struct BroadcastContext<'a> {
    index: usize,
    _marker: PhantomData<&'a dyn Fn()>,
}
impl BroadcastContext<'_> {
    fn new(index: usize) -> Self {
        BroadcastContext { index, _marker: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads()).map(|i| op(BroadcastContext::new(i))).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the simulated pool cannot be built")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

pub struct DefaultSpawn;

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _marker: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, _marker: PhantomData }
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { _n: self.n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuilder")
    }
}

/// Every pool is the one simulated pool.
#[derive(Debug)]
pub struct ThreadPool {
    _n: usize,
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        on_worker(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
}
