//! The baton scheduler. Simulated threads are real OS threads of which exactly
//! one runs at any time; at every yield point the running thread asks
//! `choose` who goes on. Blocked threads carry a predicate.

use crate::{SimAbort, choose, count, event, violate};
use std::cell::Cell;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

type Pred = Box<dyn Fn() -> bool + Send>;

enum St {
    Ready,
    Blocked(Pred),
    Done,
}

struct Inner {
    st: Vec<St>,
    cur: usize,
    cvs: Vec<Arc<Condvar>>,
    prio: Vec<usize>,
    policy: Policy,
    abort: bool,
    all_done: Arc<Condvar>,
    switches: u64,
    yields: u64,
    first_panic: Option<Box<dyn std::any::Any + Send>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Policy {
    /// Preempt at every yield point with probability 1/den.
    Random(usize),
    /// Always the highest-priority runnable thread; rare priority drops (PCT).
    Prio(usize),
    /// Strict rotation.
    RoundRobin,
}

static SCHED: Mutex<Option<Inner>> = Mutex::new(None);
const MAX_YIELDS: u64 = 60_000;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn lock() -> MutexGuard<'static, Option<Inner>> {
    match SCHED.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

/// Index of the simulated thread that is running, if any.
pub fn tid() -> Option<usize> {
    let t = TID.with(|t| t.get());
    (t != usize::MAX).then_some(t)
}

impl Inner {
    /// Decides who runs next. `None`: nobody can.
    fn decide(&mut self, me: Option<usize>) -> Option<usize> {
        let n = self.st.len();
        let mut runnable: Vec<usize> = vec![];
        for i in 0..n {
            let ok = match &self.st[i] {
                St::Ready => true,
                St::Blocked(p) => p(),
                St::Done => false,
            };
            if ok {
                runnable.push(i);
            }
        }
        if runnable.is_empty() {
            return None;
        }
        self.yields += 1;
        if self.yields > MAX_YIELDS {
            return runnable.iter().copied().find(|r| Some(*r) != me).or(Some(runnable[0]));
        }
        let me_pos = me.and_then(|m| runnable.iter().position(|r| *r == m));
        let next = match self.policy {
            Policy::Random(den) => match me_pos {
                Some(p) => {
                    // 0 = keep running
                    if runnable.len() > 1 && choose(den) == den - 1 {
                        let k = choose(runnable.len() - 1);
                        runnable[(p + 1 + k) % runnable.len()]
                    } else {
                        runnable[p]
                    }
                }
                None => runnable[choose(runnable.len())],
            },
            Policy::Prio(den) => {
                if let Some(m) = me {
                    if runnable.len() > 1 && choose(den) == den - 1 {
                        let low = *self.prio.iter().max().unwrap() + 1;
                        self.prio[m] = low;
                    }
                }
                *runnable.iter().min_by_key(|r| (self.prio[**r], **r)).unwrap()
            }
            Policy::RoundRobin => {
                let from = me.map_or(0, |m| m + 1);
                *runnable.iter().min_by_key(|r| (**r + n - from % n) % n).unwrap()
            }
        };
        if Some(next) != me {
            self.switches += 1;
        }
        event("sw", next as u64, 0);
        Some(next)
    }
}

fn hand_over(me: usize, state: St) {
    let mut g = lock();
    let Some(s) = g.as_mut() else { return };
    if s.abort {
        drop(g);
        if !std::thread::panicking() {
            panic_any(SimAbort);
        }
        return;
    }
    s.st[me] = state;
    match s.decide(Some(me)) {
        Some(next) if next == me => {
            s.st[me] = St::Ready;
            return;
        }
        Some(next) => {
            s.cur = next;
            s.st[next] = St::Ready;
            s.cvs[next].notify_one();
        }
        None => {
            violate("deadlock", "every simulated thread is blocked: an operation never finishes");
            s.abort = true;
            for cv in &s.cvs {
                cv.notify_all();
            }
            drop(g);
            if !std::thread::panicking() {
                panic_any(SimAbort);
            }
            return;
        }
    }
    let cv = s.cvs[me].clone();
    loop {
        let s = g.as_mut().unwrap();
        if s.abort {
            drop(g);
            if !std::thread::panicking() {
                panic_any(SimAbort);
            }
            return;
        }
        if s.cur == me {
            return;
        }
        g = match cv.wait(g) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
}

/// A point at which another simulated thread may be scheduled.
pub fn yield_point() {
    if let Some(me) = tid() {
        hand_over(me, St::Ready);
    }
}

/// Blocks until `pred` holds. Returns immediately outside the simulation.
pub fn block_until(pred: impl Fn() -> bool + Send + 'static) {
    if let Some(me) = tid() {
        hand_over(me, St::Blocked(Box::new(pred)));
    }
}

/// Runs the bodies as simulated threads to completion. A panic of a body is
/// re-raised after all of them are done.
pub fn run_threads<'a>(bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    assert!(tid().is_none(), "nested simulation");
    let n = bodies.len();
    let policy = match choose(4) {
        0 => Policy::Random(4),
        1 => Policy::Random(2),
        2 => Policy::Prio(if choose(2) == 0 { 16 } else { 4 }),
        _ => Policy::RoundRobin,
    };
    let prio = (0..n).map(|_| if matches!(policy, Policy::Prio(_)) { choose(8) } else { 0 }).collect();
    let all_done = Arc::new(Condvar::new());
    *lock() = Some(Inner {
        st: (0..n).map(|_| St::Ready).collect(),
        cur: usize::MAX,
        cvs: (0..n).map(|_| Arc::new(Condvar::new())).collect(),
        prio,
        policy,
        abort: false,
        all_done: all_done.clone(),
        switches: 0,
        yields: 0,
        first_panic: None,
    });
    std::thread::scope(|sc| {
        for (i, body) in bodies.into_iter().enumerate() {
            sc.spawn(move || {
                // wait for the first turn
                {
                    let mut g = lock();
                    let cv = g.as_ref().unwrap().cvs[i].clone();
                    loop {
                        let s = g.as_ref().unwrap();
                        if s.cur == i || s.abort {
                            break;
                        }
                        g = match cv.wait(g) {
                            Ok(g) => g,
                            Err(p) => p.into_inner(),
                        };
                    }
                }
                TID.with(|t| t.set(i));
                let r = catch_unwind(AssertUnwindSafe(body));
                TID.with(|t| t.set(usize::MAX));
                let mut g = lock();
                let s = g.as_mut().unwrap();
                if let Err(p) = r {
                    if !p.is::<SimAbort>() && s.first_panic.is_none() {
                        s.first_panic = Some(p);
                    }
                }
                s.st[i] = St::Done;
                if !s.abort {
                    match s.decide(Some(i)) {
                        Some(next) => {
                            s.cur = next;
                            s.st[next] = St::Ready;
                            s.cvs[next].notify_one();
                        }
                        None => {
                            if s.st.iter().any(|s| !matches!(s, St::Done)) {
                                violate(
                                    "deadlock",
                                    "every simulated thread is blocked: an operation never finishes",
                                );
                                s.abort = true;
                                for cv in &s.cvs {
                                    cv.notify_all();
                                }
                            }
                        }
                    }
                }
                if s.st.iter().all(|s| matches!(s, St::Done)) {
                    s.all_done.notify_all();
                }
            });
        }
        let mut g = lock();
        let s = g.as_mut().unwrap();
        let first = s.decide(None).unwrap();
        s.cur = first;
        s.cvs[first].notify_one();
        loop {
            if g.as_ref().unwrap().st.iter().all(|s| matches!(s, St::Done)) {
                break;
            }
            g = match all_done.wait(g) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
    });
    let s = lock().take().unwrap();
    count("thread_switches", s.switches);
    count("yield_points", s.yields);
    if s.abort {
        panic_any(SimAbort);
    }
    if let Some(p) = s.first_panic {
        resume_unwind(p);
    }
}
