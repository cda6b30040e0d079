//! C16: parallel helpers against their sequential counterparts on a simulated
//! thread pool. C17: row/column iterators handed to simulated threads.
#![feature(alloc_error_hook)]

use matreex::error::Error;
use matreex::index::Index;
use matreex::parallel::*;
use matreex::{Matrix, Order};
use matsim::elem::{self, *};
use matsim::gen_::*;
use matsim::runner::{self, Prop, Tier};
use simrt::sched::{block_until, tid, yield_point};
use simrt::*;
use std::collections::HashMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

fn locked<T, R>(m: &Mutex<T>, f: impl FnOnce(&mut T) -> R) -> R {
    let _p = heap::Pause::new();
    match m.lock() {
        Ok(mut g) => f(&mut g),
        Err(p) => f(&mut p.into_inner()),
    }
}

// ------------------------------------------------------------------------ C16

fn build<E: Elem>(tier: Tier) -> Matrix<E> {
    let (nr, nc) = match weighted(&[10_000, 4_000, 4_000, 3_000, if cfg!(miri) { 0 } else { 300 }, if cfg!(miri) { 0 } else { 4 }]) {
        0 => shape(),
        4 => large(),
        5 => huge(),
        1 => (range(1, 12), range(1, 40)),
        2 => (range(1, 40), range(1, 12)),
        _ => {
            let k = if tier == Tier::Thorough { 60 } else { 30 };
            (range(1, k), range(1, k))
        }
    };
    let mut m: Matrix<E> = Matrix::from_row((1..=(nr * nc) as u64).map(E::make).collect::<Vec<_>>());
    m.reshape((nr, nc)).unwrap();
    match choose(3) {
        0 => {}
        1 => {
            m.switch_order_without_rearrangement();
        }
        _ => {
            m.switch_order();
        }
    }
    m
}

fn desc<T>(m: &Matrix<T>) -> String {
    format!("{}x{} {:?}", m.nrows(), m.ncols(), m.order())
}

fn facts<T, V>(m: &Matrix<T>, f: impl Fn(&T) -> V) -> (usize, usize, usize, Order, Vec<Option<V>>, Vec<V>) {
    let mut at = vec![];
    for r in 0..m.nrows() {
        for c in 0..m.ncols() {
            at.push(m.get((r, c)).ok().map(&f));
        }
        if m.ncols() == 0 {
            break;
        }
    }
    let mem = m.iter_elements().take(100_000).map(&f).collect();
    (m.nrows(), m.ncols(), m.size(), m.order(), at, mem)
}

fn same<T, V: PartialEq + Debug>(what: &str, seq: &Result<Matrix<T>, Error>, par: &Result<Matrix<T>, Error>, f: impl Fn(&T) -> V) {
    let (x, y) = match (seq, par) {
        (Ok(s), Ok(p)) => (facts(s, &f), facts(p, &f)),
        (Err(a), Err(b)) if a == b => return,
        (a, b) => {
            let d = |r: &Result<Matrix<T>, Error>| match r {
                Ok(m) => desc(m),
                Err(e) => format!("{e:?}"),
            };
            violate("outcome-differs", &format!("{what}: sequentially {}, in parallel {}", d(a), d(b)));
            stop_if_violated();
            return;
        }
    };
    if (x.0, x.1, x.2) != (y.0, y.1, y.2) {
        violate("shape-differs", &format!("{what}: sequentially {}x{}, in parallel {}x{}", x.0, x.1, y.0, y.1));
    } else if x.3 != y.3 {
        violate("order-differs", &format!("{what}: sequentially {:?}, in parallel {:?}", x.3, y.3));
    } else if x != y {
        violate("contents-differ", &format!("{what} of {}x{} {:?}: sequentially {:?}, in parallel {:?}", x.0, x.1, x.3, x.4, y.4));
    }
    stop_if_violated();
}

struct Meter {
    hits: Vec<AtomicU32>,
    stray: AtomicU32,
    workers: AtomicU64,
    /// One in how many calls lets other threads run.
    every: usize,
    calls: AtomicUsize,
}
impl Meter {
    fn new(n: usize, every: usize) -> Meter {
        Meter {
            hits: (0..=n).map(|_| AtomicU32::new(0)).collect(),
            stray: AtomicU32::new(0),
            workers: AtomicU64::new(0),
            every,
            calls: AtomicUsize::new(0),
        }
    }
    /// The caller's closure was called with the element of this value.
    fn hit(&self, v: u64) {
        match self.hits.get(v as usize) {
            Some(h) => h.fetch_add(1, SeqCst),
            None => self.stray.fetch_add(1, SeqCst),
        };
        self.workers.fetch_or(1 << rayon_core::current_thread_index().unwrap_or(63).min(63), SeqCst);
        let k = self.calls.fetch_add(1, SeqCst);
        if self.every > 0 && k % self.every == 0 {
            yield_point();
        }
    }
    fn judge(&self, what: &str, want: &[u32]) {
        let got: Vec<u32> = self.hits.iter().map(|h| h.load(SeqCst)).collect();
        ensure(got == want && self.stray.load(SeqCst) == 0, "not-exactly-once", || {
            let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
            format!("{what}: the closure was called {} times for the elements with value {k}, of which there are {}", got[k], want[k])
        });
        stop_if_violated();
        let w = self.workers.load(SeqCst).count_ones();
        if w > 1 {
            count("runs_on_several_workers", 1);
        }
        event("workers", self.workers.load(SeqCst), 0);
    }
}

fn f(v: u64, k: u64) -> u64 {
    mix(v, k) % 1_000_003
}

fn on_pool(pool: usize, threads: usize, body: impl FnOnce() + Send) {
    let r = attempt(|| match pool {
        0 => {
            rayon_core::sim::configure(rayon_core::sim::Mode::Inline, threads);
            body()
        }
        1 => rayon_core::sim::with_pool(threads, body),
        _ => body(),
    });
    rayon_core::sim::configure(rayon_core::sim::Mode::Off, 4);
    if let Err(p) = r {
        violate("unexpected-panic", &format!("a parallel helper panicked: {}", payload_str(&*p)));
        stop_if_violated();
    }
}

fn c16_e<E: Elem>(tier: Tier) {
    let mut m: Matrix<E> = build(tier);
    note(|| format!("{} {}", E::NAME, desc(&m)));
    event(E::NAME, m.nrows() as u64, m.ncols() as u64);
    for _ in 0..range(1, 3) {
        let n = m.size();
        let threads = match choose(3) {
            0 => range(1, 4),
            1 => range(1, 16),
            _ => pick(&[2, 3, 8, 16, 32, 64]),
        };
        // 0: decided join by join; 1: threads under the scheduler; 2: nothing is split
        let pool = match weighted(&[10, 5, 1]) {
            1 if threads <= 16 && n <= 600 => 1,
            2 => 2,
            _ => 0,
        };
        let every = if pool == 1 { [0, 1, 1, 3, 7][choose(5)] } else { 0 };
        let k = choose(1000) as u64;
        let how = choose(23);
        let what = [
            "par_apply", "par_map to u64", "par_map to the same type", "par_map to ()", "par_map to String", "par_map_ref to u64",
            "par_map_ref to the same type", "par_map_ref to references", "par_iter_elements", "par_iter_elements, fold",
            "par_iter_elements_mut", "into_par_iter_elements", "par_iter_elements_with_index", "par_iter_elements_with_index, collect",
            "par_iter_elements_mut_with_index", "into_par_iter_elements_with_index", "into_par_iter_elements, collect",
            "par_iter_elements, filter", "par_iter_elements_mut, collect", "par_apply", "par_map to a bulky type", "par_map_ref to a bulky type",
            "par_map to bytes",
        ][how];
        let mode = ["joins decided one by one", "scheduled threads", "not split"][pool];
        note(|| format!("  {what}: {threads} workers, {mode}"));
        event(what, threads as u64, pool as u64);
        count(["rayon_inline_runs", "rayon_pool_runs", "rayon_off_runs"][pool], 1);
        if n > 1 && pool < 2 {
            count("nontrivial", 1);
        }
        let top = m.iter_elements().map(|e| e.val()).max().unwrap_or(0).min(70_000) as usize;
        let mut want = vec![0u32; top + 1];
        for e in m.iter_elements() {
            if let Some(w) = want.get_mut(e.val() as usize) {
                *w += 1;
            }
        }
        let renumber = m.iter_elements().any(|e| e.val() as usize > top);
        if renumber {
            // values outgrew the meter
            let mut i = 0;
            m.apply(|e| {
                i += 1;
                e.set(i)
            });
            continue;
        }
        let meter = Meter::new(top, every);
        let log: Mutex<Vec<(usize, usize, u64)>> = Mutex::new(vec![]);
        let push = |ix: Index, v: u64| locked(&log, |l| l.push((ix.row, ix.col, v)));
        let nowhere = Index::new(0, 0);
        let ctx = format!("{what} ({}, {threads} workers, {mode})", desc(&m));
        let mut items_seq: Option<Vec<(usize, usize, u64)>> = None;
        macro_rules! maps {
            ($seq:expr, $par:expr, $view:expr) => {{
                let seq = $seq;
                let mut par = None;
                let slot = &mut par;
                on_pool(pool, threads, || *slot = Some($par));
                same(&ctx, &seq, &par.unwrap(), $view);
            }};
        }
        match how {
            0 | 19 => {
                let mut seq = m.clone();
                seq.apply(|e| e.set(f(e.val(), k) % 4000));
                let mm = &mut m;
                on_pool(pool, threads, || {
                    mm.par_apply(|e| {
                        let v = e.val();
                        meter.hit(v);
                        e.set(f(v, k) % 4000);
                    });
                });
                let par = std::mem::replace(&mut m, Matrix::new());
                let (seq, par) = (Ok(seq), Ok(par));
                same(&ctx, &seq, &par, |e: &E| e.val());
                m = par.unwrap();
            }
            1 => {
                let c = m.clone();
                let meter = &meter;
                maps!(
                    m.clone().map(|e| f(e.val(), k)),
                    c.par_map(|e| {
                        meter.hit(e.val());
                        f(e.val(), k)
                    }),
                    |x| *x
                )
            }
            2 => {
                let c = m.clone();
                let meter = &meter;
                maps!(
                    m.clone().map(|e| E::make(f(e.val(), k))),
                    c.par_map(|e| {
                        meter.hit(e.val());
                        E::make(f(e.val(), k))
                    }),
                    |x: &E| x.val()
                )
            }
            3 => {
                let c = m.clone();
                let meter = &meter;
                maps!(m.clone().map(|_| ()), c.par_map(|e| meter.hit(e.val())), |_| ())
            }
            4 => {
                let c = m.clone();
                let meter = &meter;
                maps!(
                    m.clone().map(|e| f(e.val(), k).to_string()),
                    c.par_map(|e| {
                        meter.hit(e.val());
                        f(e.val(), k).to_string()
                    }),
                    |x| x.clone()
                )
            }
            5 => {
                let (m, meter) = (&m, &meter);
                maps!(
                    m.map_ref(|e| f(e.val(), k)),
                    m.par_map_ref(|e| {
                        meter.hit(e.val());
                        f(e.val(), k)
                    }),
                    |x| *x
                )
            }
            6 => {
                let (m, meter) = (&m, &meter);
                maps!(
                    m.map_ref(|e| E::make(f(e.val(), k))),
                    m.par_map_ref(|e| {
                        meter.hit(e.val());
                        E::make(f(e.val(), k))
                    }),
                    |x: &E| x.val()
                )
            }
            7 => {
                let (m, meter) = (&m, &meter);
                maps!(
                    m.map_ref(|e| e),
                    m.par_map_ref(|e| {
                        meter.hit(e.val());
                        e
                    }),
                    |x| (*x as *const E as usize, x.val())
                )
            }
            20 => {
                let c = m.clone();
                let meter = &meter;
                maps!(
                    m.clone().map(|e| [f(e.val(), k); 25]),
                    c.par_map(|e| {
                        meter.hit(e.val());
                        [f(e.val(), k); 25]
                    }),
                    |x| *x
                )
            }
            21 => {
                let (m, meter) = (&m, &meter);
                maps!(
                    m.map_ref(|e| T128::make(f(e.val(), k))),
                    m.par_map_ref(|e| {
                        meter.hit(e.val());
                        T128::make(f(e.val(), k))
                    }),
                    |x: &T128| x.val()
                )
            }
            22 => {
                let c = m.clone();
                let meter = &meter;
                maps!(
                    m.clone().map(|e| f(e.val(), k) as u8),
                    c.par_map(|e| {
                        meter.hit(e.val());
                        f(e.val(), k) as u8
                    }),
                    |x| *x
                )
            }
            8 => {
                items_seq = Some(m.iter_elements().map(|e| (0, 0, e.val())).collect());
                let m = &m;
                on_pool(pool, threads, || {
                    m.par_iter_elements().for_each(|e| {
                        meter.hit(e.val());
                        push(nowhere, e.val());
                    })
                });
            }
            9 => {
                let seq = m.iter_elements().fold((0u64, 0u64), |a, e| (a.0 + 1, a.1.wrapping_add(f(e.val(), k))));
                let m = &m;
                let mut par = (0, 0);
                let p = &mut par;
                on_pool(pool, threads, || {
                    *p = m
                        .par_iter_elements()
                        .fold(
                            || (0u64, 0u64),
                            |a, e| {
                                meter.hit(e.val());
                                (a.0 + 1, a.1.wrapping_add(f(e.val(), k)))
                            },
                        )
                        .reduce(|| (0, 0), |a, b| (a.0 + b.0, a.1.wrapping_add(b.1)))
                });
                ensure(seq == par, "items-differ", || format!("{ctx}: sequentially {seq:?}, in parallel {par:?}"));
            }
            10 => {
                let mut seq = m.clone();
                seq.iter_elements_mut().for_each(|e| e.set(f(e.val(), k) % 4000));
                let mm = &mut m;
                on_pool(pool, threads, || {
                    mm.par_iter_elements_mut().for_each(|e| {
                        let v = e.val();
                        meter.hit(v);
                        e.set(f(v, k) % 4000);
                    })
                });
                let par = std::mem::replace(&mut m, Matrix::new());
                let (seq, par) = (Ok(seq), Ok(par));
                same(&ctx, &seq, &par, |e: &E| e.val());
                m = par.unwrap();
            }
            11 => {
                items_seq = Some(m.clone().into_iter_elements().map(|e| (0, 0, e.val())).collect());
                let c = m.clone();
                on_pool(pool, threads, || {
                    c.into_par_iter_elements().for_each(|e| {
                        meter.hit(e.val());
                        push(nowhere, e.val());
                    })
                });
            }
            12 => {
                items_seq = Some(m.iter_elements_with_index().map(|(i, e)| (i.row, i.col, e.val())).collect());
                let m = &m;
                on_pool(pool, threads, || {
                    m.par_iter_elements_with_index().for_each(|(i, e)| {
                        meter.hit(e.val());
                        push(i, e.val());
                    })
                });
            }
            13 => {
                items_seq = Some(m.iter_elements_with_index().map(|(i, e)| (i.row, i.col, e.val())).collect());
                let m = &m;
                let (log, meter) = (&log, &meter);
                on_pool(pool, threads, || {
                    let v: Vec<(usize, usize, u64)> = m
                        .par_iter_elements_with_index()
                        .map(|(i, e)| {
                            meter.hit(e.val());
                            (i.row, i.col, e.val())
                        })
                        .collect();
                    locked(log, |l| *l = v);
                });
            }
            14 => {
                items_seq = Some(m.clone().iter_elements_mut_with_index().map(|(i, e)| (i.row, i.col, e.val())).collect());
                let mm = &mut m;
                on_pool(pool, threads, || {
                    mm.par_iter_elements_mut_with_index().for_each(|(i, e)| {
                        let v = e.val();
                        meter.hit(v);
                        push(i, v);
                        e.set((i.row * 1009 + i.col) as u64 % 4000);
                    })
                });
                for r in 0..m.nrows() {
                    for c in 0..m.ncols() {
                        let v = m.get((r, c)).map(|e| e.val());
                        ensure(v == Ok(E::norm((r * 1009 + c) as u64 % 4000)), "contents-differ", || {
                            format!("{ctx}: a write through the reference paired with ({r}, {c}) went elsewhere")
                        });
                    }
                    if m.ncols() == 0 {
                        break;
                    }
                }
            }
            15 => {
                items_seq = Some(m.clone().into_iter_elements_with_index().map(|(i, e)| (i.row, i.col, e.val())).collect());
                let c = m.clone();
                on_pool(pool, threads, || {
                    c.into_par_iter_elements_with_index().for_each(|(i, e)| {
                        meter.hit(e.val());
                        push(i, e.val());
                    })
                });
            }
            16 => {
                items_seq = Some(m.clone().into_iter_elements().map(|e| (0, 0, e.val())).collect());
                let c = m.clone();
                let (log, meter) = (&log, &meter);
                on_pool(pool, threads, || {
                    let v: Vec<E> = c
                        .into_par_iter_elements()
                        .map(|e| {
                            meter.hit(e.val());
                            e
                        })
                        .collect();
                    locked(log, |l| *l = v.iter().map(|e| (0, 0, e.val())).collect());
                });
            }
            17 => {
                items_seq = Some(m.iter_elements().filter(|e| f(e.val(), k) % 3 == 0).map(|e| (0, 0, e.val())).collect());
                let m = &m;
                let (log, meter) = (&log, &meter);
                on_pool(pool, threads, || {
                    let v: Vec<u64> = m
                        .par_iter_elements()
                        .filter(|e| {
                            meter.hit(e.val());
                            f(e.val(), k) % 3 == 0
                        })
                        .map(|e| e.val())
                        .collect();
                    locked(log, |l| *l = v.into_iter().map(|v| (0, 0, v)).collect());
                });
            }
            _ => {
                items_seq = Some(m.clone().iter_elements_mut().map(|e| (0, 0, e.val())).collect());
                let mm = &mut m;
                let (log, meter) = (&log, &meter);
                on_pool(pool, threads, || {
                    let v: Vec<(usize, usize, u64)> = mm
                        .par_iter_elements_mut()
                        .map(|e| {
                            let v = e.val();
                            meter.hit(v);
                            e.set(v / 2);
                            (0, 0, v)
                        })
                        .collect();
                    locked(log, |l| *l = v);
                });
            }
        }
        meter.judge(&ctx, &want);
        if let Some(mut seq) = items_seq {
            let mut par = log.into_inner().unwrap();
            par.sort_unstable();
            seq.sort_unstable();
            ensure(seq == par, "items-differ", || format!("{ctx}: sequentially {seq:?}, in parallel {par:?}"));
        }
        stop_if_violated();
        let (r, c, _, o, _, mem) = facts(&m, |e| e.val());
        state(mem.iter().fold(mix(r as u64, mix(c as u64, (o == Order::RowMajor) as u64)), |s, v| mix(s, *v)));
    }
    drop(m);
    if E::TRACKED {
        let left = elem::live();
        ensure(left == 0, "leak", || format!("{left} elements are still alive at the end"));
    }
}

/// CapacityOverflow in the same cases, on huge matrices of zero-sized elements.
fn c16_overflow() {
    std::alloc::set_alloc_error_hook(|l| std::panic::panic_any(heap::Refused(l.size())));
    static CALLS: AtomicUsize = AtomicUsize::new(0);
    fn tick() {
        if CALLS.fetch_add(1, SeqCst) > 30 {
            std::panic::panic_any(Cancel);
        }
    }
    #[derive(PartialEq, Debug)]
    enum Seen {
        Done,
        Err(Error),
        Started,
        Panic(String),
    }
    fn call<U>(f: impl FnOnce() -> Result<Matrix<U>, Error>) -> Seen {
        CALLS.store(0, SeqCst);
        heap::open_window(1 << 20);
        let r = attempt(f);
        heap::close_window();
        match r {
            Ok(Ok(_)) => Seen::Done,
            Ok(Err(e)) => Seen::Err(e),
            Err(p) if p.is::<Cancel>() || p.is::<heap::Refused>() => Seen::Started,
            Err(p) => Seen::Panic(payload_str(&*p)),
        }
    }
    fn go<U: Default + Send>() {
        let e = size_of::<U>().max(1);
        let at = isize::MAX as usize / e;
        let n = match choose(7) {
            0 => at,
            1 => at + 1,
            2 => at - choose(9),
            3 => at + choose(9),
            4 => usize::MAX - choose(3),
            5 => isize::MAX as usize,
            _ => 1 << range(40, 63),
        };
        vast_run();
        let d = [1, 2, 3, 5][choose(4)];
        let (r, c) = if choose(2) == 0 { (n / d, d) } else { (d, n / d) };
        let mk = || {
            let mut v: Vec<()> = Vec::new();
            // zero-sized elements need no initialisation
            unsafe { v.set_len(r * c) };
            let mut m = Matrix::from_row(v);
            m.reshape((r, c)).unwrap();
            m
        };
        let flip = choose(2) == 1;
        let mut m = mk();
        let mut m2 = mk();
        if flip {
            m.switch_order_without_rearrangement();
            m2.switch_order_without_rearrangement();
        }
        let by_ref = choose(2) == 1;
        let threads = range(1, 8);
        let (s, p);
        if by_ref {
            s = call(|| {
                m.map_ref(|_| {
                    tick();
                    U::default()
                })
            });
            rayon_core::sim::configure(rayon_core::sim::Mode::Inline, threads);
            p = call(|| {
                m2.par_map_ref(|_| {
                    tick();
                    U::default()
                })
            });
        } else {
            s = call(|| {
                m.map(|_| {
                    tick();
                    U::default()
                })
            });
            rayon_core::sim::configure(rayon_core::sim::Mode::Inline, threads);
            p = call(|| {
                m2.par_map(|_| {
                    tick();
                    U::default()
                })
            });
        }
        rayon_core::sim::configure(rayon_core::sim::Mode::Off, 4);
        note(|| format!("  {r} x {c} () to size {e}, by reference {by_ref}: sequentially {s:?}, in parallel {p:?}"));
        event("vast", r as u64, c as u64);
        count("capacity_cases", 1);
        count("nontrivial", 1);
        let ok = match (&s, &p) {
            (Seen::Err(a), Seen::Err(b)) => a == b,
            (Seen::Err(_), _) | (_, Seen::Err(_)) => false,
            (Seen::Panic(_), _) => true,
            (_, Seen::Panic(_)) => false,
            _ => true,
        };
        ensure(ok, "outcome-differs", || {
            format!("{r} x {c} elements of () to elements of size {e}, by reference: {by_ref}: sequentially {s:?}, in parallel {p:?}")
        });
        stop_if_violated();
    }
    for _ in 0..range(1, 4) {
        match choose(5) {
            0 => go::<u8>(),
            1 => go::<u16>(),
            2 => go::<u64>(),
            3 => go::<[u64; 3]>(),
            _ => go::<()>(),
        }
    }
}

fn c16(tier: Tier) {
    match weighted(&[6, 4, 4, 6, 2, 4, 2, 2]) {
        0 => c16_e::<P8>(tier),
        1 => c16_e::<T24>(tier),
        2 => c16_e::<T4>(tier),
        3 => c16_e::<TBox>(tier),
        4 => c16_e::<B1>(tier),
        5 => c16_e::<Z>(tier),
        6 => c16_overflow(),
        _ => c16_e::<T128>(tier),
    }
}

// ------------------------------------------------------------------------ C17

/// What a simulated client program is allowed to do is decided by the type
/// checker (see `permissions`); the simulation itself moves anything.
struct Ship<T>(T);
unsafe impl<T> Send for Ship<T> {}
impl<T> Ship<T> {
    fn unload(self) -> T {
        self.0
    }
    fn hold(&mut self) -> &mut T {
        &mut self.0
    }
}

struct Task<I> {
    token: usize,
    it: Ship<I>,
    script: Vec<bool>,
    held: usize,
}

struct Book {
    /// address -> (thread, token, ordinal)
    owner: HashMap<usize, (usize, usize, usize)>,
    /// address range of the vectors each thread works on
    scripts: Vec<(usize, Vec<bool>)>,
    touched: usize,
    moves: usize,
}

fn g(token: usize, ordinal: usize, v: u64) -> u64 {
    mix(mix(token as u64, ordinal as u64), v) % 60_000
}

/// One step of a task: take an element, read it, let others run, write it.
fn work<'a, E: Elem, I: DoubleEndedIterator<Item = &'a mut E> + ExactSizeIterator>(t: &mut Task<I>, book: &Mutex<Book>) -> bool {
    let back = choose(2) == 1;
    let it = t.it.hold();
    let e = if back { it.next_back() } else { it.next() };
    let Some(e) = e else { return false };
    let ordinal = t.script.len();
    t.script.push(back);
    if ordinal > 5000 {
        violate("endless", "a row/column iterator does not end");
        std::panic::panic_any(SimAbort);
    }
    let me = tid().unwrap_or(99);
    let addr = e as *mut E as usize;
    let clash = locked(book, |b| {
        b.touched += 1;
        if size_of::<E>() == 0 { None } else { b.owner.insert(addr, (me, t.token, ordinal)) }
    });
    event("touch", t.token as u64, ordinal as u64);
    if let Some((who, tok, _)) = clash {
        violate(
            "shared-element",
            &format!("the element handed to thread {me} by vector {} was also handed to thread {who} by vector {tok}", t.token),
        );
        std::panic::panic_any(SimAbort);
    }
    let v = e.val();
    yield_point();
    e.set(g(t.token, ordinal, v));
    if choose(4) == 3 {
        yield_point();
    }
    true
}

macro_rules! outer {
    ($m:expr, $rows:expr, |$it:ident| $body:expr) => {
        if $rows {
            let $it = $m.iter_rows_mut();
            $body
        } else {
            let $it = $m.iter_cols_mut();
            $body
        }
    };
}

fn c17_e<E: Elem>(tier: Tier) {
    let (nr, nc) = match weighted(&[8, 4, 3]) {
        0 => (range(1, 6), range(1, 6)),
        1 => (dim(), dim()),
        _ => {
            let k = if tier == Tier::Thorough { 24 } else { 14 };
            (range(1, k), range(1, k))
        }
    };
    let mut m: Matrix<E> = Matrix::from_row((1..=(nr * nc) as u64).map(E::make).collect::<Vec<_>>());
    m.reshape((nr, nc)).unwrap();
    if choose(2) == 1 {
        m.switch_order();
    }
    let rows = choose(2) == 0;
    let threads = range(1, 6);
    let mode = choose(4);
    let mut seq = m.clone();
    let name = if rows { "iter_rows_mut" } else { "iter_cols_mut" };
    let mode_name = ["shared out before the start", "outer iterator shared under a lock", "vectors handed from thread to thread", "outer iterator moved to a thread"][mode];
    note(|| format!("{} {}: {name}, {threads} threads, {mode_name}", E::NAME, desc(&m)));
    event(name, nr as u64, nc as u64);
    event(E::NAME, threads as u64, mode as u64);
    let pulls: Mutex<Vec<bool>> = Mutex::new(vec![]);
    let book = Mutex::new(Book { owner: HashMap::new(), scripts: vec![], touched: 0, moves: 0 });
    let cap = nr.max(nc) + 3;
    let (pulls, book) = (&pulls, &book);
    let r = attempt(|| outer!(m, rows, |it| threaded::<E, _, _>(it, threads, mode, cap, pulls, book)));
    if let Err(p) = r {
        violate("unexpected-panic", &format!("{name} of {nr}x{nc} on {threads} threads ({mode_name}): {}", payload_str(&*p)));
    }
    stop_if_violated();
    // the same mutations, sequentially
    let pulls = locked(pulls, |p| p.clone());
    let (mut scripts, touched, moves) = locked(book, |b| (std::mem::take(&mut b.scripts), b.touched, b.moves));
    scripts.sort_by_key(|s| s.0);
    count("thread_touches", touched as u64);
    count("thread_moves", moves as u64);
    if threads > 1 && touched > 1 {
        count("nontrivial", 1);
    }
    outer!(seq, rows, |it| {
        let mut it = it;
        let mut vecs = vec![];
        for back in &pulls {
            vecs.push(if *back { it.next_back() } else { it.next() });
        }
        for (token, script) in &scripts {
            let Some(Some(v)) = vecs.get_mut(*token) else { continue };
            for (ordinal, back) in script.iter().enumerate() {
                if let Some(e) = if *back { v.next_back() } else { v.next() } {
                    let x = e.val();
                    e.set(g(*token, ordinal, x));
                }
            }
        }
    });
    let (a, b) = (facts(&seq, |e| e.val()), facts(&m, |e| e.val()));
    ensure(a == b, "differs-from-sequential", || {
        format!("{name} of {nr}x{nc} on {threads} threads ({mode_name}): sequentially {:?}, concurrently {:?}", a.4, b.4)
    });
    ensure(touched == nr * nc, "not-every-element-once", || {
        format!("{name} of {nr}x{nc}: {touched} elements handed out on {threads} threads, {} expected", nr * nc)
    });
    state(b.5.iter().fold(0, |s, v| mix(s, *v)));
    stop_if_violated();
}

fn threaded<'a, E: Elem, O, I>(outer: O, threads: usize, mode: usize, cap: usize, pulls: &Mutex<Vec<bool>>, book: &Mutex<Book>)
where
    O: DoubleEndedIterator<Item = I> + ExactSizeIterator,
    I: DoubleEndedIterator<Item = &'a mut E> + ExactSizeIterator,
{
    let pull = |o: &mut O| -> Option<Task<I>> {
        let back = choose(2) == 1;
        let it = if back { o.next_back() } else { o.next() }?;
        locked(pulls, |p| {
            p.push(back);
            let token = p.len() - 1;
            if token >= cap {
                return None;
            }
            event("pull", token as u64, back as u64);
            Some(Task { token, it: Ship(it), script: vec![], held: 0 })
        })
    };
    let finish = |t: Task<I>| {
        locked(book, |b| {
            b.scripts.push((t.token, t.script));
            b.moves += t.held;
        })
    };
    let mut outer = outer;
    match mode {
        // dealt out in advance; every thread interleaves its vectors
        0 => {
            let mut hands: Vec<Vec<Task<I>>> = (0..threads).map(|_| vec![]).collect();
            while let Some(t) = pull(&mut outer) {
                hands[choose(threads)].push(t);
            }
            let finish = Ship(&finish);
            let finish = &finish;
            let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = hands
                .into_iter()
                .map(|h| {
                    let h = Ship(h);
                    let fin = Ship(finish);
                    Box::new(move || {
                        let mut h = h.unload();
                        let fin = fin.unload();
                        while !h.is_empty() {
                            let i = choose(h.len());
                            for _ in 0..range(1, 3) {
                                if !work(&mut h[i], book) {
                                    (fin.0)(h.remove(i));
                                    break;
                                }
                            }
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            sched::run_threads(bodies);
        }
        // threads pull from the outer iterator as they go
        1 => {
            let shared = Mutex::new(outer);
            let ctx = (Ship(&shared), Ship(&pull), Ship(&finish));
            let ctx = &ctx;
            let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = (0..threads)
                .map(|_| {
                    let c = Ship(ctx);
                    Box::new(move || {
                        let c = c.unload();
                        loop {
                            let t = locked(c.0.0, |o| (c.1.0)(o));
                            let Some(mut t) = t else { break };
                            yield_point();
                            while work(&mut t, book) {}
                            (c.2.0)(t);
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            sched::run_threads(bodies);
        }
        // vectors travel between threads half-way
        2 => {
            let mut all = vec![];
            while let Some(t) = pull(&mut outer) {
                all.push(t);
            }
            let shared = Mutex::new(all);
            let ctx = (Ship(&shared), Ship(&finish));
            let ctx = &ctx;
            let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = (0..threads)
                .map(|_| {
                    let c = Ship(ctx);
                    Box::new(move || {
                        let c = c.unload();
                        loop {
                            let n = locked(c.0.0, |q| q.len());
                            if n == 0 {
                                break;
                            }
                            let i = choose(n);
                            let mut t = locked(c.0.0, |q| q.remove(i));
                            let mut live = true;
                            for _ in 0..range(1, 3) {
                                if !work(&mut t, book) {
                                    live = false;
                                    break;
                                }
                            }
                            if live {
                                t.held += 1;
                                locked(c.0.0, |q| q.push(t));
                            } else {
                                (c.1.0)(t);
                            }
                            yield_point();
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            sched::run_threads(bodies);
        }
        // one thread owns the outer iterator and feeds the others
        _ => {
            let queue: Mutex<Vec<Task<I>>> = Mutex::new(vec![]);
            let pending = Arc::new(AtomicUsize::new(0));
            let over = Arc::new(AtomicBool::new(false));
            let ctx = (Ship(&queue), Ship(&pull), Ship(&finish));
            let ctx = &ctx;
            let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
            {
                let o = Ship(outer);
                let c = Ship(ctx);
                let (pending, over) = (pending.clone(), over.clone());
                bodies.push(Box::new(move || {
                    let mut o = o.unload();
                    let c = c.unload();
                    while let Some(t) = (c.1.0)(&mut o) {
                        let keep = choose(3) == 2;
                        if keep {
                            let mut t = t;
                            while work(&mut t, book) {}
                            (c.2.0)(t);
                        } else {
                            locked(c.0.0, |q| q.push(t));
                            pending.fetch_add(1, SeqCst);
                        }
                        yield_point();
                    }
                    over.store(true, SeqCst);
                    // whatever nobody took
                    while let Some(mut t) = locked(c.0.0, |q| q.pop()) {
                        pending.fetch_sub(1, SeqCst);
                        while work(&mut t, book) {}
                        (c.2.0)(t);
                    }
                }));
            }
            for _ in 1..threads {
                let c = Ship(ctx);
                let (pending, over) = (pending.clone(), over.clone());
                bodies.push(Box::new(move || {
                    let c = c.unload();
                    loop {
                        let (p, o) = (pending.clone(), over.clone());
                        block_until(move || p.load(SeqCst) > 0 || o.load(SeqCst));
                        let t = locked(c.0.0, |q| if q.is_empty() { None } else { Some(q.remove(0)) });
                        match t {
                            Some(mut t) => {
                                pending.fetch_sub(1, SeqCst);
                                while work(&mut t, book) {}
                                (c.2.0)(t);
                            }
                            None if over.load(SeqCst) => break,
                            None => {}
                        }
                    }
                }));
            }
            sched::run_threads(bodies);
        }
    }
}

// Which programs does the type checker accept?

struct Of<T>(PhantomData<T>);
fn of<T>(_: &T) -> Of<T> {
    Of(PhantomData)
}
trait Refused {
    fn may_move(&self) -> bool {
        false
    }
    fn may_share(&self) -> bool {
        false
    }
}
impl<T> Refused for &Of<T> {}
trait MayMove {
    fn may_move(&self) -> bool {
        true
    }
}
impl<T: Send> MayMove for Of<T> {}
trait MayShare {
    fn may_share(&self) -> bool {
        true
    }
}
impl<T: Sync> MayShare for Of<T> {}

/// Belongs to one thread: neither Send nor Sync.
#[derive(Clone)]
struct Affine(std::rc::Rc<u32>);
/// Sync but not Send, like a lock guard.
#[derive(Clone)]
struct Guardish(u32, PhantomData<*const ()>);
unsafe impl Sync for Guardish {}
/// Send but not Sync.
#[derive(Clone)]
struct Celled(std::cell::Cell<u32>);
#[derive(Clone)]
struct Free(u32);

fn permissions() {
    fn verdict(what: &str, class: &str, send: bool, sync: bool, may_move: bool, may_share: bool) {
        note(|| format!("  {what} of {class} elements: may be moved {may_move}, may be shared {may_share}"));
        event("permission", may_move as u64, may_share as u64);
        count("permissions_checked", 1);
        ensure(send || !may_move, "may-move", || format!("{what} of {class} elements can be moved to another thread although the elements cannot"));
        ensure(sync || !may_share, "may-share", || format!("{what} of {class} elements can be shared between threads although the elements cannot"));
    }
    macro_rules! class {
        ($t:ty, $mk:expr, $send:literal, $sync:literal) => {{
            let name = stringify!($t);
            let mut m: Matrix<$t> = Matrix::from_row(vec![$mk]);
            {
                let o = m.iter_rows_mut();
                verdict("iter_rows_mut()", name, $send, $sync, (&of(&o)).may_move(), (&of(&o)).may_share());
            }
            {
                let o = m.iter_cols_mut();
                verdict("iter_cols_mut()", name, $send, $sync, (&of(&o)).may_move(), (&of(&o)).may_share());
            }
            if let Some(i) = m.iter_rows_mut().next() {
                verdict("a row of iter_rows_mut()", name, $send, $sync, (&of(&i)).may_move(), (&of(&i)).may_share());
            }
            if let Some(i) = m.iter_cols_mut().next() {
                verdict("a column of iter_cols_mut()", name, $send, $sync, (&of(&i)).may_move(), (&of(&i)).may_share());
            }
        }};
    }
    let e = Free(1);
    let probe_works = (&of(&e)).may_move() && (&of(&e)).may_share();
    let c = Celled(std::cell::Cell::new(1));
    let probe_works = probe_works && (&of(&c)).may_move() && !(&of(&c)).may_share();
    let a = Affine(std::rc::Rc::new(1));
    let probe_works = probe_works && !(&of(&a)).may_move() && !(&of(&a)).may_share();
    let g = Guardish(1, PhantomData);
    let probe_works = probe_works && !(&of(&g)).may_move() && (&of(&g)).may_share();
    assert!(probe_works && e.0 + c.0.get() + *a.0 + g.0 == 4);
    class!(Free, Free(1), true, true);
    class!(Celled, Celled(std::cell::Cell::new(1)), true, false);
    class!(Guardish, Guardish(1, PhantomData), false, true);
    class!(Affine, Affine(std::rc::Rc::new(1)), false, false);
    stop_if_violated();
}

fn c17(tier: Tier) {
    match weighted(&[8, 6, 4, 4, 2, 3, 1, 2]) {
        0 => c17_e::<P8>(tier),
        1 => c17_e::<T24>(tier),
        2 => c17_e::<T4>(tier),
        3 => c17_e::<TBox>(tier),
        4 => c17_e::<B1>(tier),
        5 => c17_e::<Z>(tier),
        6 => permissions(),
        _ => c17_e::<T128>(tier),
    }
}

fn main() {
    runner::main(&[
        Prop { id: "C16", scenario: c16, enumerate_faults: false },
        Prop { id: "C17", scenario: c17, enumerate_faults: false },
    ]);
}
