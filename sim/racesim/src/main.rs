//! C17 and C16 under Miri: threads that run under Miri's seeded scheduler,
//! preempted anywhere, with data-race detection. C17: the rows or columns of
//! one mutable iterator are shared out to them. C16: the parallel methods, on a
//! pool that gives every half of a division a thread of its own.
//! `racesim C16|C17 FIRST COUNT` runs workloads FIRST.. ; each prints a line.
//! The workload is a function of its number; the schedule is one of Miri's seed.

use matreex::{Index, Matrix};
use rayon::prelude::*;
use rayon_core::sim::{Mode, configure};
use std::fmt::Debug;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc;
use std::thread;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

trait Elem: Send + Clone + PartialEq + Debug + 'static {
    fn make(v: u64) -> Self;
    fn step(&mut self, k: u64);
}
impl Elem for u32 {
    fn make(v: u64) -> Self {
        v as u32
    }
    fn step(&mut self, k: u64) {
        *self = self.wrapping_mul(31).wrapping_add(k as u32);
    }
}
impl Elem for [u8; 3] {
    fn make(v: u64) -> Self {
        [v as u8, 1, 2]
    }
    fn step(&mut self, k: u64) {
        self.rotate_left(1);
        self[0] = self[0].wrapping_add(k as u8);
    }
}
impl Elem for String {
    fn make(v: u64) -> Self {
        v.to_string()
    }
    fn step(&mut self, k: u64) {
        self.push((b'a' + (k % 26) as u8) as char);
    }
}
/// May be moved to another thread, but not shared.
#[derive(Clone, PartialEq, Debug)]
struct Lonely(std::cell::Cell<u64>);
impl Elem for Lonely {
    fn make(v: u64) -> Self {
        Lonely(std::cell::Cell::new(v))
    }
    fn step(&mut self, k: u64) {
        self.0.set(self.0.get() * 3 + k);
    }
}
impl Elem for () {
    fn make(_: u64) -> Self {}
    fn step(&mut self, _: u64) {}
}

// The interleaving of a workload, for the record. Relaxed operations order
// nothing, so they hide no race.
static SEQ: AtomicU64 = AtomicU64::new(0);
static ORDER: AtomicU64 = AtomicU64::new(0);
fn mark(k: u64) {
    let n = SEQ.fetch_add(1, Relaxed);
    ORDER.fetch_xor(Rng(n.wrapping_mul(1_000_003).wrapping_add(k)).next(), Relaxed);
}

/// What a thread does with a vector: from the front, the back, skipping some.
fn mutate<'a, T: Elem>(it: impl ExactSizeIterator<Item = &'a mut T> + DoubleEndedIterator, how: u64, k: u64) -> usize {
    let mut it = it;
    let mut n = 0;
    loop {
        let e = match how % 4 {
            0 => it.next(),
            1 => it.next_back(),
            2 => if n % 2 == 0 { it.next() } else { it.next_back() },
            _ => it.nth(n % 2),
        };
        let Some(e) = e else { return n };
        e.step(k + n as u64);
        mark(k);
        n += 1;
    }
}

fn workload<T: Elem>(rng: &mut Rng) -> Result<String, String> {
    let (nr, nc) = match rng.below(8) {
        0 => (1, 1 + rng.below(5)),
        1 => (1 + rng.below(5), 1),
        2 => (rng.below(3), rng.below(3)),
        _ => (1 + rng.below(4), 1 + rng.below(4)),
    };
    let mut m: Matrix<T> = Matrix::from_row((0..nr * nc).map(|i| T::make(i as u64)).collect::<Vec<_>>());
    m.reshape((nr, nc)).unwrap();
    if rng.below(2) == 0 {
        m.switch_order();
    }
    let by_rows = rng.below(2) == 0;
    let threads = 1 + rng.below(4);
    let mode = rng.below(5);
    let back = rng.below(3);
    let how = rng.next();
    let mut want = m.clone();
    let what = format!("{}x{} {:?}, {} handed to {threads} threads, mode {mode}", nr, nc, m.order(), if by_rows { "rows" } else { "columns" });

    macro_rules! share {
        ($outer:expr, $sequential:expr) => {{
            // one after the other; the vector's number decides what is done to it
            let total = {
                let outer = $sequential;
                let total = outer.len();
                for (i, v) in outer.enumerate() {
                    mutate(v, how + i as u64, i as u64);
                }
                total
            };
            let outer = $outer;
            let pull = |i: usize| if back == 2 { i % 2 == 1 } else { back == 1 };
            match mode {
                // dealt in advance
                0 | 1 => {
                    let mut outer = outer;
                    let mut hands: Vec<Vec<_>> = (0..threads).map(|_| vec![]).collect();
                    let (mut lo, mut hi) = (0, total);
                    for i in 0..total {
                        let (n, v) = if pull(i) {
                            hi -= 1;
                            (hi, outer.next_back())
                        } else {
                            lo += 1;
                            (lo - 1, outer.next())
                        };
                        hands[i % threads].push((n, v.ok_or("the outer iterator ended early")?));
                    }
                    thread::scope(|s| {
                        for hand in hands {
                            s.spawn(move || {
                                for (n, v) in hand {
                                    mutate(v, how + n as u64, n as u64);
                                }
                            });
                        }
                    });
                }
                // pulled by the threads, under a lock
                2 => {
                    let outer = Mutex::new((0usize, outer));
                    thread::scope(|s| {
                        for _ in 0..threads {
                            s.spawn(|| {
                                loop {
                                    let got = {
                                        let mut o = outer.lock().unwrap();
                                        o.0 += 1;
                                        (o.0 - 1, o.1.next())
                                    };
                                    let Some(v) = got.1 else { break };
                                    mutate(v, how + got.0 as u64, got.0 as u64);
                                }
                            });
                        }
                    });
                }
                // the outer iterator moves to a thread that feeds the others
                3 => {
                    thread::scope(|s| {
                        let mut txs = vec![];
                        for _ in 0..threads {
                            let (tx, rx) = mpsc::channel();
                            txs.push(tx);
                            s.spawn(move || {
                                for (n, v) in rx {
                                    mutate(v, how + n as u64, n as u64);
                                }
                            });
                        }
                        s.spawn(move || {
                            for (n, v) in outer.enumerate() {
                                txs[n % txs.len()].send((n, v)).unwrap();
                            }
                        });
                    });
                }
                // each thread hands the rest of a vector, begun, to the next
                _ => {
                    thread::scope(|s| {
                        for (n, mut v) in outer.enumerate() {
                            let first = v.next();
                            let last = v.next_back();
                            s.spawn(move || {
                                let len = first.is_some() as usize + last.is_some() as usize + v.len();
                                s.spawn(move || mutate(v, 0, 100));
                                if let Some(e) = first {
                                    e.step(n as u64);
                                }
                                if let Some(e) = last {
                                    e.step(len as u64);
                                }
                            });
                        }
                    });
                    // the same, by one thread
                    return Ok((what, total));
                }
            }
            Ok::<_, String>((what, total))
        }};
    }
    let run = |m: &mut Matrix<T>, want: &mut Matrix<T>| -> Result<(String, usize), String> {
        if by_rows { share!(m.iter_rows_mut(), want.iter_rows_mut()) } else { share!(m.iter_cols_mut(), want.iter_cols_mut()) }
    };
    let before = m.clone();
    let (what, _) = run(&mut m, &mut want)?;
    if mode == 4 {
        want = before;
        macro_rules! sequentially {
            ($outer:expr) => {
                for (n, mut v) in $outer.enumerate() {
                    let first = v.next();
                    let last = v.next_back();
                    let len = first.is_some() as usize + last.is_some() as usize + v.len();
                    mutate(v, 0, 100);
                    if let Some(e) = first {
                        e.step(n as u64);
                    }
                    if let Some(e) = last {
                        e.step(len as u64);
                    }
                }
            };
        }
        if by_rows {
            sequentially!(want.iter_rows_mut())
        } else {
            sequentially!(want.iter_cols_mut())
        }
    }
    if m.iter_elements().ne(want.iter_elements()) || m.order() != want.order() || m.shape() != want.shape() {
        return Err(format!("{what}: the threads produced {:?}, one after the other produces {:?}", m.iter_elements().collect::<Vec<_>>(), want.iter_elements().collect::<Vec<_>>()));
    }
    Ok(what)
}

// ------------------------------------------------------------------------ C16

static CALLS: AtomicU64 = AtomicU64::new(0);
fn called<T>(k: u64, r: T) -> T {
    CALLS.fetch_add(1, Relaxed);
    mark(k);
    r
}

fn parallel<T: Elem + Sync>(rng: &mut Rng) -> Result<String, String> {
    let (nr, nc) = match rng.below(8) {
        0 => (1, 1 + rng.below(9)),
        1 => (1 + rng.below(9), 1),
        2 => (rng.below(3), rng.below(3)),
        3 => (1, 16 + rng.below(30)),
        _ => (1 + rng.below(6), 1 + rng.below(6)),
    };
    let mut m: Matrix<T> = Matrix::from_row((0..nr * nc).map(|i| T::make(i as u64)).collect::<Vec<_>>());
    m.reshape((nr, nc)).unwrap();
    if rng.below(2) == 0 {
        m.switch_order();
    }
    let threads = 1 + rng.below(6);
    let which = rng.below(9);
    let name = ["par_apply", "par_map", "par_map_ref", "par_iter_elements", "par_iter_elements_mut", "into_par_iter_elements", "par_iter_elements_with_index", "par_iter_elements_mut_with_index", "into_par_iter_elements_with_index"][which];
    let what = format!("{}x{} {:?}, {name} on {threads} threads", nr, nc, m.order());
    let (size, before) = (m.size(), m.clone());
    configure(Mode::Forked, threads);
    CALLS.store(0, Relaxed);
    let lengthen = |e: &T| called(1, format!("{e:?}."));
    let same = |a: &Matrix<T>, b: &Matrix<T>| a.order() == b.order() && a.shape() == b.shape() && a.iter_elements().eq(b.iter_elements());
    let told = |ok: bool| if ok { Ok(()) } else { Err(format!("{what}: not as one after the other")) };
    fn sorted(mut v: Vec<String>) -> Vec<String> {
        v.sort();
        v
    }
    let tell = |(i, e): (Index, &T)| called(3, format!("{} {} {e:?}", i.row, i.col));
    match which {
        0 => {
            m.par_apply(|e| called(0, e.step(5)));
            let mut want = before.clone();
            want.apply(|e| e.step(5));
            told(same(&m, &want))?;
        }
        1 => {
            let got = m.par_map(|e| lengthen(&e)).map_err(|e| format!("{what}: {e}"))?;
            let want = before.map(|e| format!("{e:?}.")).unwrap();
            told(got.order() == want.order() && got.shape() == want.shape() && got.iter_elements().eq(want.iter_elements()))?;
        }
        2 => {
            let got = m.par_map_ref(lengthen).map_err(|e| format!("{what}: {e}"))?;
            let want = before.map_ref(|e| format!("{e:?}.")).unwrap();
            told(got.order() == want.order() && got.shape() == want.shape() && got.iter_elements().eq(want.iter_elements()))?;
            told(same(&m, &before))?;
        }
        3 => {
            let got: Vec<String> = m.par_iter_elements().map(lengthen).collect();
            told(sorted(got) == sorted(before.iter_elements().map(|e| format!("{e:?}.")).collect()))?;
        }
        4 => {
            m.par_iter_elements_mut().for_each(|e| called(0, e.step(7)));
            let mut want = before.clone();
            want.iter_elements_mut().for_each(|e| e.step(7));
            told(same(&m, &want))?;
        }
        5 => {
            let got: Vec<String> = m.into_par_iter_elements().map(|e| lengthen(&e)).collect();
            told(sorted(got) == sorted(before.iter_elements().map(|e| format!("{e:?}.")).collect()))?;
        }
        6 => {
            let got: Vec<String> = m.par_iter_elements_with_index().map(tell).collect();
            told(sorted(got) == sorted(before.iter_elements_with_index().map(|(i, e)| format!("{} {} {e:?}", i.row, i.col)).collect()))?;
        }
        7 => {
            let k = |i: Index| (i.row * 7 + i.col) as u64;
            m.par_iter_elements_mut_with_index().for_each(|(i, e)| called(k(i), e.step(k(i))));
            let mut want = before.clone();
            want.iter_elements_mut_with_index().for_each(|(i, e)| e.step(k(i)));
            told(same(&m, &want))?;
        }
        _ => {
            let got: Vec<String> = m.into_par_iter_elements_with_index().map(|(i, e)| tell((i, &e))).collect();
            told(sorted(got) == sorted(before.iter_elements_with_index().map(|(i, e)| format!("{} {} {e:?}", i.row, i.col)).collect()))?;
        }
    }
    let calls = CALLS.load(Relaxed);
    if calls != size as u64 {
        return Err(format!("{what}: the closure was called {calls} times"));
    }
    configure(Mode::Off, 1);
    Ok(what)
}

fn main() {
    let prop = std::env::args().nth(1).unwrap();
    let a: Vec<u64> = std::env::args().skip(2).map(|x| x.parse().unwrap()).collect();
    for i in a[0]..a[0] + a[1] {
        let mut rng = Rng(i.wrapping_mul(0x2545_F491_4F6C_DD1D));
        println!("BEGIN {i}");
        SEQ.store(0, Relaxed);
        ORDER.store(0, Relaxed);
        let r = match (prop.as_str(), rng.below(9)) {
            ("C16", 0..=4) => parallel::<u32>(&mut rng),
            ("C16", 5) => parallel::<[u8; 3]>(&mut rng),
            ("C16", 6 | 7) => parallel::<String>(&mut rng),
            ("C16", _) => parallel::<()>(&mut rng),
            (_, 0..=3) => workload::<u32>(&mut rng),
            (_, 4) => workload::<[u8; 3]>(&mut rng),
            (_, 5 | 6) => workload::<String>(&mut rng),
            (_, 7) => workload::<Lonely>(&mut rng),
            _ => workload::<()>(&mut rng),
        };
        match r {
            Ok(what) => println!("OK {:016x} {what}", ORDER.load(Relaxed)),
            Err(e) => {
                println!("MISMATCH {e}");
                std::process::exit(7);
            }
        }
    }
}
