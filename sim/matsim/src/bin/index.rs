//! C04: checked indexing against every index party, honest or not.
use matreex::error::Error;
use matreex::index::{AsIndex, Index, MatrixIndex};
use matreex::{Matrix, Order};
use matsim::gen_::*;
use matsim::runner::{self, Prop, Tier};
use matsim::*;
use std::cell::{Cell, RefCell};

#[cfg(not(miri))]
#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

trait El: 'static {
    const NAME: &'static str;
    fn mk(v: u32) -> Self;
    fn v(&self) -> u32;
}
impl El for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u32) -> Self {
        v as u8
    }
    fn v(&self) -> u32 {
        *self as u32
    }
}
impl El for u32 {
    const NAME: &'static str = "u32";
    fn mk(v: u32) -> Self {
        v
    }
    fn v(&self) -> u32 {
        *self
    }
}
impl El for [u64; 3] {
    const NAME: &'static str = "[u64; 3]";
    fn mk(v: u32) -> Self {
        [v as u64; 3]
    }
    fn v(&self) -> u32 {
        self[1] as u32
    }
}
impl El for String {
    const NAME: &'static str = "String";
    fn mk(v: u32) -> Self {
        v.to_string()
    }
    fn v(&self) -> u32 {
        self.parse().unwrap_or(u32::MAX)
    }
}
impl El for () {
    const NAME: &'static str = "()";
    fn mk(_: u32) -> Self {}
    fn v(&self) -> u32 {
        0
    }
}

/// A caller-defined index whose accessors follow a script: the k-th call gets
/// the k-th answer, the last answer repeats.
#[derive(Default)]
struct Party {
    rows: Vec<usize>,
    cols: Vec<usize>,
    asked_r: RefCell<Vec<usize>>,
    asked_c: RefCell<Vec<usize>>,
    calls: Cell<u32>,
}
impl Party {
    fn answer(&self, script: &[usize], asked: &RefCell<Vec<usize>>) -> usize {
        let mut a = asked.borrow_mut();
        let v = script[a.len().min(script.len() - 1)];
        a.push(v);
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 1000 {
            violate("hang", "an index accessor was called a thousand times");
            std::panic::panic_any(SimAbort);
        }
        v
    }
}
impl AsIndex for &Party {
    fn row(&self) -> usize {
        self.answer(&self.rows, &self.asked_r)
    }
    fn col(&self) -> usize {
        self.answer(&self.cols, &self.asked_c)
    }
}

/// An honest caller-defined index.
#[derive(Clone, Copy)]
struct Honest {
    col: usize,
    row: usize,
}
impl AsIndex for Honest {
    fn row(&self) -> usize {
        self.row
    }
    fn col(&self) -> usize {
        self.col
    }
}

struct Sut<E> {
    m: Matrix<E>,
    nr: usize,
    nc: usize,
    /// Addresses in memory order (small matrices of sized elements only).
    at: Vec<usize>,
}

impl<E: El> Sut<E> {
    fn new(m: Matrix<E>) -> Self {
        let (nr, nc) = (m.nrows(), m.ncols());
        let small = size_of::<E>() > 0;
        let at = if small { m.iter_elements().take(10_000).map(|e| e as *const E as usize).collect() } else { vec![] };
        Sut { nr, nc, at, m }
    }
    /// Address of the element at a logical position that is within bounds.
    fn addr(&self, r: usize, c: usize) -> usize {
        match self.m.order() {
            Order::RowMajor => self.at[r * self.nc + c],
            Order::ColMajor => self.at[c * self.nr + r],
        }
    }
    fn inside(&self, r: usize, c: usize) -> bool {
        r < self.nr && c < self.nc
    }
    fn desc(&self) -> String {
        format!("{} {}x{} {:?}", E::NAME, self.nr, self.nc, self.m.order())
    }
    /// Whether `addr` is the element at (r, c).
    fn is(&self, addr: usize, r: usize, c: usize) -> bool {
        self.inside(r, c) && (size_of::<E>() == 0 || self.addr(r, c) == addr)
    }
    /// Judges one outcome against the answers the index party gave.
    fn judge(&self, what: &str, out: &Result<usize, Error>, rows: &[usize], cols: &[usize]) {
        let explained = match out {
            Ok(addr) => rows.iter().any(|r| cols.iter().any(|c| self.is(*addr, *r, *c))),
            Err(Error::IndexOutOfBounds) => {
                let r = rows.iter().any(|r| *r >= self.nr);
                let c = cols.iter().any(|c| *c >= self.nc);
                r || c
            }
            Err(_) => false,
        };
        if !explained {
            let class = match out {
                Ok(_) => "wrong-element",
                Err(Error::IndexOutOfBounds) => "valid-index-refused",
                Err(_) => "wrong-error",
            };
            let got = match out {
                Ok(a) => match self.at.iter().position(|x| x == a) {
                    Some(k) => format!("the element number {k} in memory"),
                    None if size_of::<E>() == 0 => "an element".to_string(),
                    None => "no element of the matrix".to_string(),
                },
                Err(e) => format!("{e:?}"),
            };
            violate(class, &format!("{what} on {}: rows {rows:?}, cols {cols:?} gave {got}", self.desc()));
            stop_if_violated();
        }
        count(if out.is_ok() { "index_accepted" } else { "index_refused" }, 1);
    }
    fn ok_ref(&self, what: &str, addr: usize) {
        ensure(addr != 0 && addr % align_of::<E>() == 0, "wrong-element", || {
            format!("{what} on {}: a misaligned reference", self.desc())
        });
    }

    /// All access paths with an honest index of one type.
    fn honest<I>(&mut self, name: &str, r: usize, c: usize, mk: impl Fn() -> I)
    where
        I: MatrixIndex<E, Output = E>,
    {
        event("honest", r as u64, c as u64);
        let how = choose(7);
        let a = |e: &E| e as *const E as usize;
        let what = format!("{}({name}({r}, {c}))", ["get", "get_mut", "[]", "[] mut", "MatrixIndex::get", "MatrixIndex::index", "is_out_of_bounds"][how]);
        let out = match how {
            0 => attempt(|| self.m.get(mk()).map(a)),
            1 => attempt(|| self.m.get_mut(mk()).map(|e| &*e).map(a)),
            2 => attempt(|| Ok(a(&self.m[mk()]))),
            3 => attempt(|| Ok(a(&mut self.m[mk()]))),
            4 => attempt(|| MatrixIndex::get(mk(), &self.m).map(a)),
            5 => attempt(|| Ok(a(MatrixIndex::index(mk(), &self.m)))),
            _ => {
                let oob = mk().is_out_of_bounds(&self.m);
                ensure(oob != self.inside(r, c), "wrong-result", || format!("{what} on {}: {oob}", self.desc()));
                return;
            }
        };
        let out = self.unpanic(&what, out, matches!(how, 2 | 3 | 5));
        if let Ok(a) = out {
            self.ok_ref(&what, a);
        }
        self.judge(&what, &out, &[r], &[c]);
    }

    fn unpanic(&self, what: &str, out: std::thread::Result<Result<usize, Error>>, may_panic: bool) -> Result<usize, Error> {
        match out {
            Ok(r) => r,
            Err(p) => {
                ensure(may_panic, "unexpected-panic", || format!("{what} on {}: {}", self.desc(), payload_str(&*p)));
                Err(Error::IndexOutOfBounds)
            }
        }
    }

    fn dishonest(&mut self, p: &Party) {
        event("dishonest", p.rows.len() as u64, p.cols.len() as u64);
        let how = choose(7);
        let a = |e: &E| e as *const E as usize;
        let what = ["get", "get_mut", "[]", "[] mut", "MatrixIndex::get_mut", "MatrixIndex::index_mut", "write"][how];
        let before: Vec<u32> = if self.at.len() < 200 { self.m.iter_elements().take(self.at.len()).map(E::v).collect() } else { vec![] };
        let out = match how {
            0 => attempt(|| self.m.get(p).map(a)),
            1 => attempt(|| self.m.get_mut(p).map(|e| &*e).map(a)),
            2 => attempt(|| Ok(a(&self.m[p]))),
            3 => attempt(|| Ok(a(&mut self.m[p]))),
            4 => attempt(|| MatrixIndex::get_mut(p, &mut self.m).map(|e| &*e).map(a)),
            5 => attempt(|| Ok(a(MatrixIndex::index_mut(p, &mut self.m)))),
            _ => attempt(|| {
                self.m.get_mut(p).map(|e| {
                    *e = E::mk(201);
                    a(e)
                })
            }),
        };
        let out = self.unpanic(what, out, matches!(how, 2 | 3 | 5));
        let (rows, cols) = (p.asked_r.borrow().clone(), p.asked_c.borrow().clone());
        note(|| format!("  {what} by a lying index: rows {rows:?}, cols {cols:?} -> {}", if out.is_ok() { "Ok" } else { "Err" }));
        count("lie_index_answers", (rows.len() + cols.len()) as u64);
        if let Ok(a) = out {
            self.ok_ref(what, a);
        }
        self.judge(what, &out, &rows, &cols);
        if how == 6 && !before.is_empty() && size_of::<E>() > 0 {
            let after: Vec<u32> = self.m.iter_elements().take(self.at.len()).map(E::v).collect();
            let hit = out.ok().and_then(|a| self.at.iter().position(|x| *x == a));
            for k in 0..before.len() {
                let want = if Some(k) == hit { E::mk(201).v() } else { before[k] };
                ensure(after[k] == want, "wrong-contents", || {
                    format!("a write through get_mut on {} changed the element number {k} in memory", self.desc())
                });
            }
        }
        stop_if_violated();
    }
}

/// An index value for an axis of length `n` next to an axis of length `other`:
/// inside, at the edge, extreme, or such that products wrap around.
fn value(n: usize, other: usize) -> usize {
    match weighted(&[30, 10, 8, 8, 10, 6]) {
        0 if n > 0 => choose(n),
        0 | 1 => n,
        2 => n.saturating_sub(1),
        3 => n.wrapping_add(1 + choose(3)),
        4 => pick(&EXTREMES),
        _ => {
            // i * other wraps around to something small
            let k = 1 + choose(3) as u128;
            let o = other.max(1) as u128;
            (((k << 64) / o) as u64 as usize).wrapping_add(choose(3))
        }
    }
}

fn build<E: El>() -> Sut<E> {
    let zst = size_of::<E>() == 0;
    let (mut nr, mut nc) = match weighted(&[40, 12, 6, 6, 8]) {
        0 => (range(1, 6), range(1, 6)),
        1 => (dim(), dim()),
        2 => (0, tame(pick(&EXTREMES))),
        3 => (tame(pick(&EXTREMES)), 0),
        _ if zst => {
            vast_run();
            match choose(6) {
            0 => (usize::MAX, 1),
            1 => (1, usize::MAX),
            2 => ((1 << 32) - 1, (1 << 32) + 1),
            3 => (usize::MAX / 3, 3),
            4 => (1 << 62, 3),
            _ => (2, 1 << 62),
            }
        }
        _ => (range(1, 3), range(1, 30)),
    };
    let n = nr * nc;
    let mut m = if zst {
        let mut v: Vec<E> = Vec::new();
        assert!(!std::mem::needs_drop::<E>());
        unsafe { v.set_len(n) };
        Matrix::from_row(v)
    } else {
        let v: Vec<E> = (0..n as u32).map(E::mk).collect();
        Matrix::from_row(v)
    };
    m.reshape((nr, nc)).unwrap();
    for _ in 0..choose(3) {
        match choose(if n > 2000 { 1 } else { 3 }) {
            0 => {
                m.switch_order_without_rearrangement();
                std::mem::swap(&mut nr, &mut nc);
            }
            1 => {
                m.switch_order();
            }
            _ => {
                m.transpose();
                std::mem::swap(&mut nr, &mut nc);
            }
        }
    }
    Sut::new(m)
}

fn c04(tier: Tier) {
    match choose(5) {
        0 => c04_e::<u32>(tier),
        1 => c04_e::<u8>(tier),
        2 => c04_e::<[u64; 3]>(tier),
        3 => c04_e::<String>(tier),
        _ => c04_e::<()>(tier),
    }
}

fn c04_e<E: El>(tier: Tier) {
    let mut s = build::<E>();
    note(|| s.desc());
    event(E::NAME, s.nr as u64, s.nc as u64);
    state(mix(s.nr as u64, mix(s.nc as u64, (s.m.order() == Order::RowMajor) as u64)));
    count("nontrivial", 1);
    let steps = range(1, if cfg!(miri) { 6 } else if tier == Tier::Thorough { 60 } else { 30 });
    for _ in 0..steps {
        match weighted(&[10, 12, 1, 2, 3]) {
            0 => {
                let (r, c) = (value(s.nr, s.nc), value(s.nc, s.nr));
                note(|| format!("  honest ({r}, {c})"));
                match choose(4) {
                    0 => s.honest("tuple", r, c, || (r, c)),
                    1 => s.honest("array", r, c, || [r, c]),
                    2 => s.honest("Index", r, c, || Index::new(r, c)),
                    _ => s.honest("caller-defined", r, c, || Honest { row: r, col: c }),
                }
            }
            1 => {
                let (nr, nc) = (s.nr, s.nc);
                let script = |n: usize, o: usize| -> Vec<usize> {
                    match choose(4) {
                        // good first, then bad
                        0 if n > 0 => vec![choose(n), value(n, o)],
                        // bad first, then good
                        1 if n > 0 => vec![value(n, o), choose(n)],
                        // wandering within bounds
                        2 if n > 0 => (0..range(2, 4)).map(|_| choose(n)).collect(),
                        _ => (0..range(1, 4)).map(|_| value(n, o)).collect(),
                    }
                };
                let p = Party { rows: script(nr, nc), cols: script(nc, nr), ..Party::default() };
                note(|| format!("  script rows {:?}, cols {:?}", p.rows, p.cols));
                s.dishonest(&p);
            }
            2 if s.nr < 9 && s.nc < 9 => {
                // everything near the matrix
                for r in 0..s.nr + 2 {
                    for c in 0..s.nc + 2 {
                        let got = attempt(|| s.m.get((r, c)).map(|e| e as *const E as usize));
                        let got = s.unpanic("get", got, false);
                        s.judge("get", &got, &[r], &[c]);
                        let got = attempt(|| s.m.get_mut([r, c]).map(|e| e as *mut E as usize));
                        let got = s.unpanic("get_mut", got, false);
                        s.judge("get_mut", &got, &[r], &[c]);
                        let got = attempt(|| Ok(&s.m[Index::new(r, c)] as *const E as usize));
                        let got = s.unpanic("[]", got, true);
                        s.judge("[]", &got, &[r], &[c]);
                        let got = attempt(|| Ok(&mut s.m[(r, c)] as *mut E as usize));
                        let got = s.unpanic("[] mut", got, true);
                        s.judge("[] mut", &got, &[r], &[c]);
                    }
                }
                count("grids", 1);
            }
            3 => {
                // the flattened number of a valid element, dressed up
                let n = s.nr.saturating_mul(s.nc);
                let k = choose(n.clamp(1, 1000));
                for (r, c) in [(0, k), (k, 0)] {
                    let got = attempt(|| s.m.get((r, c)).map(|e| e as *const E as usize));
                    let got = s.unpanic("get", got, false);
                    s.judge("get", &got, &[r], &[c]);
                }
            }
            _ => {
                // swapping through lying indices stays inside the matrix
                if s.at.is_empty() || s.at.len() > 200 {
                    continue;
                }
                let mut party = || Party {
                    rows: (0..range(1, 3)).map(|_| value(s.nr, s.nc)).collect(),
                    cols: (0..range(1, 3)).map(|_| value(s.nc, s.nr)).collect(),
                    ..Party::default()
                };
                let (p, q) = (party(), party());
                let mut before: Vec<u32> = s.m.iter_elements().map(E::v).collect();
                let out = attempt(|| s.m.swap(&p, &q).map(|_| ()));
                match out {
                    Ok(_) => {}
                    Err(e) => violate("unexpected-panic", &format!("swap on {}: {}", s.desc(), payload_str(&*e))),
                }
                let mut after: Vec<u32> = s.m.iter_elements().take(before.len() + 1).map(E::v).collect();
                before.sort_unstable();
                after.sort_unstable();
                ensure(before == after, "wrong-contents", || format!("swap with lying indices on {} lost an element", s.desc()));
                event("swap", 0, 0);
            }
        }
        stop_if_violated();
    }
}

fn main() {
    runner::main(&[Prop { id: "C04", scenario: c04, enumerate_faults: false }]);
}
