//! C19: row sources of every kind, well-behaved or not, against every way of
//! building a matrix.

use matreex::error::Error;
use matreex::index::Index;
use matreex::shape::Shape;
use matreex::{Matrix, Order, col_vec, matrix, row_vec};
use matsim::elem::{self, *};
use matsim::gen_::*;
use matsim::runner::{self, Prop, Tier};
use simrt::*;
use std::any::Any;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{LinkedList, VecDeque};

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

type Out<E> = Result<Result<Matrix<E>, Error>, Box<dyn Any + Send>>;

/// What the call must come to.
enum Want {
    /// The matrix with these logical rows; the number of columns, where there
    /// are no rows to show it.
    Rows(Vec<Vec<u64>>, Option<usize>),
    Ragged,
    RaggedPanic,
    /// Refused (with an error or a panic), whatever the kind.
    Refused,
}

fn norm<E: Elem>(rows: &[Vec<u64>]) -> Vec<Vec<u64>> {
    rows.iter().map(|r| r.iter().map(|v| E::norm(*v)).collect()).collect()
}

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s }
}

/// Judges an outcome. `live`: tracked elements alive before the input was made;
/// `lent`: elements of the input still alive because they were only lent.
fn judge<E: Elem>(what: &str, out: Out<E>, want: Want, live: usize, lent: usize, row_major: bool) {
    match (out, want) {
        (Ok(Ok(m)), Want::Rows(rows, nc)) => {
            let rows = norm::<E>(&rows);
            let ncols = rows.first().map(|r| r.len()).or(nc);
            let size = rows.iter().map(|r| r.len()).sum::<usize>();
            ensure(m.nrows() == rows.len() && ncols.is_none_or(|c| m.ncols() == c), "wrong-shape", || {
                format!("{what}: given {} rows of {:?}, built {}x{}", rows.len(), ncols, m.nrows(), m.ncols())
            });
            let mem: Vec<u64> = m.iter_elements().take(size + 5).map(|e| e.val()).collect();
            ensure(m.size() == size && mem.len() == size, "wrong-size", || {
                format!("{what}: given {size} elements, built {}x{} with size() {} and {} elements in memory", m.nrows(), m.ncols(), m.size(), mem.len())
            });
            stop_if_violated();
            let (nr, nc) = (m.nrows(), m.ncols());
            let mut got = vec![];
            if nc > 0 {
                for r in 0..nr {
                    got.push((0..nc).map(|c| match m.order() {
                        Order::RowMajor => mem[r * nc + c],
                        Order::ColMajor => mem[c * nr + r],
                    }).collect::<Vec<_>>());
                }
                ensure(got == rows, "wrong-contents", || format!("{what}: given {}, built {}", short(&rows), short(&got)));
            }
            if row_major {
                ensure(m.order() == Order::RowMajor, "wrong-order", || format!("{what}: built {:?}", m.order()));
            }
            ledger::<E>(what, live + lent + size, "is alive");
            drop(m);
            ledger::<E>(what, live + lent, "was dropped");
        }
        (Ok(Err(e)), Want::Ragged) => {
            ensure(e == Error::LengthInconsistent, "wrong-error", || format!("{what}: ragged rows were rejected with {e:?}"));
            ledger::<E>(what, live + lent, "was rejected");
        }
        (Err(_), Want::RaggedPanic) | (Err(_) | Ok(Err(_)), Want::Refused) => ledger::<E>(what, live + lent, "was rejected"),
        (Ok(Ok(m)), Want::Ragged | Want::RaggedPanic) => {
            violate("ragged-accepted", &format!("{what}: accepted as {}x{} with {} elements", m.nrows(), m.ncols(), m.iter_elements().count()));
        }
        (Ok(Ok(m)), Want::Refused) => {
            violate("impossible-accepted", &format!("{what}: accepted as {}x{}", m.nrows(), m.ncols()));
            std::mem::forget(m);
        }
        (Ok(Err(e)), Want::Rows(..)) => violate("wrongly-rejected", &format!("{what}: rejected with {e:?}")),
        (Ok(Err(e)), Want::RaggedPanic) => violate("wrong-error", &format!("{what}: returned {e:?}")),
        (Err(p), Want::Rows(..) | Want::Ragged) => violate("panicked", &format!("{what}: panicked: {}", payload_str(&*p))),
    }
    stop_if_violated();
}

fn ledger<E: Elem>(what: &str, want: usize, when: &str) {
    if E::TRACKED {
        let n = elem::live();
        ensure(n == want, if n > want { "leak" } else { "lost-elements" }, || {
            format!("{what}: after the matrix {when}, {n} elements are alive instead of {want}")
        });
        stop_if_violated();
    }
}

// ------------------------------------------------------------------ the input

/// Rows of fresh values; `Some` position of raggedness is only for the trace.
fn plan(counter: &mut u64, tier: Tier, max_rows: usize) -> Vec<Vec<u64>> {
    let big = if tier == Tier::Thorough { 90 } else { 40 };
    let nr = match weighted(&[20, 2, 3, 3]) {
        0 => range(1, 6),
        1 => 0,
        2 => 1,
        _ => range(2, big),
    }
    .min(max_rows);
    let nc = match weighted(&[20, 4, 4, 3, 1]) {
        0 => range(1, 6),
        1 => 0,
        2 => 1,
        3 => range(2, big),
        _ => range(100, 300),
    };
    let mut lens = vec![nc; nr];
    if nr > 1 && chance(1, 2) {
        let at = |k: usize| match k {
            0 => 0,
            1 => nr - 1,
            _ => choose(nr),
        };
        let other = |n: usize| match choose(7) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            2 => 0,
            3 => n * 2,
            4 => n / 2,
            5 => n + choose(nr + 2),
            _ => choose(n + 3),
        };
        match choose(6) {
            // one odd row
            0 | 1 => {
                let i = at(choose(4));
                lens[i] = other(nc);
            }
            // one row short and another longer by as much
            2 => {
                let (i, j) = (choose(nr), choose(nr));
                let d = range(0, nc);
                if i != j {
                    lens[i] -= d;
                    lens[j] += d;
                }
            }
            // the first row is what the others are not, with the same total
            3 => {
                let d = range(0, nc);
                lens[0] = nc - d;
                lens[nr - 1] += d;
            }
            // everything empty but one
            4 => {
                lens = vec![0; nr];
                lens[at(choose(4))] = nc.max(1);
            }
            // arbitrary
            _ => {
                for l in &mut lens {
                    *l = choose(nc + 2);
                }
            }
        }
        if lens.iter().any(|l| *l != lens[0]) {
            count("stream_ragged", 1);
        }
    }
    lens.into_iter()
        .map(|n| {
            (0..n)
                .map(|_| {
                    *counter += 1;
                    *counter
                })
                .collect()
        })
        .collect()
}

fn ragged(rows: &[Vec<u64>]) -> bool {
    rows.iter().any(|r| r.len() != rows[0].len())
}

fn lens(rows: &[Vec<u64>]) -> String {
    short(&rows.iter().map(|r| r.len()).collect::<Vec<_>>())
}

fn el<E: Elem>(r: &[u64]) -> Vec<E> {
    // spare capacity now and then
    let mut v = if choose(4) == 1 { Vec::with_capacity(r.len() + 7) } else { Vec::with_capacity(r.len()) };
    v.extend(r.iter().map(|x| E::make(*x)));
    v
}

fn arr<T, const C: usize>(v: Vec<T>) -> [T; C] {
    match v.try_into() {
        Ok(a) => a,
        Err(_) => panic!("harness: wrong length"),
    }
}

/// A row source: an iterator whose size hint may be vague or wrong (but never
/// so large that reserving for it could fail).
struct Stream<I: Iterator> {
    inner: I,
    hint: u8,
}
impl<I: Iterator> Stream<I> {
    fn new(inner: I) -> Self {
        let hint = choose(6) as u8;
        if hint > 1 {
            count("lie_size_hint", 1);
        }
        Stream { inner, hint }
    }
}
impl<I: Iterator> Iterator for Stream<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        cb("cb_row_source");
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.inner.size_hint();
        match self.hint {
            0 => (lo, hi),
            1 => (0, None),
            2 => (lo + 3, Some(lo + 3)),
            3 => (lo.saturating_sub(1), Some(lo.saturating_sub(1))),
            4 => (0, Some(0)),
            _ => (lo * 2 + 1, None),
        }
    }
}

// -------------------------------------------------------------------- scenario

fn from_nested<E: Elem>(counter: &mut u64, tier: Tier) {
    let live = elem::live();
    let how = choose(11);
    let rows = plan(counter, tier, if how == 3 { 6 } else { usize::MAX });
    let bad = ragged(&rows);
    let ctx = format!("rows of lengths {}", lens(&rows));
    let n = rows.iter().map(|r| r.len()).sum::<usize>();
    event("nested", how as u64, n as u64);
    count("nontrivial", (n > 1) as u64);
    let want = |panics: bool| match (bad, panics) {
        (false, _) => Want::Rows(rows.clone(), None),
        (true, false) => Want::Ragged,
        (true, true) => Want::RaggedPanic,
    };
    let log = |what: &str| {
        note(|| format!("{what}, {} {ctx}", E::NAME));
        format!("{what}, {ctx}")
    };
    macro_rules! sized {
        ($($n:literal)*) => {
            match rows.len() {
                $($n => attempt(|| Matrix::try_from(arr::<Vec<E>, $n>(rows.iter().map(|r| el(r)).collect()))),)*
                _ => unreachable!(),
            }
        };
    }
    match how {
        0 | 1 => {
            let what = log("TryFrom<Vec<Vec>>");
            let input: Vec<Vec<E>> = rows.iter().map(|r| el(r)).collect();
            judge::<E>(&what, attempt(|| Matrix::try_from(input)), want(false), live, 0, true);
        }
        2 => {
            let what = log("TryFrom<&[Vec]>");
            let input: Vec<Vec<E>> = rows.iter().map(|r| el(r)).collect();
            let r = attempt(|| Matrix::try_from(&input[..]));
            judge::<E>(&what, r, want(false), live, n, true);
            let after: Vec<Vec<u64>> = input.iter().map(|r| r.iter().map(|e| e.val()).collect()).collect();
            ensure(after == norm::<E>(&rows), "source-changed", || format!("{what}: the lent rows are now {}", short(&after)));
        }
        3 => {
            let what = log("TryFrom<[Vec; C]>");
            let r = sized!(0 1 2 3 4 5 6);
            judge::<E>(&what, r, want(false), live, 0, true);
        }
        4 => {
            let what = log("collect from Vec<Vec>");
            let input: Vec<Vec<E>> = rows.iter().map(|r| el(r)).collect();
            judge::<E>(&what, attempt(|| Ok(input.into_iter().collect::<Matrix<E>>())), want(true), live, 0, true);
        }
        5 => {
            let what = log("collect from slices, cloned");
            let input: Vec<Vec<E>> = rows.iter().map(|r| el(r)).collect();
            let r = attempt(|| Ok(input.iter().map(|r| r.iter().cloned()).collect::<Matrix<E>>()));
            judge::<E>(&what, r, want(true), live, n, true);
        }
        6 => {
            let what = log("collect from lists");
            let input: LinkedList<VecDeque<E>> = rows
                .iter()
                .map(|r| {
                    let mut d: VecDeque<E> = VecDeque::with_capacity(r.len());
                    let k = choose(r.len() + 1);
                    for v in r[..k].iter().rev() {
                        d.push_front(E::make(*v));
                    }
                    d.extend(r[k..].iter().map(|v| E::make(*v)));
                    d
                })
                .collect();
            judge::<E>(&what, attempt(|| Ok(Matrix::from_iter(input))), want(true), live, 0, true);
        }
        7 if rows.iter().all(|r| r.len() <= 1) => {
            let what = log("collect from options");
            let r = attempt(|| Ok(rows.iter().map(|r| r.first().map(|v| E::make(*v))).collect::<Matrix<E>>()));
            judge::<E>(&what, r, want(true), live, 0, true);
        }
        8 if rows.iter().all(|r| r.len() == 3) => {
            let what = log("collect from arrays");
            let r = attempt(|| Ok(rows.iter().map(|r| arr::<E, 3>(el(r))).collect::<Matrix<E>>()));
            judge::<E>(&what, r, want(true), live, 0, true);
        }
        _ => {
            // elements are made as they are asked for; hints cannot be trusted
            let what = log("collect from a stream of streams");
            let outer = Stream::new(rows.iter());
            let r = attempt(|| Ok(outer.map(|r| Stream::new(r.iter().map(|v| E::make(*v)))).collect::<Matrix<E>>()));
            judge::<E>(&what, r, want(true), live, 0, true);
        }
    }
}

fn from_arrays<E: Elem>(counter: &mut u64) {
    let live = elem::live();
    let which = choose(24);
    let how = choose(6);
    let mut fresh = |r: usize, c: usize| -> Vec<Vec<u64>> {
        (0..r).map(|_| (0..c).map(|_| { *counter += 1; *counter }).collect()).collect()
    };
    macro_rules! go {
        ($r:literal, $c:literal) => {{
            let rows = fresh($r, $c);
            let what = format!("{} of {}x{}", ["From<[[T; C]; R]>", "From<Vec<[T; C]>>", "From<&[[T; C]]>", "matrix! of rows", "From<[[T; C]; R]>", "matrix! of rows, borrowed slice"][how], $r, $c);
            event("arrays", how as u64, ($r * 100 + $c) as u64);
            count("nontrivial", ($r * $c > 1) as u64);
            note(|| format!("{what}, {}", E::NAME));
            let vecs: Vec<[E; $c]> = rows.iter().map(|r| arr::<E, $c>(el(r))).collect();
            let want = Want::Rows(rows, None);
            match how {
                0 | 3 | 4 => {
                    let a: [[E; $c]; $r] = arr(vecs);
                    judge::<E>(&what, attempt(|| Ok(Matrix::from(a))), want, live, 0, true);
                }
                1 => judge::<E>(&what, attempt(|| Ok(Matrix::from(vecs))), want, live, 0, true),
                _ => {
                    let r = attempt(|| Ok(Matrix::from(&vecs[..])));
                    judge::<E>(&what, r, want, live, $r * $c, true);
                }
            }
        }};
    }
    match which {
        0 => go!(2, 3), 1 => go!(1, 1), 2 => go!(3, 2), 3 => go!(1, 5), 4 => go!(5, 1), 5 => go!(2, 2),
        6 => go!(0, 3), 7 => go!(3, 0), 8 => go!(0, 0), 9 => go!(4, 4), 10 => go!(1, 0), 11 => go!(0, 1),
        12 => go!(3, 7), 13 => go!(7, 3), 14 => go!(2, 16), 15 => go!(16, 2), 16 => go!(1, 2), 17 => go!(2, 1),
        18 => go!(6, 5), 19 => go!(5, 6), 20 => go!(3, 4), 21 => go!(4, 3), 22 => go!(3, 3), _ => go!(8, 9),
    }
}

fn lines<E: Elem>(counter: &mut u64, tier: Tier) {
    let live = elem::live();
    let k = if tier == Tier::Thorough { 2000 } else { 300 };
    let n = match weighted(&[12, 1, 2, 2]) {
        0 => range(1, 8),
        1 => 0,
        2 => 1,
        _ => range(2, k),
    };
    let vals: Vec<u64> = (0..n).map(|_| { *counter += 1; *counter }).collect();
    let col = chance(1, 2);
    let how = choose(9);
    let rows: Vec<Vec<u64>> = if col { vals.iter().map(|v| vec![*v]).collect() } else { vec![vals.clone()] };
    let what = format!("{} of {n} elements", if col { "from_col" } else { "from_row" });
    note(|| format!("{what}, {}, source {how}", E::NAME));
    event("line", how as u64 * 2 + col as u64, n as u64);
    count("nontrivial", (n > 1) as u64);
    // no rows, one column / one row, no columns: the extents are documented
    let want = Want::Rows(rows, Some(1));
    macro_rules! line {
        ($src:expr, $lent:expr) => {{
            let src = $src;
            let r = attempt(|| Ok(if col { Matrix::from_col(src) } else { Matrix::from_row(src) }));
            judge::<E>(&what, r, want, live, $lent, false);
        }};
    }
    match how {
        0 | 1 => line!(el::<E>(&vals), 0),
        2 => line!(el::<E>(&vals).into_boxed_slice(), 0),
        3 => {
            let mut d: VecDeque<E> = VecDeque::with_capacity(n);
            let k = choose(n + 1);
            for v in vals[..k].iter().rev() {
                d.push_front(E::make(*v));
            }
            d.extend(vals[k..].iter().map(|v| E::make(*v)));
            line!(d, 0)
        }
        4 => {
            let v = el::<E>(&vals);
            line!(&v[..], n)
        }
        5 => {
            let v = el::<E>(&vals);
            line!(Cow::Borrowed(&v[..]), n)
        }
        6 => line!(Cow::<[E]>::Owned(el::<E>(&vals)), 0),
        7 if n == 3 => line!(arr::<E, 3>(el(&vals)), 0),
        8 if n == 1 => line!([E::make(vals[0])], 0),
        _ => line!(el::<E>(&vals), 0),
    }
}

/// A caller's own shape type.
struct Own(usize, usize);
impl From<Own> for Shape {
    fn from(o: Own) -> Shape {
        Shape::new(o.0, o.1)
    }
}

fn fill<E: Elem>(counter: &mut u64, tier: Tier) {
    let live = elem::live();
    let k = if tier == Tier::Thorough { 60 } else { 30 };
    let (nr, nc) = match weighted(&[10, 4, 2]) {
        0 => shape(),
        1 => (range(1, k), range(1, k)),
        _ => if chance(1, 2) { (range(1, 400), range(0, 2)) } else { (range(0, 2), range(1, 400)) },
    };
    let how = choose(4);
    let form = choose(4);
    *counter += 1;
    let v = *counter;
    let what = format!("{} of {nr}x{nc}", ["with_initializer", "with_initializer", "with_value", "with_default"][how]);
    note(|| format!("{what}, {}", E::NAME));
    event("fill", how as u64 * 4 + form as u64, (nr * 1000 + nc) as u64);
    count("nontrivial", (nr * nc > 1) as u64);
    macro_rules! with {
        ($s:ident => $call:expr) => {
            match form {
                0 => { let $s = (nr, nc); attempt(|| $call) }
                1 => { let $s = Shape::new(nr, nc); attempt(|| $call) }
                2 => { let $s = [nr, nc]; attempt(|| $call) }
                _ => { let $s = Own(nr, nc); attempt(|| $call) }
            }
        };
    }
    let uniform = |v: u64| Want::Rows(vec![vec![v; nc]; nr], Some(nc));
    match how {
        0 | 1 => {
            let log: RefCell<Vec<(usize, usize, u64)>> = RefCell::new(vec![]);
            let next = Cell::new(v);
            let init = |ix: Index| {
                cb("cb_initializer");
                // fresh at every call, so the call decides the value, not the position
                let v = next.get();
                next.set(v + 1);
                {
                    let _p = heap::Pause::new();
                    log.borrow_mut().push((ix.row, ix.col, v));
                }
                if log.borrow().len() > nr * nc + 64 {
                    panic!("more calls than positions");
                }
                E::make(v)
            };
            let out = with!(s => Matrix::with_initializer(s, init));
            *counter = next.get();
            let log = log.into_inner();
            let mut at = vec![vec![None; nc]; nr];
            for &(r, c, v) in &log {
                let ok = r < nr && c < nc && at[r][c].is_none();
                ensure(ok, "initializer-calls", || {
                    format!("{what}: called for ({r}, {c}) {}", if r < nr && c < nc { "twice" } else { "out of bounds" })
                });
                stop_if_violated();
                at[r][c] = Some(v);
            }
            ensure(log.len() == nr * nc, "initializer-calls", || format!("{what}: called {} times for {} positions", log.len(), nr * nc));
            stop_if_violated();
            let rows = at.into_iter().map(|r| r.into_iter().map(|v| v.unwrap()).collect()).collect();
            judge::<E>(&what, out, Want::Rows(rows, Some(nc)), live, 0, false);
        }
        2 => {
            let value = E::make(v);
            let out = with!(s => Matrix::with_value(s, value));
            judge::<E>(&what, out, uniform(v), live, 0, false);
        }
        _ => {
            let out = with!(s => Matrix::with_default(s));
            judge::<E>(&what, out, uniform(0), live, 0, false);
        }
    }
}

fn macros<E: Elem>(counter: &mut u64) {
    let live = elem::live();
    let next = Cell::new(*counter);
    let x = || {
        cb("cb_macro_expr");
        next.set(next.get() + 1);
        E::make(next.get())
    };
    let b = *counter;
    let seq = |r: usize, c: usize| -> Vec<Vec<u64>> { (0..r).map(|i| (0..c).map(|j| b + 1 + (i * c + j) as u64).collect()).collect() };
    let n = range(0, 9);
    let k = range(0, 9);
    let which = choose(23);
    event("macro", which as u64, (n * 10 + k) as u64);
    count("nontrivial", 1);
    let (what, out, want): (&str, Out<E>, Want) = match which {
        0 => ("matrix![[x; k]; n]", attempt(|| Ok(matrix![[x(); k]; n])), Want::Rows(vec![vec![b + 1; k]; n], Some(k))),
        1 => ("matrix![[x, x, x]; n]", attempt(|| Ok(matrix![[x(), x(), x()]; n])), Want::Rows(vec![vec![b + 1, b + 2, b + 3]; n], None)),
        2 => ("matrix![[x]; n]", attempt(|| Ok(matrix![[x()]; n])), Want::Rows(vec![vec![b + 1]; n], None)),
        3 => ("matrix![]", attempt(|| Ok(matrix![])), Want::Rows(vec![], Some(0))),
        4 => ("matrix! 1x1", attempt(|| Ok(matrix![[x()]])), Want::Rows(seq(1, 1), None)),
        5 => ("matrix! 2x3", attempt(|| Ok(matrix![[x(), x(), x()], [x(), x(), x()]])), Want::Rows(seq(2, 3), None)),
        6 => ("matrix! 3x2,", attempt(|| Ok(matrix![[x(), x(),], [x(), x(),], [x(), x(),],])), Want::Rows(seq(3, 2), None)),
        7 => ("matrix! 1x4", attempt(|| Ok(matrix![[x(), x(), x(), x()]])), Want::Rows(seq(1, 4), None)),
        8 => ("matrix! 4x1", attempt(|| Ok(matrix![[x()], [x()], [x()], [x()]])), Want::Rows(seq(4, 1), None)),
        9 => ("matrix! of empty rows", attempt(|| Ok(matrix![[], [], []])), Want::Rows(vec![vec![]; 3], None)),
        10 => ("matrix! 3x3", attempt(|| Ok(matrix![[x(), x(), x()], [x(), x(), x()], [x(), x(), x()]])), Want::Rows(seq(3, 3), None)),
        11 => ("row_vec![]", attempt(|| Ok({ let m = row_vec![]; m })), Want::Rows(vec![vec![]], None)),
        12 => ("row_vec![x; n]", attempt(|| Ok(row_vec![x(); n])), Want::Rows(vec![vec![b + 1; n]], None)),
        13 => ("row_vec![x, x, x]", attempt(|| Ok(row_vec![x(), x(), x()])), Want::Rows(seq(1, 3), None)),
        14 => ("row_vec![x,]", attempt(|| Ok(row_vec![x(),])), Want::Rows(seq(1, 1), None)),
        15 => ("col_vec![]", attempt(|| Ok({ let m = col_vec![]; m })), Want::Rows(vec![], Some(1))),
        16 => ("col_vec![x; n]", attempt(|| Ok(col_vec![x(); n])), Want::Rows(vec![vec![b + 1]; n], Some(1))),
        17 => ("col_vec![x, x, x]", attempt(|| Ok(col_vec![x(), x(), x()])), Want::Rows(seq(3, 1), None)),
        18 => ("col_vec![x,]", attempt(|| Ok(col_vec![x(),])), Want::Rows(seq(1, 1), None)),
        19 => {
            let rows = [[x(), x()], [x(), x()]];
            let [r0, r1] = rows;
            ("matrix! of row variables", attempt(|| Ok(matrix![r0, r1])), Want::Rows(seq(2, 2), None))
        }
        20 => ("matrix! whose size overflows", attempt(|| Ok(matrix![[x(); usize::MAX]; n + 2])), Want::Refused),
        21 if size_of::<E>() > 0 => ("matrix! whose capacity overflows", attempt(|| Ok(matrix![[x(); isize::MAX as usize]; n + 2])), Want::Refused),
        _ => ("matrix! 2x5", attempt(|| Ok(matrix![[x(), x(), x(), x(), x()], [x(), x(), x(), x(), x()]])), Want::Rows(seq(2, 5), None)),
    };
    note(|| format!("{what}, n = {n}, k = {k}, {}", E::NAME));
    // a row repeated no times has no rows; its own elements are gone
    *counter = next.get();
    judge::<E>(&format!("{what} (n = {n}, k = {k})"), out, want, live, 0, false);
}

fn go<E: Elem>(tier: Tier) {
    let mut counter = 0u64;
    for _ in 0..range(1, if tier == Tier::Thorough { 20 } else { 8 }) {
        match weighted(&[12, 4, 3, 5, 4]) {
            0 => from_nested::<E>(&mut counter, tier),
            1 => from_arrays::<E>(&mut counter),
            2 => lines::<E>(&mut counter, tier),
            3 => fill::<E>(&mut counter, tier),
            _ => macros::<E>(&mut counter),
        }
        stop_if_violated();
        state(mix(elem::born(), elem::died()));
    }
    ledger::<E>("the whole run", 0, "was dropped");
}

fn c19(tier: Tier) {
    match weighted(&[8, 4, 4, 4, 2, 3, 2]) {
        0 => go::<T24>(tier),
        1 => go::<T4>(tier),
        2 => go::<TBox>(tier),
        3 => go::<P8>(tier),
        4 => go::<B1>(tier),
        5 => go::<Z>(tier),
        _ => go::<T128>(tier),
    }
}

fn main() {
    runner::main(&[Prop { id: "C19", scenario: c19, enumerate_faults: false }]);
}
