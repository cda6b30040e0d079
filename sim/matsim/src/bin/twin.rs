//! C07: storage order is transparent.
//!
//! Two worlds run the same program. In world A every matrix is row-major; in
//! world B a nemesis re-lays every operand at arbitrary points. The worlds are
//! compared after every step: results, errors, panics, texts and contents.

use matreex::error::Error;
use matreex::index::{Index, WrappingIndex};
use matreex::{Matrix, Order};
use matsim::gen_::*;
use matsim::runner::{self, Prop, Tier};
use simrt::*;
use std::fmt::{Debug, Display};
use std::ops::*;

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

trait El:
    Clone
    + Default
    + PartialEq
    + Debug
    + Display
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Rem<Output = Self>
    + Neg<Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
    + 'static
{
    const NAME: &'static str;
    fn mk(v: i64) -> Self;
    fn n(&self) -> i64;
    /// `==` of this type, for the oracle.
    fn same(a: i64, b: i64) -> bool {
        a == b
    }
}

fn f_add(a: i64, b: i64) -> i64 {
    a.wrapping_add(b)
}
fn f_sub(a: i64, b: i64) -> i64 {
    a.wrapping_sub(b)
}
fn f_mul(a: i64, b: i64) -> i64 {
    // not commutative
    a.wrapping_mul(3).wrapping_add(7).wrapping_mul(b.wrapping_mul(5).wrapping_add(11))
}
fn f_div(a: i64, b: i64) -> i64 {
    a.wrapping_mul(31).wrapping_sub(b.wrapping_mul(17)).wrapping_add(1)
}
fn f_rem(a: i64, b: i64) -> i64 {
    a.wrapping_mul(13) ^ b.wrapping_mul(29)
}

macro_rules! arith {
    ($t:ty) => {
        arith!(@ $t, Add, add, AddAssign, add_assign, f_add);
        arith!(@ $t, Sub, sub, SubAssign, sub_assign, f_sub);
        arith!(@ $t, Mul, mul, MulAssign, mul_assign, f_mul);
        arith!(@ $t, Div, div, DivAssign, div_assign, f_div);
        arith!(@ $t, Rem, rem, RemAssign, rem_assign, f_rem);
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                <$t>::mk(self.n().wrapping_neg())
            }
        }
        impl Default for $t {
            fn default() -> $t {
                <$t>::mk(0)
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.n())
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                <$t>::same(self.n(), o.n())
            }
        }
    };
    (@ $t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident, $v:ident) => {
        impl $tr for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                <$t>::mk($v(self.n(), o.n()))
            }
        }
        impl $tra for $t {
            fn $fa(&mut self, o: $t) {
                *self = <$t>::mk($v(self.n(), o.n()));
            }
        }
    };
}

#[derive(Clone)]
struct W(i64);
impl El for W {
    const NAME: &'static str = "W";
    fn mk(v: i64) -> Self {
        W(v)
    }
    fn n(&self) -> i64 {
        self.0
    }
}
arith!(W);
impl Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// One byte.
#[derive(Clone)]
struct B(u8);
impl El for B {
    const NAME: &'static str = "B";
    fn mk(v: i64) -> Self {
        B(v as u8)
    }
    fn n(&self) -> i64 {
        self.0 as i64
    }
}
arith!(B);
impl Display for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// Owned, with renderings of all widths and heights.
#[derive(Clone)]
struct S(Box<i64>);
impl El for S {
    const NAME: &'static str = "S";
    fn mk(v: i64) -> Self {
        S(Box::new(v))
    }
    fn n(&self) -> i64 {
        *self.0
    }
}
arith!(S);
impl Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.n().rem_euclid(7) {
            0 => Ok(()),
            1 => write!(f, "äöü{}", self.0),
            2 => write!(f, "{}\n{}", self.0, self.n() % 10),
            _ => write!(f, "{}", self.0),
        }
    }
}

/// A type whose `==` is not reflexive everywhere, and equates different values.
#[derive(Clone)]
struct N(i64);
impl El for N {
    const NAME: &'static str = "N";
    fn mk(v: i64) -> Self {
        N(v)
    }
    fn n(&self) -> i64 {
        self.0
    }
    fn same(a: i64, b: i64) -> bool {
        if a.rem_euclid(19) == 3 || b.rem_euclid(19) == 3 {
            return false;
        }
        a.rem_euclid(16) == b.rem_euclid(16)
    }
}
arith!(N);
impl Display for N {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// What an operation did, apart from changing its operands.
#[derive(PartialEq, Debug)]
enum Out {
    Done,
    Val(Vec<i64>),
    Text(String),
    Err(Error),
    Panic(String),
    Made(usize),
}

struct Pair<T> {
    a: Matrix<T>,
    b: Matrix<T>,
}

fn reorder<T>(m: &mut Matrix<T>) {
    match choose(4) {
        0 => {
            m.switch_order();
        }
        1 => {
            m.set_order(Order::ColMajor);
        }
        2 => {
            m.set_order(Order::RowMajor);
        }
        _ => {
            m.switch_order_without_rearrangement();
            m.transpose();
        }
    }
    event("reorder", (m.order() == Order::ColMajor) as u64, 0);
}

fn logical<T: El>(m: &Matrix<T>) -> Option<(usize, usize, Vec<i64>)> {
    let (r, c) = (m.nrows(), m.ncols());
    let mut v = vec![];
    for i in 0..r {
        for j in 0..c {
            match m.get((i, j)) {
                Ok(x) => v.push(x.n()),
                Err(_) => return None,
            }
        }
        if c == 0 {
            break;
        }
    }
    Some((r, c, v))
}

fn guard(f: impl FnOnce() -> Out) -> Out {
    match attempt(f) {
        Ok(o) => o,
        Err(p) => Out::Panic(payload_str(&*p)),
    }
}

fn res<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Out) -> Out {
    match r {
        Ok(x) => f(x),
        Err(e) => Out::Err(e),
    }
}

struct Twin<T> {
    ps: Vec<Pair<T>>,
    next: i64,
    spread: i64,
}

/// A pure, seeded, non-commutative function.
fn h(k: i64, a: i64, b: i64) -> i64 {
    (mix(mix(k as u64, a as u64), b as u64) % 2000) as i64 - 1000
}

impl<T: El> Twin<T> {
    fn val(&mut self) -> i64 {
        self.next += 1;
        if self.spread > 0 { choose(self.spread as usize) as i64 - self.spread / 3 } else { self.next * 7 }
    }

    fn rows(&mut self, nr: usize, nc: usize) -> Vec<Vec<i64>> {
        (0..nr).map(|_| (0..nc).map(|_| self.val()).collect()).collect()
    }

    /// Builds the same logical matrix twice, by different routes.
    fn build(&mut self, rows: &[Vec<i64>], nr: usize, nc: usize) {
        let flat = |f: &dyn Fn(usize) -> (usize, usize), n: usize| -> Vec<T> {
            (0..n)
                .map(|k| {
                    let (r, c) = f(k);
                    T::mk(rows[r][c])
                })
                .collect()
        };
        let n = nr * nc;
        let mut a = Matrix::from_row(flat(&|k| (k / nc.max(1), k % nc.max(1)), n));
        a.reshape((nr, nc)).unwrap();
        let mut b;
        match choose(3) {
            0 => {
                b = Matrix::from_row(flat(&|k| (k / nc.max(1), k % nc.max(1)), n));
                b.reshape((nr, nc)).unwrap();
            }
            1 => {
                // column by column, then presented the other way
                b = Matrix::from_row(flat(&|k| (k % nr.max(1), k / nr.max(1)), n));
                b.reshape((nc, nr)).unwrap();
                b.switch_order_without_rearrangement();
            }
            _ => {
                b = Matrix::from_row(flat(&|k| (k % nr.max(1), k / nr.max(1)), n));
                b.reshape((nc, nr)).unwrap();
                b.transpose();
            }
        }
        if choose(2) == 1 {
            reorder(&mut b);
        }
        note(|| format!("m{}: {nr}x{nc}, B is {:?}", self.ps.len(), b.order()));
        self.ps.push(Pair { a, b });
        self.compare(self.ps.len() - 1, "build");
    }

    fn fresh(&mut self) {
        let (nr, nc) = match weighted(&[16, 2, 2]) {
            0 => shape(),
            1 => (range(1, 40), range(1, 40)),
            _ => {
                let n = range(1, 24);
                (n, n)
            }
        };
        let rows = self.rows(nr, nc);
        self.build(&rows, nr, nc);
    }

    fn compare(&self, i: usize, what: &str) {
        let p = &self.ps[i];
        let (la, lb) = (logical(&p.a), logical(&p.b));
        if la.is_none() || lb.is_none() {
            violate("unreadable", &format!("after {what}: a position within bounds of m{i} cannot be read"));
        } else if la != lb {
            violate(
                "contents-depend-on-order",
                &format!("after {what}: m{i} is {la:?} when stored row-major and {lb:?} stored {:?}", p.b.order()),
            );
        }
        stop_if_violated();
        let (_, _, v) = la.unwrap();
        state(v.iter().fold(mix(p.a.nrows() as u64, (p.b.order() == Order::ColMajor) as u64), |s, x| mix(s, *x as u64)));
    }

    fn equality(&self, x: &Matrix<T>, y: &Matrix<T>, what: &str) {
        let (Some(a), Some(b)) = (logical(x), logical(y)) else {
            violate("unreadable", what);
            return;
        };
        let want = a.0 == b.0 && a.1 == b.1 && a.2.iter().zip(&b.2).all(|(p, q)| T::same(*p, *q));
        let got = attempt(|| (x == y, y == x, x != y));
        event("eq", want as u64, (x.order() != y.order()) as u64);
        count(if want { "equal_pairs" } else { "unequal_pairs" }, 1);
        match got {
            Ok((e, s, ne)) => {
                ensure(e == want && s == want && ne == !want, "equality", || {
                    format!(
                        "{what}: {}x{} {:?} {:?} against {}x{} {:?} {:?}: == says {e}, reversed {s}, != {ne}; the elements say {want}",
                        a.0, a.1, x.order(), a.2, b.0, b.1, y.order(), b.2
                    )
                });
            }
            Err(p) => violate("unexpected-panic", &format!("{what}: == panicked: {}", payload_str(&*p))),
        }
        stop_if_violated();
    }

    fn outs(&self, what: &str, a: Out, b: Out) -> bool {
        note(|| {
            let s = format!("{a:?}");
            format!("  {what}: {}", s.chars().take(70).collect::<String>())
        });
        event(
            "out",
            hash_str(what),
            match &a {
                Out::Done => 0,
                Out::Val(v) => v.len() as u64,
                Out::Text(t) => hash_str(t),
                Out::Err(_) => 1 << 40,
                Out::Panic(_) => 2 << 40,
                Out::Made(_) => 3 << 40,
            },
        );
        if matches!(a, Out::Err(_) | Out::Panic(_)) {
            count("errors_compared", 1);
        }
        if a != b {
            violate(
                match (&a, &b) {
                    (Out::Text(_), Out::Text(_)) => "text-depends-on-order",
                    (Out::Err(_), Out::Err(_)) => "error-depends-on-order",
                    _ => "result-depends-on-order",
                },
                &format!("{what}: {a:?} on row-major operands, {b:?} on operands stored otherwise"),
            );
        }
        stop_if_violated();
        matches!(a, Out::Made(_) | Out::Done)
    }

    /// Adds the results of both worlds.
    fn made(&mut self, what: &str, left: usize, a: Option<Matrix<T>>, b: Option<Matrix<T>>, left_orders: (Order, Order)) {
        let _ = left;
        let (Some(a), Some(b)) = (a, b) else { return };
        for (m, o, w) in [(&a, left_orders.0, "row-major"), (&b, left_orders.1, "re-laid")] {
            ensure(m.order() == o, "result-order", || {
                format!("{what}: the left operand of the {w} world is stored {o:?}, its result {:?}", m.order())
            });
        }
        stop_if_violated();
        self.ps.push(Pair { a, b });
        self.compare(self.ps.len() - 1, what);
        while self.ps.len() > 4 {
            self.ps.remove(choose(self.ps.len() - 1));
        }
    }

    fn nemesis(&mut self) {
        for i in 0..self.ps.len() {
            if chance(1, 4) {
                reorder(&mut self.ps[i].b);
                count("nemesis_reorders", 1);
                note(|| format!("  nemesis: m{i} of B is now {:?}", self.ps[i].b.order()));
            }
        }
    }

    /// Two operand numbers, mostly of the same shape.
    fn two(&mut self) -> (usize, usize) {
        let i = choose(self.ps.len());
        let (nr, nc) = (self.ps[i].a.nrows(), self.ps[i].a.ncols());
        if chance(3, 4) {
            let same: Vec<usize> = (0..self.ps.len())
                .filter(|j| *j != i && self.ps[*j].a.nrows() == nr && self.ps[*j].a.ncols() == nc)
                .collect();
            if same.is_empty() {
                let rows = self.rows(nr, nc);
                self.build(&rows, nr, nc);
                return (i, self.ps.len() - 1);
            }
            return (i, pick(&same));
        }
        if chance(1, 3) {
            // same size, other shape
            let rows = self.rows(nc, nr);
            self.build(&rows, nc, nr);
            return (i, self.ps.len() - 1);
        }
        (i, choose(self.ps.len()))
    }

    fn step(&mut self) {
        match weighted(&[8, 8, 10, 10, 8, 12, 10, 12, 8, 6, 8, 8]) {
            0 => self.read(),
            1 => self.views(),
            2 => self.swaps(),
            3 => self.overwrite(),
            4 => self.transpose(),
            5 => self.elementwise(),
            6 => self.named_elementwise(),
            7 => self.product(),
            8 => self.scalar(),
            9 => self.mapping(),
            10 => self.eqs(),
            _ => self.text(),
        }
    }

    fn read(&mut self) {
        let i = choose(self.ps.len());
        let p = &mut self.ps[i];
        let (nr, nc) = (p.a.nrows(), p.a.ncols());
        let (r, c) = (index_near(nr, 8), index_near(nc, 8));
        let how = choose(6);
        let v = choose(500) as i64;
        let f = |m: &mut Matrix<T>| {
            guard(|| match how {
                0 => res(m.get((r, c)), |e| Out::Val(vec![e.n()])),
                1 => Out::Val(vec![m[[r, c]].n()]),
                2 => res(m.get_mut(Index::new(r, c)), |e| {
                    *e = T::mk(v);
                    Out::Done
                }),
                3 => {
                    m[(r, c)] = T::mk(v);
                    Out::Done
                }
                4 => res(m.get(WrappingIndex::new(r as isize - 3, (c as isize).wrapping_neg())), |e| Out::Val(vec![e.n()])),
                _ => Out::Val(vec![
                    m.size() as i64,
                    m.is_empty() as i64,
                    m.is_square() as i64,
                    m.contains(&T::mk(v)) as i64,
                    m.ensure_square().is_ok() as i64,
                ]),
            })
        };
        let what = ["get", "[]", "get_mut", "[] assignment", "get(WrappingIndex)", "size/is_empty/is_square/contains"][how];
        let (x, y) = (f(&mut p.a), f(&mut p.b));
        note(|| format!("{what} m{i} ({r}, {c})"));
        self.outs(what, x, y);
        self.compare(i, what);
    }

    fn views(&mut self) {
        let i = choose(self.ps.len());
        let p = &mut self.ps[i];
        let (nr, nc) = (p.a.nrows(), p.a.ncols());
        let how = choose(12);
        let rev = choose(2) == 1;
        let n = if how % 2 == 0 { index_near(nr, 8) } else { index_near(nc, 8) };
        let k = choose(100) as i64;
        const SEP: i64 = i64::MIN;
        fn line<'a, T: El>(out: &mut Vec<i64>, it: impl DoubleEndedIterator<Item = &'a T>, rev: bool) {
            out.push(SEP);
            if rev { out.extend(it.rev().map(T::n)) } else { out.extend(it.map(T::n)) }
        }
        fn edit<'a, T: El>(j: usize, k: i64, it: impl DoubleEndedIterator<Item = &'a mut T>, rev: bool) {
            let f = |(x, e): (usize, &mut T)| *e = T::mk(h(k, j as i64, x as i64) + e.n() % 7);
            if rev { it.rev().enumerate().for_each(f) } else { it.enumerate().for_each(f) }
        }
        let cap = nr.max(nc) + 2;
        let f = |m: &mut Matrix<T>| {
            guard(|| {
                let mut v = vec![];
                match how {
                    0 => m.iter_rows().take(cap).for_each(|l| line(&mut v, l, rev)),
                    1 => m.iter_cols().take(cap).for_each(|l| line(&mut v, l, rev)),
                    2 => m.iter_rows().rev().take(cap).for_each(|l| line(&mut v, l, rev)),
                    3 => m.iter_cols().rev().take(cap).for_each(|l| line(&mut v, l, rev)),
                    4 => match m.iter_nth_row(n) {
                        Ok(l) => line(&mut v, l, rev),
                        Err(e) => return Out::Err(e),
                    },
                    5 => match m.iter_nth_col(n) {
                        Ok(l) => line(&mut v, l, rev),
                        Err(e) => return Out::Err(e),
                    },
                    6 => match m.iter_nth_row_mut(n) {
                        Ok(l) => edit(0, k, l, rev),
                        Err(e) => return Out::Err(e),
                    },
                    7 => match m.iter_nth_col_mut(n) {
                        Ok(l) => edit(0, k, l, rev),
                        Err(e) => return Out::Err(e),
                    },
                    8 => m.iter_rows_mut().take(cap).enumerate().for_each(|(j, l)| edit(j, k, l, rev)),
                    9 => m.iter_cols_mut().take(cap).enumerate().for_each(|(j, l)| edit(j, k, l, rev)),
                    10 => {
                        let mut x: Vec<(Index, i64)> =
                            m.iter_elements_with_index().take(cap * cap).map(|(ix, e)| (ix, e.n())).collect();
                        x.sort_by_key(|(ix, e)| (ix.row, ix.col, *e));
                        v.extend(x.iter().flat_map(|(ix, e)| [ix.row as i64, ix.col as i64, *e]));
                    }
                    _ => m
                        .iter_elements_mut_with_index()
                        .take(cap * cap)
                        .for_each(|(ix, e)| *e = T::mk(h(k, ix.row as i64, ix.col as i64) + e.n() % 5)),
                }
                Out::Val(v)
            })
        };
        let what = [
            "iter_rows", "iter_cols", "iter_rows.rev", "iter_cols.rev", "iter_nth_row", "iter_nth_col", "iter_nth_row_mut",
            "iter_nth_col_mut", "iter_rows_mut", "iter_cols_mut", "iter_elements_with_index", "iter_elements_mut_with_index",
        ][how];
        let (x, y) = (f(&mut p.a), f(&mut p.b));
        note(|| format!("{what} m{i} n={n} rev={rev}"));
        self.outs(what, x, y);
        self.compare(i, what);
    }

    fn swaps(&mut self) {
        let i = choose(self.ps.len());
        let p = &mut self.ps[i];
        let (nr, nc) = (p.a.nrows(), p.a.ncols());
        let how = choose(3);
        let (x, y) = match how {
            1 => (index_near(nr, 9), index_near(nr, 9)),
            2 => (index_near(nc, 9), index_near(nc, 9)),
            _ => (0, 0),
        };
        let (s, t) = ((index_near(nr, 9), index_near(nc, 9)), (index_near(nr, 9), index_near(nc, 9)));
        let f = |m: &mut Matrix<T>| {
            guard(|| {
                res(
                    match how {
                        0 => m.swap(s, t).map(|_| ()),
                        1 => m.swap_rows(x, y).map(|_| ()),
                        _ => m.swap_cols(x, y).map(|_| ()),
                    },
                    |_| Out::Done,
                )
            })
        };
        let what = ["swap", "swap_rows", "swap_cols"][how];
        let (u, v) = (f(&mut p.a), f(&mut p.b));
        note(|| format!("{what} m{i} {:?}", if how == 0 { (s, t) } else { ((x, 0), (y, 0)) }));
        self.outs(what, u, v);
        self.compare(i, what);
    }

    fn overwrite(&mut self) {
        let (i, j) = if chance(1, 2) { self.two() } else { (choose(self.ps.len()), choose(self.ps.len())) };
        note(|| format!("overwrite m{i} with m{j}"));
        let src = Pair { a: self.ps[j].a.clone(), b: self.ps[j].b.clone() };
        let mut src = src;
        if choose(2) == 1 {
            reorder(&mut src.b);
        }
        let p = &mut self.ps[i];
        let x = guard(|| {
            p.a.overwrite(&src.a);
            Out::Done
        });
        let y = guard(|| {
            p.b.overwrite(&src.b);
            Out::Done
        });
        self.outs("overwrite", x, y);
        self.compare(i, "overwrite");
        let (sa, sb) = (logical(&src.a), logical(&src.b));
        ensure(sa == sb, "contents-depend-on-order", || "overwrite changed its source".into());
    }

    fn transpose(&mut self) {
        let i = choose(self.ps.len());
        let p = &mut self.ps[i];
        let x = guard(|| {
            p.a.transpose();
            Out::Done
        });
        let y = guard(|| {
            p.b.transpose();
            Out::Done
        });
        note(|| format!("transpose m{i}"));
        self.outs("transpose", x, y);
        // world A stays row-major
        if self.ps[i].a.order() != Order::RowMajor {
            self.ps[i].a.set_order(Order::RowMajor);
        }
        self.compare(i, "transpose");
    }

    fn clones(&self, i: usize) -> (Matrix<T>, Matrix<T>) {
        let mut b = self.ps[i].b.clone();
        if choose(2) == 1 {
            reorder(&mut b);
        }
        (self.ps[i].a.clone(), b)
    }

    fn small(&mut self, i: usize) {
        // keep numbers readable
        let p = &mut self.ps[i];
        for m in [&mut p.a, &mut p.b] {
            m.apply(|e| *e = T::mk(e.n() % 100_000));
        }
    }

    fn elementwise(&mut self) {
        let (i, j) = self.two();
        let k = choose(1000) as i64;
        let how = choose(4);
        let (la, lb) = self.clones(i);
        let (ra, rb) = self.clones(j);
        let orders = (la.order(), lb.order());
        let what = ["elementwise_operation", "elementwise_operation_consume_self", "elementwise_operation_assign", "conformability"][how];
        note(|| format!("{what} m{i} ({:?}) m{j} ({:?})", lb.order(), rb.order()));
        let mut slots = [None, None];
        let mut outs = vec![];
        for (slot, (l, r)) in slots.iter_mut().zip([(la, ra), (lb, rb)]) {
            let mut l = l;
            outs.push(guard(|| match how {
                0 => res(l.elementwise_operation(&r, |x, y| T::mk(h(k, x.n(), y.n()))), |m| {
                    *slot = Some(m);
                    Out::Made(0)
                }),
                1 => res(l.elementwise_operation_consume_self(&r, |x, y| T::mk(h(k, x.n(), y.n()))), |m| {
                    *slot = Some(m);
                    Out::Made(0)
                }),
                2 => {
                    let o = res(l.elementwise_operation_assign(&r, |x, y| *x = T::mk(h(k, x.n(), y.n()))).map(|_| ()), |_| Out::Made(0));
                    *slot = Some(l);
                    o
                }
                _ => Out::Val(vec![
                    l.is_elementwise_operation_conformable(&r) as i64,
                    l.ensure_elementwise_operation_conformable(&r).is_ok() as i64,
                    l.is_multiplication_like_operation_conformable(&r) as i64,
                    l.ensure_multiplication_like_operation_conformable(&r).is_ok() as i64,
                ]),
            }));
        }
        let b = outs.pop().unwrap();
        let a = outs.pop().unwrap();
        self.outs(what, a, b);
        let [x, y] = slots;
        self.made(what, i, x, y, orders);
    }

    fn named_elementwise(&mut self) {
        let (i, j) = self.two();
        let how = choose(25);
        let (la, lb) = self.clones(i);
        let (ra, rb) = self.clones(j);
        let orders = (la.order(), lb.order());
        let what = [
            "elementwise_add", "elementwise_sub", "elementwise_mul", "elementwise_div", "elementwise_rem",
            "elementwise_add_consume_self", "elementwise_sub_consume_self", "elementwise_mul_consume_self",
            "elementwise_div_consume_self", "elementwise_rem_consume_self", "elementwise_add_assign",
            "elementwise_sub_assign", "elementwise_mul_assign", "elementwise_div_assign", "elementwise_rem_assign",
            "+ vv", "+ vr", "+ rv", "+ rr", "- vv", "- vr", "- rv", "- rr", "+=", "-=",
        ][how];
        note(|| format!("{what} m{i} ({:?}) m{j} ({:?})", lb.order(), rb.order()));
        let mut slots = [None, None];
        let mut outs = vec![];
        for (slot, (l, r)) in slots.iter_mut().zip([(la, ra), (lb, rb)]) {
            let mut l = l;
            outs.push(guard(|| {
                let made = match how {
                    0 => l.elementwise_add(&r),
                    1 => l.elementwise_sub(&r),
                    2 => l.elementwise_mul(&r),
                    3 => l.elementwise_div(&r),
                    4 => l.elementwise_rem(&r),
                    5 => l.elementwise_add_consume_self(&r),
                    6 => l.elementwise_sub_consume_self(&r),
                    7 => l.elementwise_mul_consume_self(&r),
                    8 => l.elementwise_div_consume_self(&r),
                    9 => l.elementwise_rem_consume_self(&r),
                    10..15 => {
                        let o = match how {
                            10 => l.elementwise_add_assign(&r).map(|_| ()),
                            11 => l.elementwise_sub_assign(&r).map(|_| ()),
                            12 => l.elementwise_mul_assign(&r).map(|_| ()),
                            13 => l.elementwise_div_assign(&r).map(|_| ()),
                            _ => l.elementwise_rem_assign(&r).map(|_| ()),
                        };
                        *slot = Some(l);
                        return res(o, |_| Out::Made(0));
                    }
                    15 => Ok(l + r),
                    16 => Ok(l + &r),
                    17 => Ok(&l + r),
                    18 => Ok(&l + &r),
                    19 => Ok(l - r),
                    20 => Ok(l - &r),
                    21 => Ok(&l - r),
                    22 => Ok(&l - &r),
                    23 => {
                        l += r;
                        Ok(l)
                    }
                    _ => {
                        l -= &r;
                        Ok(l)
                    }
                };
                res(made, |m| {
                    *slot = Some(m);
                    Out::Made(0)
                })
            }));
        }
        let b = outs.pop().unwrap();
        let a = outs.pop().unwrap();
        self.outs(what, a, b);
        let [x, y] = slots;
        self.made(what, i, x, y, orders);
        let n = self.ps.len() - 1;
        self.small(n);
    }

    fn product(&mut self) {
        let i = choose(self.ps.len());
        let (nr, nc) = (self.ps[i].a.nrows(), self.ps[i].a.ncols());
        let j = if chance(4, 5) {
            let n = dim();
            let _ = nr;
            let rows = self.rows(nc, n);
            self.build(&rows, nc, n);
            self.ps.len() - 1
        } else {
            choose(self.ps.len())
        };
        let how = choose(6);
        let (la, lb) = self.clones(i);
        let (ra, rb) = self.clones(j);
        let orders = (la.order(), lb.order());
        let what = ["multiply", "* vv", "* vr", "* rv", "* rr", "multiplication_like_operation"][how];
        note(|| format!("{what} m{i} ({:?}) m{j} ({:?})", lb.order(), rb.order()));
        let mut slots = [None, None];
        let mut outs = vec![];
        for (slot, (l, r)) in slots.iter_mut().zip([(la, ra), (lb, rb)]) {
            outs.push(guard(|| {
                let made = match how {
                    0 => l.multiply(r),
                    1 => Ok(l * r),
                    2 => Ok(l * &r),
                    3 => Ok(&l * r),
                    4 => Ok(&l * &r),
                    _ => l.multiplication_like_operation(r, |a: &[T], b: &[T]| {
                        let mut s = a.len() as i64 * 1000 + b.len() as i64;
                        for (x, y) in a.iter().zip(b) {
                            s = h(s, x.n(), y.n());
                        }
                        T::mk(s)
                    }),
                };
                res(made, |m| {
                    *slot = Some(m);
                    Out::Made(0)
                })
            }));
        }
        let b = outs.pop().unwrap();
        let a = outs.pop().unwrap();
        self.outs(what, a, b);
        let [x, y] = slots;
        self.made(what, i, x, y, orders);
        let n = self.ps.len() - 1;
        self.small(n);
    }

    fn scalar(&mut self) {
        let i = choose(self.ps.len());
        let k = choose(90) as i64 + 1;
        let how = choose(15);
        let (la, lb) = self.clones(i);
        let orders = (la.order(), lb.order());
        let what = [
            "scalar_operation", "scalar_operation_consume_self", "scalar_operation_assign", "m + s", "s + m", "m - s", "s - m",
            "m * s", "s * m", "m / s", "s / m", "m % s", "s % m", "-m", "m op= s",
        ][how];
        note(|| format!("{what} m{i} ({:?}) s={k}", lb.order()));
        let mut slots = [None, None];
        let mut outs = vec![];
        let side = choose(5);
        for (slot, l) in slots.iter_mut().zip([la, lb]) {
            let mut l = l;
            outs.push(guard(|| {
                let made = match how {
                    0 => l.scalar_operation(&k, |x, s| T::mk(h(*s, x.n(), 1))),
                    1 => l.scalar_operation_consume_self(&k, |x, s| T::mk(h(*s, x.n(), 2))),
                    2 => {
                        l.scalar_operation_assign(&k, |x, s| *x = T::mk(h(*s, x.n(), 3)));
                        Ok(l)
                    }
                    13 => Ok(if side % 2 == 0 { -l } else { -&l }),
                    _ => {
                        // the operators exist for primitive elements
                        let mut p = match l.map(|e| e.n() % 1000) {
                            Ok(p) => p,
                            Err(e) => return Out::Err(e),
                        };
                        if matches!(how, 10 | 12) {
                            p.apply(|e| *e = if *e == 0 { 1 } else { *e });
                        }
                        let q = match how {
                            3 => p + k,
                            4 => k + p,
                            5 => &p - k,
                            6 => k - &p,
                            7 => p * k,
                            8 => k * p,
                            9 => &p / &k,
                            10 => k / p,
                            11 => p % k,
                            12 => &k % &p,
                            _ => {
                                match side {
                                    0 => p += k,
                                    1 => p -= k,
                                    2 => p *= k,
                                    3 => p /= k,
                                    _ => p %= k,
                                }
                                p
                            }
                        };
                        q.map(T::mk)
                    }
                };
                res(made, |m| {
                    *slot = Some(m);
                    Out::Made(0)
                })
            }));
        }
        let b = outs.pop().unwrap();
        let a = outs.pop().unwrap();
        self.outs(what, a, b);
        let [x, y] = slots;
        // with the scalar on the left, there is no matrix whose order to take
        let orders = if matches!(how, 4 | 6 | 8 | 10 | 12) {
            (x.as_ref().map_or(orders.0, |m| m.order()), y.as_ref().map_or(orders.1, |m| m.order()))
        } else {
            orders
        };
        self.made(what, i, x, y, orders);
    }

    fn mapping(&mut self) {
        let i = choose(self.ps.len());
        let k = choose(1000) as i64;
        let how = choose(4);
        let (la, lb) = self.clones(i);
        let orders = (la.order(), lb.order());
        let what = ["map", "map_ref", "apply", "clone"][how];
        note(|| format!("{what} m{i} ({:?})", lb.order()));
        let mut slots = [None, None];
        let mut outs = vec![];
        for (slot, l) in slots.iter_mut().zip([la, lb]) {
            let mut l = l;
            outs.push(guard(|| {
                let made = match how {
                    0 => l.map(|e| T::mk(h(k, e.n(), 0))),
                    1 => l.map_ref(|e| T::mk(h(k, e.n(), 1))),
                    2 => {
                        l.apply(|e| *e = T::mk(h(k, e.n(), 2)));
                        Ok(l)
                    }
                    _ => {
                        let mut c = Matrix::new();
                        c.clone_from(&l);
                        Ok(c)
                    }
                };
                res(made, |m| {
                    *slot = Some(m);
                    Out::Made(0)
                })
            }));
        }
        let b = outs.pop().unwrap();
        let a = outs.pop().unwrap();
        self.outs(what, a, b);
        let [x, y] = slots;
        self.made(what, i, x, y, orders);
    }

    fn eqs(&mut self) {
        let (i, j) = if chance(1, 2) { self.two() } else { (choose(self.ps.len()), choose(self.ps.len())) };
        note(|| format!("== m{i}, m{j}"));
        let (p, q) = (&self.ps[i], &self.ps[j]);
        self.equality(&p.a, &q.a, "a == a'");
        self.equality(&p.a, &q.b, "a == b'");
        self.equality(&p.b, &q.b, "b == b'");
        self.equality(&p.b, &p.b, "b == b itself");
        // a near miss: a copy differing in one element, stored either way
        let (mut a, mut b) = self.clones(i);
        let (nr, nc) = (a.nrows(), a.ncols());
        if nr * nc > 0 {
            let (r, c) = (choose(nr), choose(nc));
            let d = T::mk(choose(40) as i64);
            if let Ok(e) = b.get_mut((r, c)) {
                *e = d.clone();
            }
            if choose(2) == 1 {
                reorder(&mut b);
            }
            self.equality(&a, &b, "near miss");
            if let Ok(e) = a.get_mut((r, c)) {
                *e = d;
            }
            self.equality(&a, &b, "both changed");
        }
        // the same memory sequence under another shape
        let mut t = self.ps[i].b.clone();
        t.switch_order_without_rearrangement();
        self.equality(&t, &self.ps[i].a, "same memory, other order");
        let n = t.size();
        let d = range(1, 6);
        if n % d == 0 && n <= 4000 && t.reshape((d, n / d)).is_ok() {
            self.equality(&t, &self.ps[i].a, "same memory, other shape");
            self.equality(&t, &self.ps[i].b, "same memory, other shape");
        }
        // empty matrices of different shapes
        let mk = |r: usize, c: usize| {
            let mut m: Matrix<T> = Matrix::new();
            m.reshape((r, c)).ok();
            if choose(2) == 1 {
                reorder(&mut m);
            }
            m
        };
        let (x, y) = match choose(3) {
            0 => (mk(0, dim()), mk(0, dim())),
            1 => (mk(dim(), 0), mk(dim(), 0)),
            _ => (mk(0, dim()), mk(dim(), 0)),
        };
        self.equality(&x, &y, "empty");
    }

    fn text(&mut self) {
        let i = choose(self.ps.len());
        let p = &self.ps[i];
        if p.a.size() > 1500 {
            return;
        }
        let how = choose(3);
        let f = |m: &Matrix<T>| {
            guard(|| {
                Out::Text(match how {
                    0 => m.to_string(),
                    1 => format!("{m:>12}"),
                    _ => format!("{m:#}"),
                })
            })
        };
        let (x, y) = (f(&p.a), f(&p.b));
        note(|| format!("Display m{i} ({:?})", p.b.order()));
        self.outs("Display", x, y);
    }
}

fn vast_out(what: &str, a: Out, b: Out) {
    note(|| format!("  {what}: {a:?}"));
    event("vast-out", hash_str(what), 0);
    if a != b {
        violate("error-depends-on-order", &format!("{what}: {a:?} on row-major operands, {b:?} otherwise"));
    }
    stop_if_violated();
}

/// Errors of operations on huge matrices of zero-sized elements.
fn vast() {
    const N: [usize; 8] = [0, 1, 2, 3, 1 << 31, (1 << 32) - 1, 1 << 62, usize::MAX];
    let mk = |nr: usize, nc: usize, flip: bool| -> Option<Matrix<()>> {
        let n = nr.checked_mul(nc)?;
        let mut v: Vec<()> = Vec::new();
        // zero-sized elements need no initialisation
        unsafe { v.set_len(n) };
        let mut m = Matrix::from_row(v);
        if flip {
            m.reshape((nc, nr)).ok()?;
            m.switch_order_without_rearrangement();
        } else {
            m.reshape((nr, nc)).ok()?;
        }
        Some(m)
    };
    count("vast", 1);
    for _ in 0..range(1, 8) {
        let (r1, c1) = (pick(&N), pick(&N));
        let (r2, c2) = match choose(4) {
            0 => (c1, pick(&N)),
            1 => (r1, c1),
            2 => (c1, r1),
            _ => (pick(&N), pick(&N)),
        };
        let ((r1, c1), (r2, c2)) = (tame_empty((r1, c1)), tame_empty((r2, c2)));
        let (fl, fr) = (choose(2) == 1, choose(2) == 1);
        let (Some(a), Some(a2)) = (mk(r1, c1, false), mk(r2, c2, false)) else { continue };
        let (b, b2) = (mk(r1, c1, fl).unwrap(), mk(r2, c2, fr).unwrap());
        note(|| format!("{r1}x{c1} ({:?}) with {r2}x{c2} ({:?})", b.order(), b2.order()));
        let how = choose(6);
        // only calls that cannot start real work
        let small = |m: &Matrix<()>| m.size() <= 4096;
        let f = |l: &Matrix<()>, r: &Matrix<()>| {
            guard(|| match how {
                0 => Out::Val(vec![
                    l.is_elementwise_operation_conformable(r) as i64,
                    l.is_multiplication_like_operation_conformable(r) as i64,
                    l.is_square() as i64,
                    l.is_empty() as i64,
                ]),
                1 => {
                    if (small(l) || l.size() > isize::MAX as usize / 8) || !l.is_elementwise_operation_conformable(r) {
                        res(l.elementwise_operation(r, |_, _| 1u64), |_| Out::Made(0))
                    } else {
                        Out::Done
                    }
                }
                2 => {
                    let big = l.nrows() as u128 * r.ncols() as u128;
                    let cheap = big <= 4096 && l.ncols() <= 4096 && small(l) && small(r);
                    let refused = l.ncols() != r.nrows() || big * 8 > isize::MAX as u128;
                    if cheap || refused {
                        res(l.clone().multiplication_like_operation(r.clone(), |_, _| 1u64), |m| Out::Made(m.size()))
                    } else {
                        Out::Done
                    }
                }
                3 => res(l.get((r.nrows(), r.ncols())), |_| Out::Done),
                4 => {
                    if small(l) || l.size() > isize::MAX as usize / 8 {
                        res(l.map_ref(|_| 1u64), |m| Out::Made(m.size()))
                    } else {
                        Out::Done
                    }
                }
                _ => {
                    let x = l.iter_nth_row(r.nrows()).map(|i| i.len());
                    let y = l.iter_nth_col(r.ncols()).map(|i| i.len());
                    match (x, y) {
                        (Ok(x), Ok(y)) => Out::Val(vec![x as i64, y as i64]),
                        (Err(e), _) | (_, Err(e)) => Out::Err(e),
                    }
                }
            })
        };
        if how == 2 && !(small(&a) && small(&a2)) {
            // cloning a huge matrix of () may iterate over it
            continue;
        }
        vast_out(["predicates", "elementwise_operation", "multiplication_like_operation", "get", "map_ref", "iter_nth"][how], f(&a, &a2), f(&b, &b2));
        if (small(&a) && small(&a2)) || a.size() != a2.size() || (a.nrows(), a.ncols()) != (a2.nrows(), a2.ncols()) {
            let want = (a.nrows(), a.ncols()) == (a2.nrows(), a2.ncols());
            // when both have the same huge size, a comparison of same-order data would be endless
            if small(&a) || a.size() != a2.size() {
                let got = attempt(|| b == b2);
                ensure(matches!(got, Ok(g) if g == want), "equality", || format!("{r1}x{c1} == {r2}x{c2}: {:?}, expected {want}", got.is_ok()));
                stop_if_violated();
            }
        }
    }
    count("nontrivial", 1);
}

fn c07_e<T: El>(tier: Tier) {
    let spread = if chance(1, 2) { 0 } else { pick(&[2, 3, 40, 2000]) };
    let mut t: Twin<T> = Twin { ps: vec![], next: 0, spread };
    note(|| format!("element type {}", T::NAME));
    event(T::NAME, 0, 0);
    for _ in 0..range(1, 3) {
        t.fresh();
    }
    let steps = range(1, if tier == Tier::Thorough { 40 } else { 16 });
    for _ in 0..steps {
        if chance(1, 8) {
            t.fresh();
        }
        t.nemesis();
        t.step();
        while t.ps.len() > 4 {
            t.ps.remove(choose(t.ps.len()));
        }
        for i in 0..t.ps.len() {
            if t.ps[i].b.order() == Order::ColMajor && t.ps[i].b.size() > 1 {
                count("nontrivial", 1);
            }
        }
    }
    for i in 0..t.ps.len() {
        t.compare(i, "the end");
        t.equality(&t.ps[i].a, &t.ps[i].b, "the two worlds");
    }
}

fn c07(tier: Tier) {
    match weighted(&[8, 4, 5, 5, 2]) {
        0 => c07_e::<W>(tier),
        1 => c07_e::<B>(tier),
        2 => c07_e::<S>(tier),
        3 => c07_e::<N>(tier),
        _ => vast(),
    }
}

fn main() {
    runner::main(&[Prop { id: "C07", scenario: c07, enumerate_faults: false }]);
}
