//! The public operations of the library, each as one step of a client.
//!
//! A step draws its arguments, makes the library call(s) through `Ctl`, and
//! updates the reference model. Groups serve swarm selection and judging.

use crate::elem::*;
use crate::gen_::*;
use crate::model::*;
use matreex::error::Error;
use matreex::index::{AsIndex, Index, WrappingIndex};
use matreex::parallel::*;
use matreex::{Matrix, Order, Shape, col_vec, matrix, row_vec};
use simrt::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum G {
    Build,
    Order,
    Shape,
    Swap,
    Edit,
    Map,
    Arith,
    Assign,
    Iter,
    Read,
    Par,
}
pub const GROUPS: [G; 11] =
    [G::Build, G::Order, G::Shape, G::Swap, G::Edit, G::Map, G::Arith, G::Assign, G::Iter, G::Read, G::Par];

pub struct Op<E> {
    pub name: &'static str,
    pub group: G,
    pub weight: u32,
    pub f: fn(&mut World<E>),
}

/// A shape argument whose conversion is caller code.
#[derive(Clone, Copy)]
pub struct ShapeArg(pub usize, pub usize);
impl From<ShapeArg> for Shape {
    fn from(s: ShapeArg) -> Shape {
        cb("cb_into_shape");
        Shape::new(s.0, s.1)
    }
}

/// A row argument whose conversion is caller code.
pub struct RowArg<E>(pub Vec<E>);
impl<E> From<RowArg<E>> for Vec<E> {
    fn from(r: RowArg<E>) -> Vec<E> {
        cb("cb_into_vec");
        r.0
    }
}

/// An honest caller-defined index whose accessors are caller code.
#[derive(Clone, Copy)]
pub struct Idx(pub usize, pub usize);
impl AsIndex for Idx {
    fn row(&self) -> usize {
        cb("cb_index");
        self.0
    }
    fn col(&self) -> usize {
        cb("cb_index");
        self.1
    }
}

/// Rows as an honest iterator of caller code.
pub struct Stream<I>(pub I);
impl<I: Iterator> Iterator for Stream<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        cb("cb_stream");
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn cell<E: Elem>(e: &E) -> Cell {
    Cell { val: e.val(), id: e.id() }
}

impl<E: Elem> World<E> {
    fn new_elem(&mut self) -> E {
        let v = self.ctl.val();
        E::make(v)
    }
    fn new_elems(&mut self, n: usize) -> (Vec<E>, Vec<Cell>) {
        let v: Vec<E> = (0..n).map(|_| self.new_elem()).collect();
        let c = v.iter().map(cell).collect();
        (v, c)
    }
    fn new_rows(&mut self, nr: usize, nc: usize) -> (Vec<Vec<E>>, Model) {
        let mut rows = vec![];
        let mut cells = vec![];
        for _ in 0..nr {
            let (r, c) = self.new_elems(nc);
            rows.push(r);
            cells.push(c);
        }
        let nc = if nr == 0 { 0 } else { nc };
        (rows, Model { nr, nc, order: Order::RowMajor, rows: cells })
    }
    fn built(&mut self, what: &str, m: Option<Matrix<E>>, model: Model) {
        if let Some(m) = m {
            // the storage order of a new matrix is not in question here
            let model = Model { order: m.order(), ..model };
            self.args(|| format!("{what} -> {}x{}", model.nr, model.nc));
            self.push(m, model);
            self.trim();
        }
    }
    fn two(&self) -> Option<(usize, usize)> {
        if self.ms.is_empty() {
            return None;
        }
        let i = choose(self.ms.len());
        // prefer a partner of the same shape
        let same: Vec<usize> = (0..self.ms.len())
            .filter(|j| {
                *j != i && (self.ms[*j].model.nr, self.ms[*j].model.nc) == (self.ms[i].model.nr, self.ms[i].model.nc)
            })
            .collect();
        if !same.is_empty() && !chance(1, 5) {
            return Some((i, pick(&same)));
        }
        Some((i, choose(self.ms.len())))
    }
    /// Makes a partner of the same shape exist, mostly.
    fn mate(&mut self) -> Option<(usize, usize)> {
        let (i, j) = self.two()?;
        if i != j && !chance(1, 3) {
            return Some((i, j));
        }
        if chance(1, 6) || self.ms[i].stale {
            return Some((i, j));
        }
        let (nr, nc) = (self.ms[i].model.nr, self.ms[i].model.nc);
        if nr * nc > 2000 {
            return Some((i, j));
        }
        let (rows, mut model) = self.new_rows(nr, nc);
        model.nc = nc;
        let armed = self.ctl.armed.take();
        let m = self.ctl.must("building an operand", || {
            let flat: Vec<E> = rows.into_iter().flatten().collect();
            let mut m = Matrix::from_row(flat);
            m.reshape((nr, nc)).unwrap();
            m
        });
        self.ctl.armed = armed;
        let mut m = m?;
        model.order = m.order();
        if choose(2) == 1 {
            m.switch_order();
            model.order = m.order();
        }
        self.push(m, model);
        Some((i, self.ms.len() - 1))
    }
}

fn two_mut<E>(ms: &mut [Slot<E>], i: usize, j: usize) -> (&mut Slot<E>, &mut Slot<E>) {
    assert!(i != j);
    if i < j {
        let (a, b) = ms.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = ms.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

// ------------------------------------------------------------------- build

fn b_new<E: Elem>(w: &mut World<E>) {
    let cap = range(0, 20);
    let m = w.ctl.must("new", || match choose(3) {
        0 => Matrix::new(),
        1 => Matrix::default(),
        _ => Matrix::with_capacity(cap),
    });
    w.built("new", m, Model::new(0, 0, Order::RowMajor, |_, _| unreachable!()));
}

fn b_with_default<E: Elem>(w: &mut World<E>) {
    let (nr, nc) = shape();
    let m = w.ctl.must("with_default", || Matrix::with_default(ShapeArg(nr, nc)));
    if let Some(r) = m {
        w.ctl.expect(r.is_ok(), "unexpected-error", || format!("with_default({nr}, {nc})"));
        w.built("with_default", r.ok(), Model::new(nr, nc, Order::RowMajor, |_, _| Cell { val: E::norm(0), id: 0 }));
    }
}

fn b_with_value<E: Elem>(w: &mut World<E>) {
    let (nr, nc) = shape();
    let e = w.new_elem();
    let val = e.val();
    let m = w.ctl.must("with_value", || Matrix::with_value(ShapeArg(nr, nc), e));
    if let Some(r) = m {
        w.ctl.expect(r.is_ok(), "unexpected-error", || format!("with_value({nr}, {nc})"));
        w.built("with_value", r.ok(), Model::new(nr, nc, Order::RowMajor, |_, _| Cell { val, id: 0 }));
    }
}

fn b_with_initializer<E: Elem>(w: &mut World<E>) {
    let (nr, nc) = shape();
    let salt = w.ctl.val();
    let v = |r: usize, c: usize| E::norm(mix(salt, (r * 1000 + c) as u64));
    let m = w.ctl.must("with_initializer", || {
        Matrix::with_initializer(ShapeArg(nr, nc), |i: Index| {
            cb("cb_closure");
            E::make(v(i.row, i.col))
        })
    });
    if let Some(r) = m {
        w.ctl.expect(r.is_ok(), "unexpected-error", || format!("with_initializer({nr}, {nc})"));
        w.built("with_initializer", r.ok(), Model::new(nr, nc, Order::RowMajor, |r, c| Cell { val: v(r, c), id: 0 }));
    }
}

fn b_from_line<E: Elem>(w: &mut World<E>) {
    let n = dim();
    let (v, cells) = w.new_elems(n);
    let col = choose(2) == 1;
    let how = choose(3);
    let m = w.ctl.must("from_row/from_col", || match (col, how) {
        (false, 0) => Matrix::from_row(v),
        (false, 1) => Matrix::from_row(RowArg(v)),
        (false, _) => Matrix::from_row(v.into_boxed_slice()),
        (true, 0) => Matrix::from_col(v),
        (true, 1) => Matrix::from_col(RowArg(v)),
        (true, _) => Matrix::from_col(v.into_boxed_slice()),
    });
    let model = if col {
        Model::new(n, 1, Order::RowMajor, |r, _| cells[r])
    } else {
        Model::new(1, n, Order::RowMajor, |_, c| cells[c])
    };
    w.built("from_row/from_col", m, model);
}

fn arr<E, const C: usize>(v: Vec<E>) -> [E; C] {
    v.try_into().ok().unwrap()
}

fn b_from_array<E: Elem>(w: &mut World<E>) {
    macro_rules! go {
        ($r:literal, $c:literal) => {{
            let (rows, mut model) = w.new_rows($r, $c);
            model.nc = $c;
            let how = choose(4);
            let cloned = how == 2 || how == 3;
            let m = w.ctl.must("from arrays", || match how {
                0 => {
                    let a: [[E; $c]; $r] = arr(rows.into_iter().map(arr::<E, $c>).collect());
                    Matrix::from(a)
                }
                1 => {
                    let a: Vec<[E; $c]> = rows.into_iter().map(arr::<E, $c>).collect();
                    Matrix::from(a)
                }
                2 => {
                    let a: Vec<[E; $c]> = rows.into_iter().map(arr::<E, $c>).collect();
                    Matrix::from(&a[..])
                }
                _ => {
                    let a: [Vec<E>; $r] = arr(rows);
                    let r = Matrix::try_from(a);
                    if $r == 0 {
                        // the number of columns of nothing is unknown
                        let _ = r;
                        return Matrix::new();
                    }
                    r.unwrap()
                }
            });
            if cloned {
                model = model.fresh_ids();
            }
            if $r == 0 {
                if let Some(m) = &m {
                    model.nc = m.ncols();
                }
            }
            w.built("from arrays", m, model)
        }};
    }
    match choose(9) {
        0 => go!(2, 3),
        1 => go!(1, 1),
        2 => go!(3, 2),
        3 => go!(0, 0),
        4 => go!(3, 0),
        5 => go!(0, 2),
        6 => go!(1, 4),
        7 => go!(4, 1),
        _ => go!(3, 3),
    }
}

fn b_from_rows<E: Elem>(w: &mut World<E>) {
    let (nr, nc) = (dim(), dim());
    let (rows, mut model) = w.new_rows(nr, nc);
    let how = choose(4);
    let m = w.ctl.must("from rows", || match how {
        0 => Matrix::try_from(rows).unwrap(),
        1 => Matrix::try_from(&rows[..]).unwrap(),
        2 => Stream(rows.into_iter().map(|r| Stream(r.into_iter()))).collect(),
        _ => rows.into_iter().collect(),
    });
    if how == 1 {
        model = model.fresh_ids();
    }
    w.built("from rows", m, model);
}

fn b_ragged<E: Elem>(w: &mut World<E>) {
    let nr = range(2, 5);
    let nc = dim();
    let (mut rows, _) = w.new_rows(nr, nc);
    let k = choose(nr);
    if nc > 0 && choose(2) == 0 {
        rows[k].truncate(choose(nc));
    } else {
        let n = range(1, 3);
        let (extra, _) = w.new_elems(n);
        rows[k].extend(extra);
    }
    w.ctl.failed += 1;
    match choose(3) {
        0 => {
            let r = w.ctl.must("try_from(ragged rows)", || Matrix::try_from(rows));
            if let Some(r) = r {
                w.ctl.expect(r.is_err(), "ragged-accepted", || "try_from(Vec<Vec>)".into());
            }
        }
        1 => {
            let r = w.ctl.must("try_from(ragged rows)", || {
                let r = Matrix::try_from(&rows[..]);
                drop(rows);
                r
            });
            if let Some(r) = r {
                w.ctl.expect(r.is_err(), "ragged-accepted", || "try_from(&[Vec])".into());
            }
        }
        _ => {
            let r = w.ctl.call(|| rows.into_iter().collect::<Matrix<E>>());
            if r.is_ok() {
                w.ctl.expect(false, "ragged-accepted", || "collect()".into());
            }
        }
    }
}

fn b_macros<E: Elem>(w: &mut World<E>) {
    let (v, c) = w.new_elems(6);
    let mut it = v.into_iter();
    let mut nx = || it.next().unwrap();
    let how = choose(6);
    let n = range(0, 4);
    let m = w.ctl.must("macro", || -> Matrix<E> {
        match how {
            0 => matrix![[nx(), nx(), nx()], [nx(), nx(), nx()]],
            1 => matrix![[nx(); 3]; n],
            2 => matrix![[nx(), nx()]; n],
            3 => row_vec![nx(); n],
            4 => col_vec![nx(), nx(), nx()],
            _ => matrix![],
        }
    });
    drop(it);
    let any = |x: Cell| Cell { val: x.val, id: 0 };
    let model = match how {
        0 => Model::new(2, 3, Order::RowMajor, |r, k| c[r * 3 + k]),
        1 => Model::new(n, 3, Order::RowMajor, |_, _| any(c[0])),
        2 => Model::new(n, 2, Order::RowMajor, |_, k| any(c[k])),
        3 => Model::new(1, n, Order::RowMajor, |_, _| any(c[0])),
        4 => Model::new(3, 1, Order::RowMajor, |r, _| c[r]),
        _ => Model::new(0, 0, Order::RowMajor, |_, _| unreachable!()),
    };
    w.built("macro", m, model);
}

fn b_clone<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let m = {
        let World { ms, ctl, .. } = w;
        ctl.must("clone", || ms[i].m.clone())
    };
    let model = w.ms[i].model.fresh_ids();
    if let Some(m) = &m {
        w.ctl.expect(m.order() == model.order, "wrong-order", || "clone changes the order".into());
    }
    w.built("clone", m, model);
}

fn b_clone_from<E: Elem>(w: &mut World<E>) {
    if w.ms.len() < 2 {
        return;
    }
    let i = choose(w.ms.len());
    let j = (i + 1 + choose(w.ms.len() - 1)) % w.ms.len();
    let World { ms, ctl, .. } = w;
    let (a, b) = two_mut(ms, i, j);
    if ctl.must("clone_from", || a.m.clone_from(&b.m)).is_some() {
        a.model = b.model.fresh_ids();
    }
}

fn b_move<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    match choose(2) {
        0 => {
            let s = w.ms.remove(i);
            let m = s.m;
            w.ctl.must("drop(matrix)", || drop(m));
        }
        _ => {
            let World { ms, ctl, .. } = w;
            let t = ctl.must("mem::take", || std::mem::take(&mut ms[i].m));
            let model = ms[i].model.clone();
            let stale = ms[i].stale;
            ms[i].model = Model { order: ms[i].m.order(), ..Model::new(0, 0, Order::RowMajor, |_, _| unreachable!()) };
            if let Some(m) = t {
                w.push(m, model);
                let k = w.ms.len() - 1;
                w.ms[k].stale = stale;
                w.trim();
            }
        }
    }
}

// ------------------------------------------------------------------- order

macro_rules! order_op {
    ($f:ident, $name:literal, |$m:ident, $o:ident| $call:expr, |$model:ident, $p:ident| $upd:expr) => {
        fn $f<E: Elem>(w: &mut World<E>) {
            let Some(i) = w.pick() else { return };
            let $o = if choose(2) == 0 { Order::RowMajor } else { Order::ColMajor };
            let $p = $o;
            w.args(|| format!("#{i} {:?}", $o));
            let World { ms, ctl, .. } = w;
            let $m = &mut ms[i].m;
            if ctl.must($name, || { $call; }).is_some() {
                let $model = &mut ms[i].model;
                let _ = $p;
                $upd
            }
        }
    };
}
order_op!(o_transpose, "transpose", |m, _o| m.transpose(), |d, _p| *d = d.transposed());
order_op!(o_switch, "switch_order", |m, _o| m.switch_order(), |d, _p| d.order = other(d.order));
order_op!(o_switch_wr, "switch_order_without_rearrangement", |m, _o| m.switch_order_without_rearrangement(), |d, _p| *d = d.reinterpreted());
order_op!(o_set, "set_order", |m, o| m.set_order(o), |d, p| d.order = p);
order_op!(o_set_wr, "set_order_without_rearrangement", |m, o| m.set_order_without_rearrangement(o), |d, p| if d.order != p {
    *d = d.reinterpreted()
});

// ------------------------------------------------------------------- shape

/// A target shape: of the same size, near it, small, or absurd.
fn target_shape(size: usize) -> (usize, usize) {
    match weighted(&[40, 20, 25, 15]) {
        0 => {
            let ds: Vec<usize> = (1..=size.max(1)).filter(|d| size % d == 0).collect();
            let d = pick(&ds);
            if size == 0 {
                match choose(4) {
                    0 => (0, dim()),
                    1 => (dim(), 0),
                    2 => (0, tame(pick(&EXTREMES))),
                    _ => (tame(pick(&EXTREMES)), 0),
                }
            } else {
                (d, size / d)
            }
        }
        1 => {
            let n = size + 1;
            if choose(2) == 0 { (1, n) } else { (n, 1) }
        }
        2 => shape(),
        _ => {
            let e = pick(&EXTREMES);
            let f = if choose(2) == 0 { dim() } else { pick(&EXTREMES) };
            // wraps to a small product
            let (a, b) = match choose(3) {
                0 => (e, f),
                1 => (f, e),
                _ => (1 << 63, 2),
            };
            tame_empty((a, b))
        }
    }
}

fn s_reshape<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let (nr, nc) = target_shape(s.m.size());
    if logging() {
        ctl.args = format!("#{i} {}x{} {:?} -> ({nr}, {nc})", s.m.nrows(), s.m.ncols(), s.m.order());
    }
    let ok = nr.checked_mul(nc) == Some(s.m.size());
    let Some(r) = ctl.must("reshape", || s.m.reshape(ShapeArg(nr, nc)).map(|_| ())) else { return };
    ctl.expect(r == if ok { Ok(()) } else { Err(Error::SizeMismatch) }, "wrong-result", || {
        format!("reshape({nr}, {nc}) of {} elements returned {r:?}", s.model.size())
    });
    if r.is_ok() && ok {
        if nr.max(nc) > 100_000 {
            // an empty matrix of absurd extent: keep the model out of it
            s.m.reshape((0, 0)).unwrap();
            s.model = Model { order: s.m.order(), ..Model::new(0, 0, Order::RowMajor, |_, _| unreachable!()) };
            return;
        }
        let mem = s.model.mem();
        s.model = Model::from_mem(nr, nc, s.model.order, &mem);
    } else if r.is_err() {
        ctl.failed += 1;
        count("failed_ops", 1);
    }
}

fn s_resize<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let (nr, nc) = match weighted(&[60, 25, 15]) {
        0 => shape(),
        1 => target_shape(s.m.size()),
        _ => (s.m.nrows().min(1000) + choose(3), s.m.ncols().min(1000) + choose(3)),
    };
    if logging() {
        ctl.args = format!("#{i} {}x{} {:?} -> ({nr}, {nc})", s.m.nrows(), s.m.ncols(), s.m.order());
    }
    let want = match nr.checked_mul(nc) {
        None => Err(Error::SizeOverflow),
        Some(n) if n.saturating_mul(size_of::<E>()) > isize::MAX as usize => Err(Error::CapacityOverflow),
        Some(n) => Ok(n),
    };
    if matches!(want, Ok(n) if n > 70_000) {
        return; // possible, but not here
    }
    let Some(r) = ctl.must("resize", || s.m.resize(ShapeArg(nr, nc)).map(|_| ())) else { return };
    ctl.expect(r == want.map(|_| ()), "wrong-result", || format!("resize({nr}, {nc}) returned {r:?}"));
    match (r, want) {
        (Ok(()), Ok(n)) => {
            if nr.max(nc) > 100_000 {
                s.m.reshape((0, 0)).unwrap();
                s.model = Model { order: s.m.order(), ..Model::new(0, 0, Order::RowMajor, |_, _| unreachable!()) };
                return;
            }
            let mut mem = s.model.mem();
            mem.resize(n, Cell { val: E::norm(0), id: 0 });
            s.model = Model::from_mem(nr, nc, s.model.order, &mem);
        }
        (Err(_), _) => {
            ctl.failed += 1;
            count("failed_ops", 1);
        }
        _ => {}
    }
}

fn s_clear<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    if ctl.must("clear", || { s.m.clear(); }).is_some() {
        s.model = Model { order: s.m.order(), ..Model::new(0, 0, Order::RowMajor, |_, _| unreachable!()) };
    }
}

fn s_shrink<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let how = choose(2);
    let cap = range(0, 60);
    ctl.must("shrink", || {
        if how == 0 { s.m.shrink_to_fit() } else { s.m.shrink_to(cap) };
    });
}

// -------------------------------------------------------------------- swap

fn wrap_to(i: isize, n: usize) -> usize {
    (i as i128).rem_euclid(n as i128) as usize
}

fn w_swap<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let (nr, nc) = (s.m.nrows(), s.m.ncols());
    let a = (index_near(nr, 8), index_near(nc, 8));
    let b = (index_near(nr, 8), index_near(nc, 8));
    let inb = |(r, c): (usize, usize)| r < nr && c < nc;
    if logging() {
        ctl.args = format!("#{i} {nr}x{nc} {a:?} {b:?}");
    }
    let how = choose(4);
    let (mut pa, mut pb) = (a, b);
    let mut ok = inb(a) && inb(b);
    let r = match how {
        0 => ctl.must("swap", || s.m.swap(a, b).map(|_| ())),
        1 => ctl.must("swap", || s.m.swap(Idx(a.0, a.1), [b.0, b.1]).map(|_| ())),
        2 => ctl.must("swap", || s.m.swap(Index::new(a.0, a.1), Idx(b.0, b.1)).map(|_| ())),
        _ => {
            let (x, y) = ((a.0 as isize, a.1 as isize), (b.0 as isize).wrapping_neg());
            let y = (y, b.1 as isize);
            ok = nr * nc > 0;
            if ok {
                pa = (wrap_to(x.0, nr), wrap_to(x.1, nc));
                pb = (wrap_to(y.0, nr), wrap_to(y.1, nc));
            }
            ctl.must("swap(wrapping)", || {
                s.m.swap(WrappingIndex::new(x.0, x.1), WrappingIndex::new(y.0, y.1)).map(|_| ())
            })
        }
    };
    let Some(r) = r else { return };
    ctl.expect(r == if ok { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "wrong-result", || {
        format!("swap({a:?}, {b:?}) on {nr}x{nc} returned {r:?}")
    });
    if r.is_ok() && ok && !s.stale {
        let t = s.model.rows[pa.0][pa.1];
        s.model.rows[pa.0][pa.1] = s.model.rows[pb.0][pb.1];
        s.model.rows[pb.0][pb.1] = t;
    } else if r.is_err() {
        ctl.failed += 1;
        count("failed_ops", 1);
    }
}

fn w_swap_lines<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let rows = choose(2) == 0;
    let n = if rows { s.m.nrows() } else { s.m.ncols() };
    let (a, b) = (index_near(n, 8), index_near(n, 8));
    if logging() {
        ctl.args = format!("#{i} {}x{} {} {a} {b}", s.m.nrows(), s.m.ncols(), if rows { "rows" } else { "cols" });
    }
    let Some(r) = ctl.must("swap_rows/swap_cols", || {
        if rows { s.m.swap_rows(a, b).map(|_| ()) } else { s.m.swap_cols(a, b).map(|_| ()) }
    }) else {
        return;
    };
    let ok = a < n && b < n;
    ctl.expect(r == if ok { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "wrong-result", || {
        format!("swap of lines {a}, {b} out of {n} returned {r:?}")
    });
    if r.is_ok() && ok {
        if rows {
            s.model.rows.swap(a, b);
        } else {
            s.model.rows.iter_mut().for_each(|r| r.swap(a, b));
        }
    } else if r.is_err() {
        ctl.failed += 1;
        count("failed_ops", 1);
    }
}

// -------------------------------------------------------------------- edit

fn e_overwrite<E: Elem>(w: &mut World<E>) {
    let Some((i, j)) = w.two() else { return };
    if i == j {
        return;
    }
    let World { ms, ctl, .. } = w;
    let (a, b) = two_mut(ms, i, j);
    if ctl.must("overwrite", || { a.m.overwrite(&b.m); }).is_some() {
        a.model.forget();
        for r in 0..a.model.nr.min(b.model.nr) {
            for c in 0..a.model.nc.min(b.model.nc) {
                a.model.rows[r][c] = Cell { val: b.model.rows[r][c].val, id: 0 };
            }
        }
    }
}

fn upd(salt: u64, v: u64) -> u64 {
    mix(salt, v)
}

fn e_apply<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let salt = w.ctl.val();
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let ok = ctl.must("apply", || {
        s.m.apply(|e| {
            cb("cb_closure");
            e.set(upd(salt, e.val()))
        });
    });
    if ok.is_some() {
        s.model = s.model.map(|c| Cell { val: E::norm(upd(salt, c.val)), id: c.id });
    }
}

fn e_replace<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let e = w.new_elem();
    let new = cell(&e);
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let (nr, nc) = (s.m.nrows(), s.m.ncols());
    let (r, c) = (index_near(nr, 9), index_near(nc, 9));
    let ok = r < nr && c < nc;
    let how = choose(3);
    let mut e = Some(e);
    let out = ctl.call(|| match how {
        0 => match s.m.get_mut(Idx(r, c)) {
            Ok(p) => {
                *p = e.take().unwrap();
                true
            }
            Err(_) => false,
        },
        1 => {
            let p = &mut s.m[(r, c)];
            *p = e.take().unwrap();
            true
        }
        _ => {
            let p = &mut s.m[Index::new(r, c)];
            drop(std::mem::replace(p, e.take().unwrap()));
            true
        }
    });
    let done = match out {
        Ok(d) => d,
        Err(Died::Injected) => return,
        Err(Died::Other(_)) if how > 0 && !ok => false,
        Err(Died::Other(p)) => {
            violate("unexpected-panic", &p);
            return;
        }
    };
    ctl.expect(done == ok, "wrong-result", || format!("write access at ({r}, {c}) of {nr}x{nc}: {done}"));
    if done && ok {
        s.model.rows[r][c] = new;
    }
}

fn e_iter_mut<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let salt = w.ctl.val();
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let how = choose(6);
    let rev = choose(2) == 1;
    let (nr, nc) = (s.m.nrows(), s.m.ncols());
    if logging() {
        ctl.args = format!("#{i} {nr}x{nc} how={how} rev={rev}");
    }
    let n = choose(if how == 2 { nr } else { nc }.max(1));
    // a cursor may be abandoned half way
    let stop = if chance(1, 3) { choose(nr * nc + 1) } else { usize::MAX };
    let mut hits: Vec<(usize, usize)> = vec![];
    let mut left = stop;
    let mut fail = false;
    let ok = ctl.must("iter_mut", || {
        macro_rules! hit {
            ($e:expr, $r:expr, $c:expr) => {{
                if left == 0 {
                    return;
                }
                left -= 1;
                cb("cb_closure");
                let e: &mut E = $e;
                e.set(upd(salt, e.val()));
                let _p = heap::Pause::new();
                hits.push(($r, $c));
            }};
        }
        match how {
            0 => {
                for (r, it) in s.m.iter_rows_mut().enumerate().take(nr) {
                    if rev {
                        for (c, e) in it.rev().enumerate().take(nc) {
                            hit!(e, r, nc - 1 - c)
                        }
                    } else {
                        for (c, e) in it.enumerate().take(nc) {
                            hit!(e, r, c)
                        }
                    }
                }
            }
            1 => {
                for (c, it) in s.m.iter_cols_mut().rev().enumerate().take(nc) {
                    for (r, e) in it.enumerate().take(nr) {
                        hit!(e, r, nc - 1 - c)
                    }
                }
            }
            2 => match s.m.iter_nth_row_mut(n) {
                Ok(it) => {
                    for (c, e) in it.enumerate().take(nc) {
                        hit!(e, n, c)
                    }
                }
                Err(_) => fail = true,
            },
            3 => match s.m.iter_nth_col_mut(n) {
                Ok(it) => {
                    for (r, e) in it.enumerate().take(nr) {
                        hit!(e, r, n)
                    }
                }
                Err(_) => fail = true,
            },
            4 => {
                let o = s.m.order();
                let (a, b) = if o == Order::RowMajor { (nr, nc) } else { (nc, nr) };
                for (k, e) in s.m.iter_elements_mut().enumerate().take(a * b) {
                    let (x, y) = (k / b, k % b);
                    if o == Order::RowMajor { hit!(e, x, y) } else { hit!(e, y, x) }
                }
            }
            _ => {
                for (ix, e) in s.m.iter_elements_mut_with_index() {
                    hit!(e, ix.row, ix.col)
                }
            }
        }
    });
    ctl.expect(fail == ((how == 2 && n >= nr) || (how == 3 && n >= nc)), "wrong-result", || {
        format!("iter_nth_{{row,col}}_mut({n}) on {nr}x{nc}: error {fail}")
    });
    if ok.is_some() {
        for (r, c) in hits {
            if r < s.model.nr && c < s.model.nc {
                let x = &mut s.model.rows[r][c];
                x.val = E::norm(upd(salt, x.val));
            }
        }
    }
}

// --------------------------------------------------------------------- map

fn m_map<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let salt = w.ctl.val();
    let how = choose(7);
    let s = w.ms.remove(i);
    let World { ms, ctl, .. } = w;
    let v = |x: u64| E::norm(upd(salt, x));
    let model = s.model.clone();
    let stale = s.stale;
    let mut back = None;
    let out: Option<Result<Matrix<E>, Error>> = match how {
        0 => {
            let m = s.m;
            ctl.must("map", || {
                m.map(|e| {
                    cb("cb_closure");
                    E::make(upd(salt, e.val()))
                })
            })
        }
        1 => {
            // keeps the element
            let m = s.m;
            ctl.must("map", || {
                m.map(|mut e| {
                    cb("cb_closure");
                    e.set(upd(salt, e.val()));
                    e
                })
            })
        }
        2 => {
            let r = ctl.must("map_ref", || {
                s.m.map_ref(|e| {
                    cb("cb_closure");
                    E::make(upd(salt, e.val()))
                })
            });
            back = Some(s);
            r
        }
        3 => {
            let m = s.m;
            ctl.must("scalar_operation_consume_self", || {
                m.scalar_operation_consume_self(&salt, |e, s| {
                    cb("cb_closure");
                    E::make(upd(*s, e.val()))
                })
            })
        }
        4 => {
            let r = ctl.must("scalar_operation", || {
                s.m.scalar_operation(&salt, |e, s| {
                    cb("cb_closure");
                    E::make(upd(*s, e.val()))
                })
            });
            back = Some(s);
            r
        }
        5 => {
            let m = s.m;
            ctl.must("neg", || Ok(-m))
        }
        _ => {
            let r = ctl.must("neg(&)", || Ok(-&s.m));
            back = Some(s);
            r
        }
    };
    if let Some(s) = back {
        ms.push(s);
    }
    if let Some(r) = out {
        ctl.expect(r.is_ok(), "unexpected-error", || format!("map-like operation {how}: {:?}", r.as_ref().err()));
        if let Ok(m) = r {
            let mut model = if how < 5 { model.map_val(v) } else { model.map_val(|x| E::norm(v_neg(x))) };
            if how == 1 {
                // the closure hands the very element back
                model.forget();
            }
            ctl.expect(m.order() == model.order, "wrong-order", || format!("map-like operation {how}"));
            w.push(m, model);
            let k = w.ms.len() - 1;
            w.ms[k].stale = stale;
            w.trim();
        }
    }
}

/// Mapping to another element type and back to nothing.
fn m_map_away<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let World { ms, ctl, .. } = w;
    let s = &ms[i];
    let out = ctl.must("map_ref", || {
        s.m.map_ref(|e| {
            cb("cb_closure");
            (e.val(), e)
        })
        .map(|m| (m.nrows(), m.ncols(), m.order(), m.into_iter_elements().map(|(v, e)| (v, e.val())).collect::<Vec<_>>()))
    });
    if let Some(Ok((nr, nc, o, v))) = out {
        if s.stale {
            return;
        }
        ctl.expect((nr, nc, o) == (s.model.nr, s.model.nc, s.model.order), "wrong-shape", || "map_ref".into());
        ctl.expect(v.iter().all(|(a, b)| a == b) && v.len() == s.model.size(), "wrong-contents", || "map_ref".into());
    } else if let Some(Err(e)) = out {
        ctl.expect(false, "unexpected-error", || format!("map_ref: {e:?}"));
    }
}

fn m_consume<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let s = w.ms.remove(i);
    let (m, model, stale) = (s.m, s.model, s.stale);
    let n = model.size();
    let front = choose(n + 2);
    let back = choose(n + 2);
    let indexed = choose(2) == 1;
    let keep = chance(1, 4);
    w.args(|| format!("{}x{} front {front} back {back} indexed {indexed}", model.nr, model.nc));
    let mut got: Vec<(usize, E)> = vec![];
    let mut gotx: Vec<(Index, E)> = vec![];
    let mut bad_len = false;
    let r = w.ctl.must("into_iter_elements", || {
        if indexed {
            let mut it = m.into_iter_elements_with_index();
            for _ in 0..front {
                if let Some(x) = it.next() {
                    gotx.push(x)
                }
            }
            for _ in 0..back {
                if let Some(x) = it.next_back() {
                    gotx.push(x)
                }
            }
            bad_len = it.len() != n.saturating_sub(front + back);
        } else {
            let mut it = m.into_iter_elements();
            for k in 0..front {
                if let Some(x) = it.next() {
                    got.push((k, x))
                }
            }
            for k in 0..back {
                if let Some(x) = it.next_back() {
                    got.push((n.wrapping_sub(1 + k), x))
                }
            }
            bad_len = it.len() != n.saturating_sub(front + back);
        }
    });
    if r.is_some() && !stale {
        w.ctl.expect(got.len() + gotx.len() == n.min(front + back) && !bad_len, "wrong-result", || {
            format!("into_iter_elements: {} items, {front}+{back} asked of {n}", got.len() + gotx.len())
        });
        let mem = model.mem();
        for (k, e) in &got {
            let c = mem.get(*k).copied();
            w.ctl.expect(c.map(|c| c.val) == Some(e.val()), "wrong-contents", || format!("into_iter_elements at {k}"));
        }
        for (ix, e) in &gotx {
            let ok = ix.row < model.nr && ix.col < model.nc && model.at(ix.row, ix.col).val == e.val();
            w.ctl.expect(ok, "wrong-contents", || format!("into_iter_elements_with_index at {ix:?}"));
        }
    }
    if keep && w.held.len() < 50 {
        w.held.extend(got.into_iter().map(|x| x.1));
        w.held.extend(gotx.into_iter().map(|x| x.1));
    } else if chance(1, 2) {
        w.held.clear();
    }
}

// -------------------------------------------------------------- arithmetic

fn vop(k: usize) -> fn(u64, u64) -> u64 {
    [v_add, v_sub, v_mul, v_div, v_rem][k]
}

fn a_elementwise<E: Elem>(w: &mut World<E>) {
    let Some((i, j)) = w.mate() else { return };
    let k = choose(5);
    let how = choose(4);
    let f = vop(k);
    let (a, b) = (&w.ms[i].model, &w.ms[j].model);
    let fits = (a.nr, a.nc) == (b.nr, b.nc);
    let stale = w.ms[i].stale || w.ms[j].stale;
    let model = if fits && !stale {
        Model::new(a.nr, a.nc, a.order, |r, c| Cell { val: E::norm(f(a.at(r, c).val, b.at(r, c).val)), id: 0 })
    } else {
        a.clone()
    };
    w.args(|| format!("#{i} #{j} op {k} how {how} conformable {fits}"));
    let consume = how % 2 == 1 && i != j;
    let out = if !consume {
        let World { ms, ctl, .. } = w;
        let (a, b) = (&ms[i].m, &ms[j].m);
        ctl.must("elementwise", || match (how, k) {
            (0 | 1, _) => a.elementwise_operation(b, |x, y| {
                cb("cb_closure");
                E::make(f(x.val(), y.val()))
            }),
            (_, 0) => a.elementwise_add(b),
            (_, 1) => a.elementwise_sub(b),
            (_, 2) => a.elementwise_mul(b),
            (_, 3) => a.elementwise_div(b),
            _ => a.elementwise_rem(b),
        })
    } else {
        let s = w.ms.remove(i);
        let j = if j > i { j - 1 } else { j };
        let World { ms, ctl, .. } = w;
        let (a, b) = (s.m, &ms[j].m);
        ctl.must("elementwise_consume_self", || match (how, k) {
            (1, _) => a.elementwise_operation_consume_self(b, |x, y| {
                cb("cb_closure");
                E::make(f(x.val(), y.val()))
            }),
            (_, 0) => a.elementwise_add_consume_self(b),
            (_, 1) => a.elementwise_sub_consume_self(b),
            (_, 2) => a.elementwise_mul_consume_self(b),
            (_, 3) => a.elementwise_div_consume_self(b),
            _ => a.elementwise_rem_consume_self(b),
        })
    };
    let Some(r) = out else { return };
    if !fits {
        w.ctl.failed += 1;
        count("failed_ops", 1);
    }
    if !stale {
        w.ctl.expect(r.as_ref().err() == (!fits).then_some(&Error::ShapeNotConformable), "wrong-result", || {
            format!("elementwise operation, conformable {fits}: {:?}", r.as_ref().err())
        });
    }
    if let Ok(m) = r {
        w.ctl.expect(!fits || stale || m.order() == model.order, "wrong-order", || "elementwise result".into());
        w.push(m, model);
        let k = w.ms.len() - 1;
        w.ms[k].stale = stale || !fits;
    }
    w.trim();
}

fn a_operator<E: Elem>(w: &mut World<E>) {
    let Some((i, j)) = w.mate() else { return };
    if i == j {
        return;
    }
    let how = choose(8);
    let sub = how >= 4;
    let f = if sub { v_sub } else { v_add };
    let (a, b) = (&w.ms[i].model, &w.ms[j].model);
    let fits = (a.nr, a.nc) == (b.nr, b.nc);
    let stale = w.ms[i].stale || w.ms[j].stale;
    let model = if fits && !stale {
        Model::new(a.nr, a.nc, a.order, |r, c| Cell { val: E::norm(f(a.at(r, c).val, b.at(r, c).val)), id: 0 })
    } else {
        a.clone()
    };
    w.args(|| format!("#{i} #{j} how {how} conformable {fits}"));
    let (own_a, own_b) = (how % 2 == 0, how / 2 % 2 == 0);
    // take the consumed operands out of the pool
    let mut taken: Vec<(usize, Slot<E>)> = vec![];
    let (hi, lo) = (i.max(j), i.min(j));
    for x in [hi, lo] {
        taken.push((x, w.ms.remove(x)));
    }
    let pos = |t: &Vec<(usize, Slot<E>)>, x| t.iter().position(|s| s.0 == x).unwrap();
    let sa = taken.remove(pos(&taken, i)).1;
    let sb = taken.remove(pos(&taken, j)).1;
    let mut backs = vec![];
    let out = match (own_a, own_b) {
        (true, true) => {
            let (a, b) = (sa.m, sb.m);
            w.ctl.call(|| if sub { a - b } else { a + b })
        }
        (true, false) => {
            let a = sa.m;
            let r = w.ctl.call(|| if sub { a - &sb.m } else { a + &sb.m });
            backs.push(sb);
            r
        }
        (false, true) => {
            let b = sb.m;
            let r = w.ctl.call(|| if sub { &sa.m - b } else { &sa.m + b });
            backs.push(sa);
            r
        }
        (false, false) => {
            let r = w.ctl.call(|| if sub { &sa.m - &sb.m } else { &sa.m + &sb.m });
            backs.push(sa);
            backs.push(sb);
            r
        }
    };
    w.ms.extend(backs);
    match out {
        Ok(m) => {
            w.ctl.expect(fits || stale, "wrong-result", || "operator on non-conformable operands returned".into());
            w.push(m, model);
            let k = w.ms.len() - 1;
            w.ms[k].stale = stale || !fits;
        }
        Err(Died::Injected) => return,
        Err(Died::Other(p)) => {
            count("failed_ops", 1);
            w.ctl.expect(!fits || stale, "unexpected-panic", || p)
        }
    }
    w.trim();
}

fn a_multiply<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    if w.ms[i].stale {
        return;
    }
    let (nr, k) = (w.ms[i].model.nr, w.ms[i].model.nc);
    // usually make a partner that fits
    let j = if chance(1, 4) {
        choose(w.ms.len())
    } else {
        let nc = if chance(1, 12) { range(5, 40) } else { range(0, 4) };
        if k * nc > 1200 {
            return;
        }
        let (flat, cells) = w.new_elems(k * nc);
        let mut m = Matrix::from_row(flat);
        m.reshape((k, nc)).unwrap();
        let mut model = Model::new(k, nc, m.order(), |r, c| cells[r * nc + c]);
        if choose(2) == 1 {
            m.switch_order();
            model.order = m.order();
        }
        w.push(m, model);
        w.ms.len() - 1
    };
    if i == j || w.ms[j].stale {
        return;
    }
    let (k2, nc) = (w.ms[j].model.nr, w.ms[j].model.nc);
    if nr * nc * k.max(1) > if chance(1, 12) { 30_000 } else { 1000 } {
        return;
    }
    let fits = k == k2;
    let how = choose(6);
    w.args(|| format!("{nr}x{k} * {k2}x{nc} how {how}"));
    let (a, b) = (w.ms[i].model.clone(), w.ms[j].model.clone());
    let like = |x: &[u64], y: &[u64]| {
        x.iter().zip(y).fold(mix(x.len() as u64, y.len() as u64), |h, (p, q)| mix(h, v_mul(*p, *q)))
    };
    let order = a.order;
    let model = if fits {
        Model::new(nr, nc, order, |r, c| {
            let val = if k == 0 {
                0
            } else if how == 1 {
                let x: Vec<u64> = (0..k).map(|t| a.at(r, t).val).collect();
                let y: Vec<u64> = (0..k).map(|t| b.at(t, c).val).collect();
                like(&x, &y)
            } else {
                (0..k).fold(0, |s, t| E::norm(v_add(s, E::norm(v_mul(a.at(r, t).val, b.at(t, c).val)))))
            };
            Cell { val: E::norm(val), id: 0 }
        })
    } else {
        a.clone()
    };
    let own_a = how != 3 && how != 5;
    let own_b = how != 4 && how != 5;
    let (sa, sb) = if i > j {
        let x = w.ms.remove(i);
        let y = w.ms.remove(j);
        (x, y)
    } else {
        let y = w.ms.remove(j);
        let x = w.ms.remove(i);
        (x, y)
    };
    let (mut ba, mut bb) = (None, None);
    let (oa, ob);
    if own_a {
        oa = Some(sa.m);
    } else {
        oa = None;
        ba = Some(sa);
    }
    if own_b {
        ob = Some(sb.m);
    } else {
        ob = None;
        bb = Some(sb);
    }
    let out: Result<Result<Matrix<E>, Error>, Died> = w.ctl.call(|| match how {
        0 => oa.unwrap().multiply(ob.unwrap()),
        1 => oa.unwrap().multiplication_like_operation(ob.unwrap(), |x: &[E], y: &[E]| {
            cb("cb_closure");
            let (x, y): (Vec<u64>, Vec<u64>) = (x.iter().map(E::val).collect(), y.iter().map(E::val).collect());
            E::make(like(&x, &y))
        }),
        2 => Ok(oa.unwrap() * ob.unwrap()),
        3 => Ok(&ba.as_ref().unwrap().m * ob.unwrap()),
        4 => Ok(oa.unwrap() * &bb.as_ref().unwrap().m),
        _ => Ok(&ba.as_ref().unwrap().m * &bb.as_ref().unwrap().m),
    });
    w.ms.extend(ba);
    w.ms.extend(bb);
    match out {
        Ok(Ok(m)) => {
            w.ctl.expect(fits, "wrong-result", || "product of non-conformable matrices".into());
            w.ctl.expect(!fits || m.order() == order, "wrong-order", || "product".into());
            w.push(m, model);
            let n = w.ms.len() - 1;
            w.ms[n].stale = !fits;
        }
        Ok(Err(e)) => {
            count("failed_ops", 1);
            w.ctl.expect(!fits && e == Error::ShapeNotConformable, "wrong-result", || format!("multiply: {e:?}"));
        }
        Err(Died::Injected) => return,
        Err(Died::Other(p)) => {
            count("failed_ops", 1);
            w.ctl.expect(!fits && how >= 2, "unexpected-panic", || p)
        }
    }
    w.trim();
}

// ---------------------------------------------------- assigning arithmetic

fn g_assign<E: Elem>(w: &mut World<E>) {
    let Some((i, j)) = w.mate() else { return };
    if i == j {
        return;
    }
    let k = choose(5);
    let how = choose(4);
    let k = if how >= 2 { k % 2 } else { k };
    let f = vop(k);
    let World { ms, ctl, .. } = w;
    let stale = ms[i].stale || ms[j].stale;
    let fits = (ms[i].m.nrows(), ms[i].m.ncols()) == (ms[j].m.nrows(), ms[j].m.ncols());
    if logging() {
        ctl.args = format!("#{i} #{j} op {k} how {how} conformable {fits}");
    }
    let taken = if how == 3 { Some(ms.remove(j)) } else { None };
    let i = if how == 3 && j < i { i - 1 } else { i };
    let bmodel = match &taken {
        Some(s) => s.model.clone(),
        None => ms[j].model.clone(),
    };
    let out = if let Some(b) = taken {
        let a = &mut ms[i];
        let b = b.m;
        ctl.call(|| {
            if k == 0 { a.m += b } else { a.m -= b }
            Ok(())
        })
    } else {
        let (a, b) = two_mut(ms, i, j);
        let (a, b) = (&mut a.m, &b.m);
        ctl.call(|| match (how, k) {
            (0, _) => a
                .elementwise_operation_assign(b, |x, y| {
                    cb("cb_closure");
                    x.set(f(x.val(), y.val()))
                })
                .map(|_| ()),
            (1, 0) => a.elementwise_add_assign(b).map(|_| ()),
            (1, 1) => a.elementwise_sub_assign(b).map(|_| ()),
            (1, 2) => a.elementwise_mul_assign(b).map(|_| ()),
            (1, 3) => a.elementwise_div_assign(b).map(|_| ()),
            (1, _) => a.elementwise_rem_assign(b).map(|_| ()),
            (_, 0) => {
                *a += b;
                Ok(())
            }
            _ => {
                *a -= b;
                Ok(())
            }
        })
    };
    let s = &mut ms[i];
    match out {
        Ok(r) => {
            ctl.expect(stale || r == if fits { Ok(()) } else { Err(Error::ShapeNotConformable) }, "wrong-result", || {
                format!("assigning operation {how}/{k}, conformable {fits}: {r:?}")
            });
            if r.is_ok() && fits && !stale {
                let a = s.model.clone();
                s.model = Model::new(a.nr, a.nc, a.order, |r, c| Cell {
                    val: E::norm(f(a.at(r, c).val, bmodel.at(r, c).val)),
                    id: 0,
                });
            } else if r.is_ok() {
                s.stale = true;
            } else {
                ctl.failed += 1;
                count("failed_ops", 1);
            }
        }
        Err(Died::Injected) => {}
        Err(Died::Other(p)) => {
            ctl.failed += 1;
            count("failed_ops", 1);
            ctl.expect(stale || (!fits && how >= 2), "unexpected-panic", || p);
        }
    }
}

fn g_scalar_assign<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let salt = w.ctl.val();
    let World { ms, ctl, .. } = w;
    let s = &mut ms[i];
    let ok = ctl.must("scalar_operation_assign", || {
        s.m.scalar_operation_assign(&salt, |e, s| {
            cb("cb_closure");
            e.set(upd(*s, e.val()))
        });
    });
    if ok.is_some() {
        s.model = s.model.map(|c| Cell { val: E::norm(upd(salt, c.val)), id: c.id });
    }
}

// -------------------------------------------------------------------- read

fn r_read<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let how = choose(7);
    let World { ms, ctl, .. } = w;
    let s = &ms[i];
    let stale = s.stale;
    let (nr, nc) = (s.m.nrows(), s.m.ncols());
    let vals: Vec<u64> = s.model.rows.iter().flatten().map(|c| c.val).collect();
    match how {
        0 => {
            let x = E::make(if vals.is_empty() || chance(1, 3) { 999_999 } else { pick(&vals) });
            let want = vals.contains(&x.val());
            if let Some(got) = ctl.must("contains", || s.m.contains(&x)) {
                ctl.expect(stale || got == want, "wrong-result", || format!("contains({}) = {got}", x.val()));
            }
        }
        1 => {
            if let Some(got) = ctl.must("get", || s.m.get(Idx(nr / 2, nc / 2)).map(|e| e.val())) {
                let want = if nr > 0 && nc > 0 { Ok(s.model.at(nr / 2, nc / 2).val) } else { Err(Error::IndexOutOfBounds) };
                ctl.expect(stale || got == want, "wrong-result", || format!("get({}, {}): {got:?}", nr / 2, nc / 2));
            }
        }
        2 => {
            let got = ctl.must("iter_rows", || {
                s.m.iter_rows().flat_map(|r| r.map(|e| e.val())).collect::<Vec<_>>()
            });
            ctl.expect(stale || got.is_none() || got == Some(vals), "wrong-contents", || "iter_rows".into());
        }
        3 => {
            let got = ctl.must("iter_cols", || {
                s.m.iter_cols().flat_map(|r| r.map(|e| e.val())).collect::<Vec<_>>()
            });
            let want: Vec<u64> = s.model.transposed().rows.iter().flatten().map(|c| c.val).collect();
            ctl.expect(stale || got.is_none() || got == Some(want), "wrong-contents", || "iter_cols".into());
        }
        4 => {
            let got = ctl.must("iter_elements", || s.m.iter_elements().map(|e| e.val()).collect::<Vec<_>>());
            let want: Vec<u64> = s.model.mem().iter().map(|c| c.val).collect();
            ctl.expect(stale || got.is_none() || got == Some(want), "wrong-contents", || "iter_elements".into());
        }
        5 => {
            ctl.must("Display", || format!("{}", s.m).len());
        }
        _ => {
            ctl.must("Debug", || format!("{:?}", s.m).len());
        }
    }
}

fn r_eq<E: Elem>(w: &mut World<E>) {
    let Some((i, j)) = w.two() else { return };
    let World { ms, ctl, .. } = w;
    let (a, b) = (&ms[i], &ms[j]);
    if let Some(got) = ctl.must("==", || a.m == b.m) {
        let want = (a.model.nr, a.model.nc) == (b.model.nr, b.model.nc)
            && a.model.rows.iter().flatten().zip(b.model.rows.iter().flatten()).all(|(x, y)| x.val == y.val);
        ctl.expect(a.stale || b.stale || got == want, "wrong-result", || format!("#{i} == #{j}: {got}"));
    }
}

// ---------------------------------------------------------------- parallel

fn p_par<E: Elem>(w: &mut World<E>) {
    let Some(i) = w.pick() else { return };
    let salt = w.ctl.val();
    let how = choose(8);
    let threads = range(1, 8);
    rayon_core::sim::configure(rayon_core::sim::Mode::Inline, threads);
    let s = w.ms.remove(i);
    let World { ms, ctl, .. } = w;
    let model = s.model.clone();
    let stale = s.stale;
    let mut new: Option<(Matrix<E>, Model)> = None;
    let mut back = None;
    let f = |e: &mut E| {
        cb("cb_closure");
        e.set(upd(salt, e.val()))
    };
    match how {
        0 | 1 | 2 => {
            let mut s = s;
            let ok = ctl.must("par_apply", || match how {
                0 => {
                    s.m.par_apply(f);
                }
                1 => s.m.par_iter_elements_mut().for_each(f),
                _ => s.m.par_iter_elements_mut_with_index().for_each(|(_, e)| f(e)),
            });
            if ok.is_some() {
                s.model = s.model.map(|c| Cell { val: E::norm(upd(salt, c.val)), id: c.id });
            }
            back = Some(s);
        }
        3 => {
            let m = s.m;
            let r = ctl.must("par_map", || {
                m.par_map(|e| {
                    cb("cb_closure");
                    E::make(upd(salt, e.val()))
                })
            });
            if let Some(r) = r {
                ctl.expect(r.is_ok(), "unexpected-error", || "par_map".into());
                new = r.ok().map(|m| (m, model.map_val(|x| E::norm(upd(salt, x)))));
            }
        }
        4 => {
            let r = ctl.must("par_map_ref", || {
                s.m.par_map_ref(|e| {
                    cb("cb_closure");
                    E::make(upd(salt, e.val()))
                })
            });
            back = Some(s);
            if let Some(r) = r {
                ctl.expect(r.is_ok(), "unexpected-error", || "par_map_ref".into());
                new = r.ok().map(|m| (m, model.map_val(|x| E::norm(upd(salt, x)))));
            }
        }
        5 => {
            let m = s.m;
            let want: u64 = model.rows.iter().flatten().fold(0, |a, c| v_add(a, c.val));
            let r = ctl.must("into_par_iter_elements", || {
                m.into_par_iter_elements().map(|e| {
                    cb("cb_closure");
                    e.val()
                }).reduce(|| 0, v_add)
            });
            if let Some(r) = r {
                ctl.expect(stale || r == want, "wrong-contents", || "into_par_iter_elements".into());
            }
        }
        6 => {
            let m = s.m;
            let r = ctl.must("into_par_iter_elements_with_index", || {
                m.into_par_iter_elements_with_index().map(|(i, e)| {
                    cb("cb_closure");
                    (i.row, i.col, e.val())
                }).collect::<Vec<_>>()
            });
            if let Some(r) = r {
                let ok = r.len() == model.size()
                    && r.iter().all(|(a, b, v)| *a < model.nr && *b < model.nc && model.at(*a, *b).val == *v);
                ctl.expect(stale || ok, "wrong-contents", || "into_par_iter_elements_with_index".into());
            }
        }
        _ => {
            let r = ctl.must("par_iter_elements", || {
                s.m.par_iter_elements().map(|e| {
                    cb("cb_closure");
                    e.val()
                }).reduce(|| 0, v_add)
            });
            back = Some(s);
            let want: u64 = model.rows.iter().flatten().fold(0, |a, c| v_add(a, c.val));
            if let Some(r) = r {
                ctl.expect(stale || r == want, "wrong-contents", || "par_iter_elements".into());
            }
        }
    }
    ms.extend(back);
    rayon_core::sim::configure(rayon_core::sim::Mode::Off, 4);
    if let Some((m, model)) = new {
        w.ctl.expect(m.order() == model.order, "wrong-order", || format!("parallel operation {how}"));
        w.push(m, model);
        let k = w.ms.len() - 1;
        w.ms[k].stale = stale;
        w.trim();
    }
}

/// A failing sink under `Display`/`Debug`.
fn r_fmt_sink<E: Elem>(w: &mut World<E>) {
    struct Sink(usize);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            cb("cb_sink");
            if self.0 < s.len() {
                return Err(std::fmt::Error);
            }
            self.0 -= s.len();
            Ok(())
        }
    }
    use std::fmt::Write;
    let Some(i) = w.pick() else { return };
    let n = choose(200);
    let debug = choose(2) == 1;
    let World { ms, ctl, .. } = w;
    let m = &ms[i].m;
    ctl.must("formatting into a full sink", || {
        let mut s = Sink(n);
        let _ = if debug { write!(s, "{m:?}") } else { write!(s, "{m}") };
    });
}

pub fn all<E: Elem>() -> Vec<Op<E>> {
    macro_rules! t {
        ($($g:ident $w:literal $f:ident;)*) => {
            vec![$(Op { name: stringify!($f), group: G::$g, weight: $w, f: $f::<E> },)*]
        };
    }
    t! {
        Build 2 b_new; Build 3 b_with_default; Build 3 b_with_value; Build 4 b_with_initializer;
        Build 3 b_from_line; Build 3 b_from_array; Build 6 b_from_rows; Build 2 b_ragged; Build 2 b_macros;
        Build 3 b_clone; Build 2 b_clone_from; Build 2 b_move;
        Order 5 o_transpose; Order 4 o_switch; Order 3 o_switch_wr; Order 3 o_set; Order 3 o_set_wr;
        Shape 6 s_reshape; Shape 8 s_resize; Shape 1 s_clear; Shape 2 s_shrink;
        Swap 4 w_swap; Swap 4 w_swap_lines;
        Edit 6 e_overwrite; Edit 3 e_apply; Edit 4 e_replace; Iter 6 e_iter_mut;
        Map 6 m_map; Map 1 m_map_away; Iter 4 m_consume;
        Arith 6 a_elementwise; Arith 4 a_operator; Arith 5 a_multiply;
        Assign 6 g_assign; Assign 2 g_scalar_assign;
        Read 5 r_read; Read 3 r_eq; Read 1 r_fmt_sink;
        Par 5 p_par;
    }
}
