//! The reference model (rows of rows) and the world the clients act on.

use crate::elem::{self, Elem};
use matreex::{Matrix, Order};
use simrt::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cell {
    pub val: u64,
    /// 0 = unknown (freshly created by the library).
    pub id: u32,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub nr: usize,
    pub nc: usize,
    pub order: Order,
    pub rows: Vec<Vec<Cell>>,
}

pub fn other(o: Order) -> Order {
    match o {
        Order::RowMajor => Order::ColMajor,
        Order::ColMajor => Order::RowMajor,
    }
}

impl Model {
    pub fn new(nr: usize, nc: usize, order: Order, f: impl Fn(usize, usize) -> Cell) -> Self {
        let rows = (0..nr).map(|r| (0..nc).map(|c| f(r, c)).collect()).collect();
        Model { nr, nc, order, rows }
    }
    pub fn size(&self) -> usize {
        self.nr * self.nc
    }
    pub fn at(&self, r: usize, c: usize) -> Cell {
        self.rows[r][c]
    }
    /// The elements in memory order, as the documentation defines it.
    pub fn mem(&self) -> Vec<Cell> {
        match self.order {
            Order::RowMajor => self.rows.iter().flatten().copied().collect(),
            Order::ColMajor => {
                (0..self.nc).flat_map(|c| (0..self.nr).map(move |r| (r, c))).map(|(r, c)| self.at(r, c)).collect()
            }
        }
    }
    pub fn from_mem(nr: usize, nc: usize, order: Order, mem: &[Cell]) -> Self {
        Model::new(nr, nc, order, |r, c| match order {
            Order::RowMajor => mem[r * nc + c],
            Order::ColMajor => mem[c * nr + r],
        })
    }
    pub fn transposed(&self) -> Self {
        Model::new(self.nc, self.nr, self.order, |r, c| self.at(c, r))
    }
    /// `*_without_rearrangement`: same memory sequence, other order.
    pub fn reinterpreted(&self) -> Self {
        let mut t = self.transposed();
        t.order = other(self.order);
        t
    }
    pub fn map(&self, f: impl Fn(Cell) -> Cell) -> Self {
        Model::new(self.nr, self.nc, self.order, |r, c| f(self.at(r, c)))
    }
    pub fn map_val(&self, f: impl Fn(u64) -> u64) -> Self {
        self.map(|c| Cell { val: f(c.val), id: 0 })
    }
    pub fn fresh_ids(&self) -> Self {
        self.map(|c| Cell { val: c.val, id: 0 })
    }
    /// Forgets the identities only.
    pub fn forget(&mut self) {
        for c in self.rows.iter_mut().flatten() {
            c.id = 0;
        }
    }
}

pub struct Slot<E> {
    pub m: Matrix<E>,
    pub model: Model,
    /// The model could not be kept up; read it back before judging again.
    pub stale: bool,
}

/// What the oracle of a step compares.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Judge {
    /// Coherence and ledger only.
    Coherence,
    /// Plus contents against the model.
    Content,
    /// Plus the identity of elements where the model knows it.
    Identity,
}

pub enum Died {
    Injected,
    Other(String),
}

/// Controls how library calls of a step are made.
pub struct Ctl {
    /// `Some(k)`: this step is the target of the fault plan.
    pub armed: Option<u64>,
    pub judge: Judge,
    pub faulted: bool,
    pub callbacks: u64,
    /// Failed operations seen (error or documented panic).
    pub failed: u64,
    pub next_val: u64,
    /// Arguments chosen by operations, for the trace.
    pub args: String,
}

impl Ctl {
    /// Makes a library call. An injected crash is caught and remembered.
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, Died> {
        if let Some(k) = self.armed {
            let base = self.callbacks;
            let _ = base;
            cb_begin(k.saturating_sub(self.callbacks) * u64::from(k > self.callbacks));
        }
        let r = attempt(f);
        if self.armed.is_some() {
            let (n, _) = cb_end();
            self.callbacks += n;
        }
        match r {
            Ok(r) => Ok(r),
            Err(p) if p.is::<Injected>() => {
                self.faulted = true;
                event("fault", self.callbacks, 0);
                Err(Died::Injected)
            }
            Err(p) => {
                let s = payload_str(&*p);
                Err(Died::Other(s))
            }
        }
    }
    /// A call that must not panic on its own account.
    pub fn must<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match self.call(f) {
            Ok(r) => Some(r),
            Err(Died::Injected) => None,
            Err(Died::Other(s)) => {
                violate("unexpected-panic", &format!("{what}: {s}"));
                None
            }
        }
    }
    pub fn content(&self) -> bool {
        self.judge != Judge::Coherence
    }
    /// A content-level expectation.
    pub fn expect(&self, ok: bool, class: &str, msg: impl FnOnce() -> String) {
        if self.content() && !self.faulted {
            ensure(ok, class, msg);
        }
    }
    pub fn val(&mut self) -> u64 {
        self.next_val += 1;
        self.next_val
    }
}

pub struct World<E> {
    pub ms: Vec<Slot<E>>,
    pub ctl: Ctl,
    /// Elements the harness itself holds on to.
    pub held: Vec<E>,
}

pub const POOL: usize = 4;

impl<E: Elem> World<E> {
    pub fn new(judge: Judge) -> Self {
        World {
            ms: Vec::new(),
            ctl: Ctl {
                armed: None,
                judge,
                faulted: false,
                callbacks: 0,
                failed: 0,
                next_val: 0,
                args: String::new(),
            },
            held: Vec::new(),
        }
    }

    pub fn pick(&self) -> Option<usize> {
        (!self.ms.is_empty()).then(|| choose(self.ms.len()))
    }

    pub fn args(&mut self, f: impl FnOnce() -> String) {
        if logging() {
            self.ctl.args = f();
        }
    }

    pub fn push(&mut self, m: Matrix<E>, model: Model) {
        self.ms.push(Slot { m, model, stale: false });
    }

    /// Keeps the pool small; dropping a matrix is itself an operation.
    pub fn trim(&mut self) {
        while self.ms.len() > POOL {
            let s = self.ms.remove(choose(self.ms.len()));
            let m = s.m;
            self.ctl.must("drop(matrix)", || drop(m));
        }
    }

    /// The oracle, after a step.
    pub fn check(&mut self, what: &str, leaks_allowed: bool) {
        let judge = self.ctl.judge;
        for (k, s) in self.ms.iter_mut().enumerate() {
            check_slot(k, s, judge, what);
        }
        self.held.iter().for_each(|e| {
            e.val();
        });
        if E::TRACKED && !leaks_allowed {
            let want: usize = self.ms.iter().map(|s| s.m.size()).sum::<usize>() + self.held.len();
            let have = elem::live();
            ensure(have == want, if have > want { "leak" } else { "lost-element" }, || {
                format!("after {what}: {have} elements alive, the matrices hold {want}")
            });
        }
    }

    /// A hash of the observable state, for the distinct-state measure.
    pub fn state_hash(&self) -> u64 {
        let mut h = 0;
        for s in &self.ms {
            h = mix(h, mix(s.m.nrows() as u64, mix(s.m.ncols() as u64, (s.m.order() == Order::RowMajor) as u64)));
            for c in s.model.rows.iter().flatten() {
                h = mix(h, c.val);
            }
        }
        h
    }

    pub fn end(&mut self, leaks_allowed: bool) {
        let ms = std::mem::take(&mut self.ms);
        for s in ms {
            let m = s.m;
            self.ctl.must("drop(matrix) at the end", || drop(m));
        }
        self.held.clear();
        if E::TRACKED && !leaks_allowed {
            let n = elem::live();
            ensure(n == 0, "leak", || format!("{n} elements still alive after every matrix is gone"));
        }
    }
}

/// Coherence of one matrix, and its contents against the model.
pub fn check_slot<E: Elem>(k: usize, s: &mut Slot<E>, judge: Judge, what: &str) {
    let Ok(()) = attempt(|| check_slot_inner(k, s, judge, what)).map_err(|p| {
        violate("unexpected-panic", &format!("reading matrix {k} after {what}: {}", payload_str(&*p)))
    }) else {
        return;
    };
}

fn check_slot_inner<E: Elem>(k: usize, s: &mut Slot<E>, judge: Judge, what: &str) {
    let m = &s.m;
    let (nr, nc, size) = (m.nrows(), m.ncols(), m.size());
    let shape = m.shape();
    ensure(shape.nrows() == nr && shape.ncols() == nc, "incoherent", || {
        format!("after {what}: matrix {k}: shape() says {:?}, nrows()/ncols() {nr}x{nc}", (shape.nrows(), shape.ncols()))
    });
    let coherent = nr.checked_mul(nc) == Some(size);
    if !ensure(coherent, "incoherent", || {
        format!("after {what}: matrix {k} is {nr}x{nc} but size() is {size}")
    }) {
        stop_if_violated();
        return;
    }
    ensure(m.is_empty() == (size == 0), "incoherent", || format!("after {what}: matrix {k}: is_empty()"));
    ensure(m.capacity() >= size, "incoherent", || format!("after {what}: matrix {k}: capacity below size"));
    if size > 80_000 {
        return;
    }
    if nr.max(nc) > 100_000 {
        // An empty matrix of absurd extent (a fault struck on the way to it):
        // coherent, but nothing more to see. Bring it back to a sane one.
        let order = m.order();
        let r = s.m.reshape((0, 0)).map(|_| ());
        ensure(r == Ok(()), "incoherent", || format!("after {what}: matrix {k} ({nr}x{nc}): reshape((0, 0)) = {r:?}"));
        s.model = Model { nr: 0, nc: 0, order, rows: vec![] };
        s.stale = false;
        stop_if_violated();
        return;
    }
    let m = &s.m;
    let mut read: Vec<Vec<Cell>> = Vec::with_capacity(nr);
    let mut addrs: Vec<usize> = Vec::with_capacity(size);
    for r in 0..nr {
        let mut row = Vec::with_capacity(nc);
        for c in 0..nc {
            match m.get((r, c)) {
                Ok(e) => {
                    addrs.push(e as *const E as usize);
                    row.push(Cell { val: e.val(), id: e.id() });
                }
                Err(err) => {
                    violate("unreachable-element", &format!("after {what}: matrix {k} ({nr}x{nc}): get(({r}, {c})) = {err:?}"));
                    return;
                }
            }
        }
        read.push(row);
    }
    if size_of::<E>() > 0 {
        addrs.sort_unstable();
        ensure(addrs.windows(2).all(|w| w[1] - w[0] >= size_of::<E>()), "aliased-elements", || {
            format!("after {what}: matrix {k} ({nr}x{nc}): two coordinates resolve to overlapping elements")
        });
    }
    if E::IDS {
        let mut ids: Vec<u32> = read.iter().flatten().map(|c| c.id).collect();
        ids.sort_unstable();
        ensure(ids.windows(2).all(|w| w[0] != w[1]), "duplicated-element", || {
            format!("after {what}: matrix {k} ({nr}x{nc}): one element is stored at two coordinates")
        });
    }
    if judge != Judge::Coherence && !s.stale {
        let w = &s.model;
        ensure((w.nr, w.nc) == (nr, nc), "wrong-shape", || {
            format!("after {what}: matrix {k} is {nr}x{nc}, the model says {}x{}", w.nr, w.nc)
        });
        ensure(w.order == m.order(), "wrong-order", || {
            format!("after {what}: matrix {k} is {:?}, the model says {:?}", m.order(), w.order)
        });
        if (w.nr, w.nc) == (nr, nc) {
            for r in 0..nr {
                for c in 0..nc {
                    let (a, b) = (read[r][c], w.rows[r][c]);
                    if a.val != b.val {
                        violate(
                            "wrong-contents",
                            &format!("after {what}: matrix {k} ({nr}x{nc}, {:?}) at ({r}, {c}): holds {}, the model says {}", m.order(), a.val, b.val),
                        );
                        return;
                    }
                    if judge == Judge::Identity && b.id != 0 && a.id != b.id {
                        violate(
                            "wrong-element",
                            &format!("after {what}: matrix {k} ({nr}x{nc}) at ({r}, {c}): a different element of equal value"),
                        );
                        return;
                    }
                }
            }
        }
    }
    // carry the identities (and, when stale, everything) over to the model
    s.model = Model { nr, nc, order: m.order(), rows: read };
    s.stale = false;
}
