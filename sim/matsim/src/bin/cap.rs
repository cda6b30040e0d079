//! C08: size and capacity overflow, against 128-bit arithmetic, on an
//! allocator with a budget that refuses everything above it.
#![feature(alloc_error_hook)]

use matreex::error::Error;
use matreex::{Matrix, Order, Shape, matrix};
use matsim::gen_::*;
use matsim::runner::{self, Prop, Tier};
use simrt::*;
use std::marker::PhantomData;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

/// Caller code: after this many calls it gives up (panics with `Cancel`).
static PATIENCE: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

fn tick() {
    if CALLS.fetch_add(1, Relaxed) >= PATIENCE.load(Relaxed) {
        std::panic::panic_any(Cancel);
    }
}

trait Unit: Default + Clone + Add<Output = Self> + Send + Sync + 'static {
    fn mk() -> Self;
}
macro_rules! unit {
    ($t:ident, $e:ty, $z:expr) => {
        struct $t<const N: usize>([$e; N]);
        impl<const N: usize> Unit for $t<N> {
            fn mk() -> Self {
                tick();
                $t([$z; N])
            }
        }
        impl<const N: usize> Default for $t<N> {
            fn default() -> Self {
                Self::mk()
            }
        }
        impl<const N: usize> Clone for $t<N> {
            fn clone(&self) -> Self {
                tick();
                $t(self.0)
            }
        }
        impl<const N: usize> Add for $t<N> {
            type Output = Self;
            fn add(self, _: Self) -> Self {
                Self::mk()
            }
        }
    };
}
unit!(Bytes, u8, 0);
unit!(Words, u64, 0);
unit!(Quads, u128, 0);

/// Zero-sized source elements; operations on them yield `U`.
struct Z<U>(PhantomData<fn() -> U>);
impl<U> Default for Z<U> {
    fn default() -> Self {
        tick();
        Z(PhantomData)
    }
}
impl<U> Clone for Z<U> {
    fn clone(&self) -> Self {
        tick();
        Z(PhantomData)
    }
}
macro_rules! zop {
    ($($tr:ident $f:ident),*) => {$(
        impl<U: Unit> $tr for Z<U> {
            type Output = U;
            fn $f(self, _: Z<U>) -> U {
                U::mk()
            }
        }
    )*};
}
zop!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl<U: Unit> Neg for Z<U> {
    type Output = U;
    fn neg(self) -> U {
        U::mk()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Expect {
    SizeOverflow,
    CapacityOverflow,
    Accept,
    Mismatch,
}

fn expect(n: u128, elem: usize) -> Expect {
    if n > usize::MAX as u128 {
        Expect::SizeOverflow
    } else if n * elem as u128 > isize::MAX as u128 {
        Expect::CapacityOverflow
    } else {
        Expect::Accept
    }
}

const BUDGET: usize = 1 << 20;
const SMALL: u128 = 2048;

enum Got<T> {
    Ok(T),
    Err(Error),
    Panic(String),
    Refused,
    Cancelled,
}

/// Runs a library call on the budgeted allocator with impatient caller code.
fn call<T>(need: u128, elem: usize, f: impl FnOnce() -> Result<T, Error>) -> (Got<T>, heap::Window) {
    let small = need <= SMALL && need * (elem as u128) <= BUDGET as u128 / 4;
    CALLS.store(0, Relaxed);
    PATIENCE.store(if small { 1 << 20 } else { 48 }, Relaxed);
    heap::open_window(BUDGET);
    let r = attempt(f);
    let w = heap::close_window();
    PATIENCE.store(u64::MAX, Relaxed);
    let g = match r {
        Ok(Ok(m)) => Got::Ok(m),
        Ok(Err(e)) => Got::Err(e),
        Err(p) if p.is::<heap::Refused>() => Got::Refused,
        Err(p) if p.is::<Cancel>() => Got::Cancelled,
        Err(p) => Got::Panic(payload_str(&*p)),
    };
    if w.refused > 0 {
        count("heap_refused", w.refused as u64);
    }
    (g, w)
}

fn coherent<T>(what: &str, m: &Matrix<T>) -> bool {
    let n = m.nrows() as u128 * m.ncols() as u128;
    let len = m.iter_elements().len() as u128;
    ensure(n == m.size() as u128 && n == len, "shape-disagrees-with-store", || {
        format!("{what}: the matrix says {}x{}, size() {} and stores {len} elements", m.nrows(), m.ncols(), m.size())
    })
}

/// What the call must have done. `panics`: the form that panics on errors.
fn judge<T>(what: &str, r: usize, c: usize, want: Expect, elem: usize, panics: bool, got: &(Got<Matrix<T>>, heap::Window)) {
    let (g, w) = got;
    let n = r as u128 * c as u128;
    let name = match g {
        Got::Ok(_) => "success",
        Got::Err(_) => "an error",
        Got::Panic(_) => "a panic",
        Got::Refused => "an attempted allocation",
        Got::Cancelled => "work on elements",
    };
    note(|| {
        format!(
            "  {what}: {r} x {c} (element size {elem}): expected {want:?}, got {name}{}{}",
            match g {
                Got::Err(e) => format!(" ({e:?})"),
                Got::Panic(s) => format!(" ({s})"),
                _ => String::new(),
            },
            if w.refused > 0 { format!("; {} bytes refused", w.refused_bytes) } else { String::new() }
        )
    });
    event(what_id(what), r as u64, c as u64);
    event(name, elem as u64, 0);
    state(mix(want as u64, mix(hash_str(what), elem as u64)));
    count(
        match want {
            Expect::Accept => "expect_accept",
            Expect::SizeOverflow => "expect_size_overflow",
            Expect::CapacityOverflow => "expect_capacity_overflow",
            Expect::Mismatch => "expect_mismatch",
        },
        1,
    );
    count("nontrivial", 1);
    let ctx = || format!("{what}, {r} x {c}, element size {elem}");
    match want {
        Expect::Accept => match g {
            Got::Ok(m) => {
                if coherent(what, m) {
                    ensure((m.nrows(), m.ncols()) == (r, c), "wrong-shape", || {
                        format!("{}: the result is {} x {}", ctx(), m.nrows(), m.ncols())
                    });
                    ensure(n * elem as u128 <= BUDGET as u128 * 4 || w.refused > 0 || elem == 0, "wrong-shape", || {
                        format!("{}: succeeded without the memory for it", ctx())
                    });
                }
            }
            Got::Refused => {}
            Got::Cancelled => {}
            Got::Err(e) => {
                if w.refused == 0 {
                    violate("refused-possible", &format!("{}: failed with {e:?} although size and capacity are within limits", ctx()));
                }
            }
            Got::Panic(s) => {
                if w.refused == 0 {
                    violate("panicked", &format!("{}: panicked ({s}) although size and capacity are within limits", ctx()));
                }
            }
        },
        _ => {
            let right = match want {
                Expect::SizeOverflow => Error::SizeOverflow,
                Expect::CapacityOverflow => Error::CapacityOverflow,
                _ => Error::SizeMismatch,
            };
            if w.refused > 0 {
                violate("allocation-attempted", &format!("{}: should fail with {right:?}, but {} bytes were requested", ctx(), w.refused_bytes));
            } else {
                match g {
                    Got::Err(e) if !panics => {
                        ensure(*e == right, "wrong-error", || format!("{}: failed with {e:?}, expected {right:?}", ctx()));
                    }
                    Got::Panic(_) if panics => {}
                    Got::Panic(s) => violate("panicked", &format!("{}: panicked ({s}), expected {right:?}", ctx())),
                    Got::Ok(m) => {
                        if coherent(what, m) {
                            violate("overflow-accepted", &format!("{}: succeeded, expected {right:?}", ctx()));
                        }
                    }
                    _ => violate("overflow-acted-upon", &format!("{}: ended in {name}, expected {right:?}", ctx())),
                }
            }
        }
    }
    stop_if_violated();
}

fn what_id(_: &str) -> &'static str {
    "call"
}

/// A factor pair whose product is at or around a boundary for this size.
fn pair(elem: usize) -> (usize, usize) {
    tame_empty(any_pair(elem))
}

fn any_pair(elem: usize) -> (usize, usize) {
    const M: u128 = 1 << 64;
    let e = elem.max(1) as u128;
    let around = |t: u128| -> u128 {
        match choose(5) {
            0 => t,
            1 => t + 1,
            2 => t.saturating_sub(1),
            3 => t + choose(4) as u128,
            _ => t.saturating_sub(choose(4) as u128),
        }
    };
    let target = match weighted(&[10, 14, 12, 5, 6, 4, 4]) {
        0 => return (dim(), dim()),
        1 => around(isize::MAX as u128 / e),
        2 => around(M - 1),
        // bytes wrap around to something small
        3 => (M * (1 + choose(3) as u128)).div_ceil(e) + choose(9) as u128,
        // the count wraps around to something small
        4 => M * (1 + choose(3) as u128) + choose(9) as u128,
        5 => around(isize::MAX as u128),
        _ => return (extent(), extent()),
    };
    let a: u128 = match weighted(&[8, 6, 6, 4, 4]) {
        0 => 1,
        1 => 2 + choose(8) as u128,
        2 => 1 << range(1, 63),
        3 => (1 << range(1, 63)) - 1,
        _ => extent().max(1) as u128,
    };
    let b = match choose(3) {
        0 => target / a,
        1 => target.div_ceil(a),
        _ => (target / a).saturating_sub(choose(2) as u128),
    };
    let cut = |x: u128| x.min(M - 1) as usize;
    if choose(2) == 0 { (cut(b), cut(a)) } else { (cut(a), cut(b)) }
}

fn extent() -> usize {
    match choose(7) {
        0 => choose(4),
        1 => (1 << 16) - 2 + choose(4),
        2 => (1 << 31) - 2 + choose(4),
        3 => (1 << 32) - 2 + choose(4),
        4 => (1 << 33) - 2 + choose(4),
        5 => (isize::MAX as usize) - 1 + choose(4),
        _ => usize::MAX - choose(3),
    }
}

/// A matrix of zero-sized elements without touching them.
fn huge<T>(r: usize, c: usize, order: Order) -> Option<Matrix<T>> {
    assert!(size_of::<T>() == 0 && !std::mem::needs_drop::<T>());
    let n = r.checked_mul(c)?;
    let mut v: Vec<T> = Vec::new();
    unsafe { v.set_len(n) };
    let mut m = Matrix::from_row(v);
    if order == m.order() {
        m.reshape((r, c)).ok()?;
    } else {
        m.reshape((c, r)).ok()?;
        m.switch_order_without_rearrangement();
    }
    Some(m)
}

fn an_order() -> Order {
    if choose(2) == 0 { Order::RowMajor } else { Order::ColMajor }
}

struct Arg(usize, usize);
impl From<Arg> for Shape {
    fn from(a: Arg) -> Shape {
        Shape::new(a.0, a.1)
    }
}

fn constructors<U: Unit>() {
    let e = size_of::<U>();
    let (r, c) = pair(e);
    let n = r as u128 * c as u128;
    let want = expect(n, e);
    let via = choose(3);
    macro_rules! shaped {
        ($f:expr) => {
            match via {
                0 => $f((r, c)),
                1 => $f([r, c]),
                _ => $f(Arg(r, c)),
            }
        };
    }
    fn id<S: Into<Shape>>(s: S) -> S {
        s
    }
    match choose(4) {
        0 => {
            let got = shaped!(|s| call(n, e, || Matrix::<U>::with_default(id(s))));
            judge("with_default", r, c, want, e, false, &got);
        }
        1 => {
            PATIENCE.store(u64::MAX, Relaxed);
            let v = U::mk();
            let got = shaped!(|s| call(n, e, || Matrix::<U>::with_value(id(s), v)));
            judge("with_value", r, c, want, e, false, &got);
        }
        2 => {
            let got = shaped!(|s| call(n, e, || Matrix::<U>::with_initializer(id(s), |_| U::mk())));
            judge("with_initializer", r, c, want, e, false, &got);
        }
        _ => {
            PATIENCE.store(u64::MAX, Relaxed);
            let v = U::mk();
            let got = call(n, e, || Ok(matrix![[v; c]; r]));
            judge("matrix![[_; _]; _]", r, c, want, e, true, &got);
        }
    }
}

fn resizing<U: Unit>() {
    let e = size_of::<U>();
    PATIENCE.store(u64::MAX, Relaxed);
    let mut m: Matrix<U> = if e == 0 && choose(2) == 1 {
        let (r, c) = pair(0);
        match huge(r, c, an_order()) {
            Some(m) => m,
            None => return,
        }
    } else if choose(4) == 0 {
        // nothing in it, but a huge extent
        let mut m: Matrix<U> = Matrix::new();
        if choose(2) == 1 {
            m.switch_order();
        }
        let x = extent();
        let s = if choose(2) == 0 { (0, x) } else { (x, 0) };
        ensure(m.reshape(s).is_ok(), "refused-possible", || format!("an empty matrix cannot be reshaped to {s:?}"));
        stop_if_violated();
        m
    } else {
        let mut m = Matrix::with_initializer((range(0, 5), range(0, 5)), |_| U::mk()).unwrap();
        if choose(2) == 1 {
            m.switch_order();
        }
        m
    };
    for _ in 0..range(1, 4) {
        let (r, c) = match choose(4) {
            // the same size, factored otherwise
            0 => {
                let n = m.size();
                let d = [1, 2, 3, 5, 1 << 32, 6700417][choose(6)];
                if n % d == 0 { (n / d, d) } else { (1, n) }
            }
            1 => (m.ncols(), m.nrows()),
            _ => pair(e),
        };
        let n = r as u128 * c as u128;
        let before = (m.nrows(), m.ncols(), m.order());
        if choose(2) == 0 {
            let want = if n == m.size() as u128 { Expect::Accept } else { Expect::Mismatch };
            let got = call(0, e, || m.reshape((r, c)).map(|_| ()));
            let got = match got.0 {
                Got::Ok(()) => {
                    event("reshaped", 0, 0);
                    ensure(want == Expect::Accept, "overflow-accepted", || {
                        format!("reshape of {before:?} to {r} x {c} succeeded")
                    });
                    if coherent("reshape", &m) {
                        ensure((m.nrows(), m.ncols()) == (r, c), "wrong-shape", || format!("reshape to {r} x {c} made it {} x {}", m.nrows(), m.ncols()));
                    }
                    stop_if_violated();
                    count("nontrivial", 1);
                    continue;
                }
                Got::Err(x) => (Got::Err(x), got.1),
                Got::Panic(x) => (Got::Panic(x), got.1),
                Got::Refused => (Got::Refused, got.1),
                Got::Cancelled => (Got::Cancelled, got.1),
            };
            judge::<U>("reshape", r, c, want, e, false, &got);
        } else {
            let want = expect(n, e);
            let grows = n > m.size() as u128;
            let got = call(if grows { n } else { 0 }, e, || m.resize((r, c)).map(|_| ()));
            let got: (Got<Matrix<U>>, _) = match got.0 {
                Got::Ok(()) => {
                    event("resized", r as u64, c as u64);
                    note(|| format!("  resize {before:?} to {r} x {c}: success (expected {want:?})"));
                    ensure(want == Expect::Accept, "overflow-accepted", || format!("resize of {before:?} to {r} x {c} (element size {e}) succeeded, expected {want:?}"));
                    if coherent("resize", &m) {
                        ensure((m.nrows(), m.ncols()) == (r, c), "wrong-shape", || format!("resize to {r} x {c} made it {} x {}", m.nrows(), m.ncols()));
                    }
                    stop_if_violated();
                    count("nontrivial", 1);
                    continue;
                }
                Got::Err(x) => (Got::Err(x), got.1),
                Got::Panic(x) => (Got::Panic(x), got.1),
                Got::Refused => (Got::Refused, got.1),
                Got::Cancelled => (Got::Cancelled, got.1),
            };
            judge("resize", r, c, want, e, false, &got);
            if matches!(got.0, Got::Refused | Got::Cancelled) {
                // what an interrupted call leaves behind is C02's matter
                return;
            }
        }
        coherent("after a failed call", &m);
        stop_if_violated();
    }
}

fn product<U: Unit>() {
    let e = size_of::<U>();
    PATIENCE.store(u64::MAX, Relaxed);
    let (r, c) = pair(e);
    let n = r as u128 * c as u128;
    let want = expect(n, e);
    let like = choose(3);
    if choose(2) == 0 {
        // nothing inside: any element type can have huge extents
        let mk = |r: usize, c: usize| -> Option<Matrix<Z<U>>> { huge(r, c, an_order()) };
        let (Some(a), Some(b)) = (mk(r, 0), mk(0, c)) else { return };
        match like {
            0 => judge("multiply (inner dimension 0)", r, c, want, e, false, &call(n, e, || a.multiply(b))),
            1 => judge("* (inner dimension 0)", r, c, want, e, true, &call(n, e, || Ok(a * b))),
            _ => judge(
                "multiplication_like_operation (inner dimension 0)",
                r,
                c,
                want,
                e,
                false,
                &call(n, e, || a.multiplication_like_operation(b, |_: &[Z<U>], _: &[Z<U>]| U::mk())),
            ),
        }
    } else {
        // huge operands are stored the way the product reads them
        let k = range(1, 3);
        let (Some(a), Some(b)) = (huge::<Z<U>>(r, k, Order::RowMajor), huge::<Z<U>>(k, c, Order::ColMajor)) else { return };
        match like {
            0 => judge("multiply", r, c, want, e, false, &call(n, e, || a.multiply(b))),
            1 => judge("*", r, c, want, e, true, &call(n, e, || Ok(a * b))),
            _ => judge(
                "multiplication_like_operation",
                r,
                c,
                want,
                e,
                false,
                &call(n, e, || a.multiplication_like_operation(b, |_: &[Z<U>], _: &[Z<U>]| U::mk())),
            ),
        }
    }
}

fn mapping<U: Unit>() {
    let e = size_of::<U>();
    PATIENCE.store(u64::MAX, Relaxed);
    let (r, c) = pair(e);
    let n = r as u128 * c as u128;
    let (oa, ob) = (an_order(), an_order());
    let (Some(m), Some(q)) = (huge::<Z<U>>(r, c, oa), huge::<Z<U>>(r, c, ob)) else { return };
    let want = expect(n, e);
    macro_rules! go {
        ($name:literal, $panics:literal, $f:expr) => {
            judge($name, r, c, want, e, $panics, &call(n, e, || $f))
        };
    }
    // implementations may step through the elements of the source; caller code stops them
    match choose(27) {
        0 => go!("map", false, m.map(|_| U::mk())),
        1 => go!("map_ref", false, m.map_ref(|_| U::mk())),
        2 => go!("scalar_operation", false, m.scalar_operation(&1, |_, _| U::mk())),
        3 => go!("scalar_operation_consume_self", false, m.scalar_operation_consume_self(&1, |_, _| U::mk())),
        4 => go!("elementwise_operation", false, m.elementwise_operation(&q, |_, _| U::mk())),
        5 => go!("elementwise_operation_consume_self", false, m.elementwise_operation_consume_self(&q, |_, _| U::mk())),
        6 => go!("par_map", false, m.par_map(|_| U::mk())),
        7 => go!("par_map_ref", false, m.par_map_ref(|_| U::mk())),
        8 => go!("elementwise_add", false, m.elementwise_add(&q)),
        9 => go!("elementwise_sub", false, m.elementwise_sub(&q)),
        10 => go!("elementwise_mul", false, m.elementwise_mul(&q)),
        11 => go!("elementwise_div", false, m.elementwise_div(&q)),
        12 => go!("elementwise_rem", false, m.elementwise_rem(&q)),
        13 => go!("elementwise_add_consume_self", false, m.elementwise_add_consume_self(&q)),
        14 => go!("elementwise_sub_consume_self", false, m.elementwise_sub_consume_self(&q)),
        15 => go!("elementwise_mul_consume_self", false, m.elementwise_mul_consume_self(&q)),
        16 => go!("elementwise_div_consume_self", false, m.elementwise_div_consume_self(&q)),
        17 => go!("elementwise_rem_consume_self", false, m.elementwise_rem_consume_self(&q)),
        18 => go!("+ vv", true, Ok(m + q)),
        19 => go!("+ vr", true, Ok(m + &q)),
        20 => go!("+ rv", true, Ok(&m + q)),
        21 => go!("- vv", true, Ok(m - q)),
        22 => go!("- vr", true, Ok(m - &q)),
        23 => go!("- rv", true, Ok(&m - q)),
        24 => go!("+ rr", true, Ok(&m + &q)),
        25 => go!("neg", true, Ok(-m)),
        _ => go!("neg ref", true, Ok(-&m)),
    }
}

/// Sources of sized elements: the output is what counts.
fn mapping_sized<S: Unit, U: Unit>() {
    let e = size_of::<U>();
    PATIENCE.store(u64::MAX, Relaxed);
    let (r, c) = (dim(), dim());
    let n = (r * c) as u128;
    let mut m = Matrix::with_initializer((r, c), |_| S::mk()).unwrap();
    if choose(2) == 1 {
        m.switch_order();
    }
    let want = expect(n, e);
    macro_rules! go {
        ($name:literal, $f:expr) => {
            judge($name, r, c, want, e, false, &call(n, e, || $f))
        };
    }
    match choose(8) {
        0 => go!("map (sized)", m.map(|_| U::mk())),
        1 => go!("map_ref (sized)", m.map_ref(|_| U::mk())),
        2 => go!("scalar_operation (sized)", m.scalar_operation(&1, |_, _| U::mk())),
        3 => go!("scalar_operation_consume_self (sized)", m.scalar_operation_consume_self(&1, |_, _| U::mk())),
        4 => go!("elementwise_operation (sized)", m.elementwise_operation(&m, |_, _| U::mk())),
        5 => {
            let q = m.clone();
            go!("elementwise_operation_consume_self (sized)", m.elementwise_operation_consume_self(&q, |_, _| U::mk()))
        }
        6 => go!("par_map (sized)", m.par_map(|_| U::mk())),
        _ => go!("par_map_ref (sized)", m.par_map_ref(|_| U::mk())),
    }
}

/// Conversions from rows of zero-sized elements.
fn rows() {
    type E = Bytes<0>;
    PATIENCE.store(u64::MAX, Relaxed);
    let (a, b) = pair(0);
    let (nr, nc) = if a <= b { (a, b) } else { (b, a) };
    let (nr, nc) = if nr > 600 { (range(1, 600), usize::MAX / range(1, 600)) } else { (nr, nc) };
    let n = nr as u128 * nc as u128;
    let want = expect(n, 0);
    let row = || -> Vec<E> {
        let mut v = Vec::new();
        unsafe { v.set_len(nc) };
        v
    };
    let how = choose(3);
    // moving rows calls no caller code that could stop a slow implementation
    let endless = want == Expect::Accept && n > 1 << 16;
    let (r, c) = if nr == 0 { (0, 0) } else { (nr, nc) };
    match how {
        0 if !endless => {
            let rows: Vec<Vec<E>> = (0..nr).map(|_| row()).collect();
            judge("TryFrom<Vec<Vec<_>>>", r, c, want, 0, false, &call(n, 0, || Matrix::try_from(rows)));
        }
        1 => {
            let rows: Vec<Vec<E>> = (0..nr).map(|_| row()).collect();
            judge("TryFrom<&[Vec<_>]>", r, c, want, 0, false, &call(n, 0, || Matrix::try_from(&rows[..])));
        }
        _ => {
            let n = |k: usize| k as u128 * nc as u128;
            macro_rules! arr {
                ($k:literal) => {{
                    let want = expect(n($k), 0);
                    if want == Expect::Accept && n($k) > 1 << 16 {
                        return;
                    }
                    let rows: [Vec<E>; $k] = std::array::from_fn(|_| row());
                    judge("TryFrom<[Vec<_>; _]>", $k, nc, want, 0, false, &call(n($k), 0, || Matrix::try_from(rows)))
                }};
            }
            match choose(5) {
                0 => arr!(1),
                1 => arr!(2),
                2 => arr!(3),
                3 => arr!(7),
                _ => arr!(64),
            }
        }
    }
}

fn shapes() {
    let (r, c) = pair(0);
    let n = r as u128 * c as u128;
    let got = attempt(|| Shape::new(r, c).size());
    event("Shape::size", r as u64, c as u64);
    let ok = match &got {
        Ok(Ok(x)) => *x as u128 == n,
        Ok(Err(e)) => *e == Error::SizeOverflow && n > usize::MAX as u128,
        Err(_) => false,
    };
    ensure(ok, "wrong-error", || format!("Shape::new({r}, {c}).size() is not what arithmetic says: {:?}", got.is_ok()));
    stop_if_violated();
}

fn one<U: Unit>() {
    match weighted(&[10, 10, 8, 12, 4, 3, 1]) {
        0 => constructors::<U>(),
        1 => resizing::<U>(),
        2 => product::<U>(),
        3 => mapping::<U>(),
        4 => match choose(3) {
            0 => mapping_sized::<Bytes<1>, U>(),
            1 => mapping_sized::<Words<3>, U>(),
            _ => mapping_sized::<Bytes<0>, U>(),
        },
        5 => rows(),
        _ => shapes(),
    }
}

fn c08(tier: Tier) {
    // built only once: the hook unwinds out of refused allocations
    std::alloc::set_alloc_error_hook(|l| std::panic::panic_any(heap::Refused(l.size())));
    for _ in 0..range(1, if tier == Tier::Thorough { 12 } else { 4 }) {
        match choose(9) {
            0 => one::<Bytes<0>>(),
            1 => one::<Bytes<1>>(),
            2 => one::<Bytes<2>>(),
            3 => one::<Bytes<3>>(),
            4 => one::<Bytes<4>>(),
            5 => one::<Words<1>>(),
            6 => one::<Quads<1>>(),
            7 => one::<Words<3>>(),
            _ => one::<Bytes<1000>>(),
        }
    }
}

fn main() {
    runner::main(&[Prop { id: "C08", scenario: c08, enumerate_faults: false }]);
}
