//! C03, C06, C15: cursors.
use matreex::index::Index;
use matreex::parallel::*;
use matreex::{Matrix, Order};
use matsim::cursor::*;
use matsim::elem::*;
use matsim::gen_::*;
use matsim::model::*;
use matsim::ops::{self, G, Op};
use matsim::runner::{self, Prop, Tier};
use matsim::*;

#[cfg(not(miri))]
#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

// --------------------------------------------------------------------- C03

/// Element types of every size and alignment class.
trait Cell3: 'static {
    const NAME: &'static str;
    fn mk(v: u32) -> Self;
    /// The value, if the type can hold one.
    fn v(&self) -> Option<u32>;
    fn put(&mut self, v: u32);
}
macro_rules! cell3 {
    ($($t:ty, $name:literal, |$v:ident| $mk:expr, |$s:ident| $get:expr;)*) => {$(
        impl Cell3 for $t {
            const NAME: &'static str = $name;
            fn mk($v: u32) -> Self { $mk }
            fn v(&self) -> Option<u32> { let $s = self; $get }
            fn put(&mut self, v: u32) { *self = Self::mk(v); }
        }
    )*};
}
#[derive(Clone, Copy)]
#[repr(align(2))]
struct Z2;
#[derive(Clone, Copy)]
#[repr(align(8))]
struct Z8;
#[derive(Clone, Copy)]
#[repr(align(64))]
struct Z64;
#[derive(Clone, Copy)]
#[repr(align(32))]
struct A32(u32);
cell3! {
    u8, "u8", |v| v as u8, |s| Some(*s as u32);
    u16, "u16", |v| v as u16, |s| Some(*s as u32);
    [u8; 3], "[u8; 3]", |v| [v as u8, (v >> 8) as u8, 7], |s| Some(s[0] as u32 | (s[1] as u32) << 8);
    u32, "u32", |v| v, |s| Some(*s);
    u64, "u64", |v| v as u64, |s| Some(*s as u32);
    [u64; 3], "[u64; 3]", |v| [v as u64; 3], |s| if s[0] == s[2] { Some(s[1] as u32) } else { None };
    String, "String", |v| format!("{v}"), |s| s.parse().ok();
    A32, "A32", |v| A32(v), |s| Some(s.0);
    (), "()", |_v| (), |_s| None;
    Z2, "Z2", |_v| Z2, |_s| None;
    Z8, "Z8", |_v| Z8, |_s| None;
    Z64, "Z64", |_v| Z64, |_s| None;
}

fn c03(tier: Tier) {
    match choose(12) {
        0 => c03_e::<u32>(tier),
        1 => c03_e::<u8>(tier),
        2 => c03_e::<u16>(tier),
        3 => c03_e::<[u8; 3]>(tier),
        4 => c03_e::<u64>(tier),
        5 => c03_e::<[u64; 3]>(tier),
        6 => c03_e::<String>(tier),
        7 => c03_e::<A32>(tier),
        8 => c03_e::<()>(tier),
        9 => c03_e::<Z2>(tier),
        10 => c03_e::<Z8>(tier),
        _ => c03_e::<Z64>(tier),
    }
}

/// A shape of more zero-sized elements than one could ever visit.
fn vast_shape() -> (usize, usize) {
    let m = usize::MAX;
    vast_run();
    match choose(10) {
        0 => (m, 1),
        1 => (1, m),
        2 => ((1 << 32) - 1, (1 << 32) + 1),
        3 => ((1 << 32) + 1, (1 << 32) - 1),
        4 => (m / 3, 3),
        5 => (5, m / 5),
        6 => (isize::MAX as usize, 2),
        7 => (2, isize::MAX as usize),
        8 => (1 << 63, 1),
        _ => (range(1, 9), 1 << 60),
    }
}

fn vast<E>(nr: usize, nc: usize) -> Matrix<E> {
    assert!(size_of::<E>() == 0 && !std::mem::needs_drop::<E>());
    let n = nr.checked_mul(nc).unwrap();
    let mut v: Vec<E> = Vec::new();
    // any number of zero-sized values of a type without invariants
    unsafe { v.set_len(n) };
    let mut m = Matrix::from_row(v);
    m.reshape((nr, nc)).unwrap();
    m
}

fn small_shape() -> (usize, usize) {
    let hi = if cfg!(miri) { 4 } else { 9 };
    match weighted(&[10_000, 2_000, 2_000, 2_000, 2_000, if cfg!(miri) { 0 } else { 200 }, if cfg!(miri) { 0 } else { 1 }]) {
        0 => (range(1, hi), range(1, hi)),
        1 => (1, range(1, 3 * hi)),
        2 => (range(1, 3 * hi), 1),
        3 => {
            let n = range(1, hi);
            (n, n)
        }
        5 => large(),
        6 => huge(),
        _ => match choose(4) {
            0 => (0, 0),
            1 => (0, range(1, hi)),
            2 => (range(1, hi), 0),
            _ => {
                if choose(2) == 0 {
                    (0, tame(pick(&EXTREMES)))
                } else {
                    (tame(pick(&EXTREMES)), 0)
                }
            }
        },
    }
}

fn c03_e<E: Cell3>(tier: Tier) {
    let zst = size_of::<E>() == 0;
    let big = zst && chance(1, 2);
    let (mut nr, mut nc) = if big { vast_shape() } else { small_shape() };
    let n = nr * nc;
    let mut m: Matrix<E> = if big {
        vast(nr, nc)
    } else {
        let spare = choose(3);
        let mut v = Vec::with_capacity(n + spare);
        v.extend((0..n as u32).map(E::mk));
        let mut m = Matrix::from_row(v);
        m.reshape((nr, nc)).unwrap();
        m
    };
    // a little history first
    for _ in 0..choose(3) {
        match choose(if big { 2 } else { 4 }) {
            0 => {
                m.switch_order_without_rearrangement();
                std::mem::swap(&mut nr, &mut nc);
            }
            1 => {
                // keeps the extents, whatever the size
                let _ = m.reshape((nc, nr)).map(|_| std::mem::swap(&mut nr, &mut nc));
            }
            2 => {
                m.switch_order();
            }
            _ => {
                m.transpose();
                std::mem::swap(&mut nr, &mut nc);
            }
        }
    }
    note(|| format!("{} {nr}x{nc} {:?}", E::NAME, m.order()));
    event(E::NAME, nr as u64, nc as u64);
    event("order", (m.order() == Order::RowMajor) as u64, 0);
    if !ensure((m.nrows(), m.ncols()) == (nr, nc), "wrong-shape", || format!("{}x{} not {nr}x{nc}", m.nrows(), m.ncols())) {
        return;
    }
    if !big && n > 1 {
        count("nontrivial", 1);
    }
    if big {
        count("vast", 1);
        count("nontrivial", 1);
    }
    let rounds = range(1, 2);
    for _ in 0..rounds {
        let rows = choose(2) == 0;
        // the elements of the logical positions, by address and value
        let grid: Vec<Vec<(usize, Option<u32>)>> = if big || n == 0 {
            vec![]
        } else {
            (0..nr)
                .map(|r| {
                    (0..nc)
                        .map(|c| {
                            let e = m.get((r, c)).unwrap();
                            (e as *const E as usize, e.v())
                        })
                        .collect()
                })
                .collect()
        };
        let (a, b) = if rows { (nr, nc) } else { (nc, nr) };
        let mut writes: Vec<(usize, usize, u32)> = vec![];
        let finish = !chance(1, 4);
        note(|| format!("{}", if rows { "iter_rows_mut" } else { "iter_cols_mut" }));
        event("axis", rows as u64, 0);
        let steps = range(0, if cfg!(miri) { 14 } else if tier == Tier::Thorough { 120 } else { 60 });
        let full = if rows {
            c03_run(m.iter_rows_mut(), true, a, b, &grid, steps, finish, &mut writes)
        } else {
            c03_run(m.iter_cols_mut(), false, a, b, &grid, steps, finish, &mut writes)
        };
        if full {
            count("exhausted", 1);
        }
        stop_if_violated();
        // what was written is what is there, at the logical position
        if !grid.is_empty() {
            let mut want: Vec<Vec<Option<u32>>> = grid.iter().map(|r| r.iter().map(|x| x.1).collect()).collect();
            for (r, c, v) in &writes {
                want[*r][*c] = E::mk(*v).v();
            }
            for r in 0..nr {
                for c in 0..nc {
                    let got = m.get((r, c)).unwrap().v();
                    ensure(got == want[r][c], "wrong-contents", || {
                        format!("({r}, {c}) of {nr}x{nc} holds {got:?} after the writes, not {:?}", want[r][c])
                    });
                }
            }
        }
        stop_if_violated();
    }
}

#[allow(clippy::too_many_arguments)]
fn c03_run<'a, E, I, J>(
    outer: I,
    rows: bool,
    a: usize,
    b: usize,
    grid: &[Vec<(usize, Option<u32>)>],
    steps: usize,
    finish: bool,
    writes: &mut Vec<(usize, usize, u32)>,
) -> bool
where
    E: Cell3,
    I: ExactSizeIterator<Item = J> + DoubleEndedIterator,
    J: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator,
{
    let what = if rows { "row" } else { "col" };
    let mut outer = Cur::new(format!("{what}s"), outer, a);
    let mut inners: Vec<(usize, Cur<J>)> = vec![];
    let mut kept: Vec<(&'a mut E, usize, usize)> = vec![];
    let mut handed = std::collections::BTreeSet::new();
    let mut lines = std::collections::BTreeSet::new();
    let mut stamp = 1000u32;

    let mut take = |line: usize, pos: usize, e: &'a mut E, kept: &mut Vec<(&'a mut E, usize, usize)>| {
        let (r, c) = if rows { (line, pos) } else { (pos, line) };
        let addr = e as *const E as usize;
        ensure(addr != 0 && addr % align_of::<E>() == 0, "wrong-reference", || {
            format!("{what} {line}, item {pos}: misaligned reference")
        });
        if size_of::<E>() > 0 {
            let ok = grid.get(r).and_then(|x| x.get(c)).is_some_and(|x| x.0 == addr);
            if !ensure(ok, "wrong-reference", || {
                let at = grid
                    .iter()
                    .enumerate()
                    .find_map(|(r, x)| x.iter().position(|y| y.0 == addr).map(|c| (r, c)));
                format!("{what} {line}, item {pos}: the reference points at {}", match at {
                    Some(p) => format!("element {p:?}, not ({r}, {c})"),
                    None => "no element of the matrix".into(),
                })
            }) {
                stop_if_violated();
            }
            let got = e.v();
            ensure(writes.iter().any(|w| (w.0, w.1) == (r, c)) || got == grid[r][c].1, "wrong-contents", || {
                format!("{what} {line}, item {pos}: holds {got:?}")
            });
        }
        if !ensure(handed.insert((line, pos)), "handed-out-twice", || format!("{what} {line}, item {pos}")) {
            stop_if_violated();
        }
        event("item", line as u64, pos as u64);
        stamp += 1;
        if choose(2) == 0 {
            e.put(stamp);
            writes.push((r, c, stamp));
        }
        if kept.len() < 64 {
            kept.push((e, r, c));
        }
    };

    for _ in 0..steps {
        let open: Vec<usize> = (0..inners.len()).filter(|i| !inners[*i].1.done()).collect();
        match weighted(&[10, 20, 3, 1]) {
            1 if !open.is_empty() => {
                let k = pick(&open);
                let (line, cur) = &mut inners[k];
                let line = *line;
                cur.step(&mut |pos, e| take(line, pos, e, &mut kept));
                note(|| format!("  {what} {line}: {}..{} to come", cur.lo, cur.hi));
            }
            2 if !kept.is_empty() => {
                // a write through a reference obtained long ago
                let k = choose(kept.len());
                let (e, r, c) = &mut kept[k];
                event("late-write", *r as u64, *c as u64);
                let v = 500_000 + k as u32;
                e.put(v);
                // (recorded out of band: `take` holds the list)
                LATE.with(|l| l.borrow_mut().push((*r, *c, v)));
            }
            3 if chance(1, 4) => {
                if !open.is_empty() && choose(2) == 0 {
                    inners[pick(&open)].1.abandon();
                } else {
                    outer.abandon();
                }
            }
            _ => {
                if outer.done() {
                    continue;
                }
                let mut new: Vec<(usize, J)> = vec![];
                outer.step(&mut |pos, it| new.push((pos, it)));
                note(|| format!("  {what}s: {}..{} to come, got {:?}", outer.lo, outer.hi, new.iter().map(|x| x.0).collect::<Vec<_>>()));
                for (line, it) in new {
                    ensure(lines.insert(line), "handed-out-twice", || format!("{what} {line}"));
                    inners.push((line, Cur::new(format!("{what} {line}"), it, b)));
                    stop_if_violated();
                }
            }
        }
        stop_if_violated();
    }
    if finish {
        let mut new: Vec<(usize, J)> = vec![];
        outer.drain(&mut |pos, it| new.push((pos, it)));
        for (line, it) in new {
            ensure(lines.insert(line), "handed-out-twice", || format!("{what} {line}"));
            inners.push((line, Cur::new(format!("{what} {line}"), it, b)));
        }
        while !inners.is_empty() {
            let k = choose(inners.len());
            let (line, mut cur) = inners.swap_remove(k);
            if !cur.done() {
                cur.drain(&mut |pos, e| take(line, pos, e, &mut kept));
            }
            stop_if_violated();
        }
    }
    let n = handed.len();
    drop(inners);
    drop(outer);
    for (e, ..) in &mut kept {
        // all of them are still good
        let _ = e.v();
    }
    LATE.with(|l| writes.append(&mut l.borrow_mut()));
    n == grid.iter().map(Vec::len).sum::<usize>()
}

thread_local! {
    static LATE: std::cell::RefCell<Vec<(usize, usize, u32)>> = const { std::cell::RefCell::new(vec![]) };
}

// ----------------------------------------------------------------- histories

fn history<E: Elem>(steps: usize, groups: &[G]) -> World<E> {
    let ops: Vec<Op<E>> = ops::all::<E>().into_iter().filter(|o| groups.contains(&o.group)).collect();
    let builders: Vec<Op<E>> = ops::all::<E>()
        .into_iter()
        .filter(|o| matches!(o.name, "b_from_rows" | "b_with_initializer" | "b_from_line" | "b_from_array"))
        .collect();
    let mut w = World::<E>::new(Judge::Coherence);
    for _ in 0..steps {
        let from = if w.ms.is_empty() { &builders } else { &ops };
        let ws: Vec<u32> = from.iter().map(|o| o.weight).collect();
        let op = &from[weighted(&ws)];
        step(&mut w, op);
    }
    if w.ms.is_empty() {
        step(&mut w, &builders[weighted(&[1, 1, 1, 1])]);
    }
    w
}

fn step<E: Elem>(w: &mut World<E>, op: &Op<E>) {
    event(op.name, 0, 0);
    w.ctl.args.clear();
    (op.f)(w);
    w.trim();
    for s in &mut w.ms {
        s.stale = true;
    }
    w.check(op.name, true);
    note(|| {
        let s: Vec<String> = w.ms.iter().map(|s| desc(&s.model)).collect();
        format!("{} {}  => [{}]", op.name, w.ctl.args, s.join(" "))
    });
    stop_if_violated();
}

fn desc(m: &Model) -> String {
    format!("{}x{}{}", m.nr, m.nc, if m.order == Order::RowMajor { "r" } else { "c" })
}

/// Addresses of the logical positions, as `get` tells them.
fn addrs<E: Elem>(m: &Matrix<E>) -> Vec<Vec<usize>> {
    (0..m.nrows())
        .map(|r| (0..m.ncols()).map(|c| m.get((r, c)).unwrap() as *const E as usize).collect())
        .collect()
}

fn same<E: Elem>(what: &str, e: &E, r: usize, c: usize, model: &Model, at: &[Vec<usize>]) {
    let want = model.rows.get(r).and_then(|x| x.get(c)).copied();
    let ok = want.is_some_and(|w| w.val == e.val())
        && (size_of::<E>() == 0 || at[r][c] == e as *const E as usize);
    if !ok {
        violate("wrong-element", &format!("{what} of {}: not the element at ({r}, {c})", desc(model)));
        stop_if_violated();
    }
    event("item", r as u64, c as u64);
}

// --------------------------------------------------------------------- C06

fn c06(tier: Tier) {
    match weighted(&[6, 6, 4, 4, 4, 4, 5, 2]) {
        0 => c06_e::<T4>(tier),
        1 => c06_e::<T24>(tier),
        2 => c06_e::<P8>(tier),
        3 => c06_e::<B1>(tier),
        4 => c06_e::<TBox>(tier),
        5 => c06_e::<Z>(tier),
        6 => c06_vast(),
        _ => c06_e::<T128>(tier),
    }
}

const SHAPERS: [G; 4] = [G::Build, G::Order, G::Shape, G::Swap];

fn edge_n(n: usize) -> usize {
    match weighted(&[6, 3, 2, 4]) {
        0 if n > 0 => choose(n),
        0 | 1 => n,
        2 => n.saturating_add(1 + choose(3)),
        _ => pick(&EXTREMES),
    }
}

fn c06_e<E: Elem>(tier: Tier) {
    event(E::NAME, 0, 0);
    note(|| format!("element type {}", E::NAME));
    let n = range(1, 5);
    let mut w = history::<E>(n, &SHAPERS);
    let rounds = range(1, if tier == Tier::Thorough { 5 } else { 3 });
    for _ in 0..rounds {
        let i = choose(w.ms.len());
        let model = w.ms[i].model.clone();
        let at = addrs(&w.ms[i].m);
        if model.size() > 1 {
            count("nontrivial", 1);
        }
        if model.size() == 0 {
            count("degenerate", 1);
        }
        state(mix(model.nr as u64, mix(model.nc as u64, (model.order == Order::RowMajor) as u64)));
        let steps = range(2, if tier == Tier::Thorough { 100 } else { 50 });
        let r = attempt(|| {
            if choose(2) == 0 {
                readers(&w.ms[i].m, &model, &at, steps);
                None
            } else {
                Some(writers(&mut w.ms[i].m, &model, &at, steps))
            }
        });
        match r {
            Ok(None) => {}
            Ok(Some(writes)) => {
                let mut want = model.clone();
                for (r, c, v) in writes {
                    want.rows[r][c].val = E::norm(v);
                }
                w.ms[i].model = want;
                w.ctl.judge = Judge::Content;
                w.check("writes through a view", true);
                w.ctl.judge = Judge::Coherence;
            }
            Err(p) => violate("unexpected-panic", &format!("views of {}: {}", desc(&model), payload_str(&*p))),
        }
        stop_if_violated();
        // on to another shape or order
        let all = ops::all::<E>();
        let ops: Vec<&Op<E>> = all.iter().filter(|o| matches!(o.group, G::Order | G::Shape)).collect();
        let op = ops[choose(ops.len())];
        step(&mut w, op);
    }
    w.end(true);
}

type Flat<'a, T> = Vec<(bool, usize, Box<dyn Cursor<T> + 'a>)>;

fn readers<E: Elem>(m: &Matrix<E>, model: &Model, at: &[Vec<usize>], steps: usize) {
    note(|| format!("readers of {}", desc(model)));
    let (nr, nc) = (model.nr, model.nc);
    let mut rows = Cur::new("iter_rows", m.iter_rows(), nr);
    let mut cols = Cur::new("iter_cols", m.iter_cols(), nc);
    let mut flat: Flat<&E> = vec![];
    for _ in 0..steps {
        match weighted(&[6, 6, 18, 3, 3]) {
            0 => {
                let mut new = vec![];
                rows.step(&mut |k, it| new.push((k, it)));
                note(|| format!("  rows: {}..{}", rows.lo, rows.hi));
                for (k, it) in new {
                    flat.push((true, k, Box::new(Cur::new(format!("row {k}"), it, nc))));
                }
            }
            1 => {
                let mut new = vec![];
                cols.step(&mut |k, it| new.push((k, it)));
                note(|| format!("  cols: {}..{}", cols.lo, cols.hi));
                for (k, it) in new {
                    flat.push((false, k, Box::new(Cur::new(format!("col {k}"), it, nr))));
                }
            }
            2 if !flat.is_empty() => {
                let k = choose(flat.len());
                let (is_row, line, cur) = &mut flat[k];
                let (is_row, line) = (*is_row, *line);
                let label = cur.name().to_string();
                cur.step(&mut |pos, e| {
                    let (r, c) = if is_row { (line, pos) } else { (pos, line) };
                    same(&label, e, r, c, model, at)
                });
                note(|| format!("  {label}: {} to come", cur.remaining()));
                if cur.done() {
                    drop(flat.swap_remove(k));
                }
            }
            x => {
                let is_row = x == 3;
                let n = edge_n(if is_row { nr } else { nc });
                event("nth", is_row as u64, n as u64);
                note(|| format!("  iter_nth_{}({n})", if is_row { "row" } else { "col" }));
                let valid = n < if is_row { nr } else { nc };
                macro_rules! nth {
                    ($r:expr, $len:expr) => {
                        match $r {
                            Ok(it) => {
                                nth_ok(valid, is_row, n, model);
                                flat.push((is_row, n, Box::new(Cur::new(format!("nth {n}"), it, $len))));
                            }
                            Err(e) => nth_err(valid, is_row, n, model, e),
                        }
                    };
                }
                if is_row {
                    nth!(m.iter_nth_row(n), nc)
                } else {
                    nth!(m.iter_nth_col(n), nr)
                }
            }
        }
        if flat.len() > 24 {
            flat.swap_remove(choose(flat.len()));
        }
        stop_if_violated();
    }
    for (is_row, line, cur) in &mut flat {
        let label = cur.name().to_string();
        cur.drain(&mut |pos, e| {
            let (r, c) = if *is_row { (*line, pos) } else { (pos, *line) };
            same(&label, e, r, c, model, at)
        });
    }
    let (mut a, mut b) = (0, 0);
    rows.drain(&mut |_, it| {
        a += 1;
        ensure(it.len() == nc, "wrong-len", || format!("a row of {} has length {}", desc(model), it.len()));
    });
    cols.drain(&mut |_, it| {
        b += 1;
        ensure(it.len() == nr, "wrong-len", || format!("a column of {} has length {}", desc(model), it.len()));
    });
}

fn nth_ok(valid: bool, is_row: bool, n: usize, model: &Model) {
    if !ensure(valid, "wrong-result", || {
        format!("iter_nth_{}({n}) of {} did not fail", if is_row { "row" } else { "col" }, desc(model))
    }) {
        stop_if_violated();
    }
}
fn nth_err(valid: bool, is_row: bool, n: usize, model: &Model, e: matreex::error::Error) {
    ensure(!valid && e == matreex::error::Error::IndexOutOfBounds, "wrong-result", || {
        format!("iter_nth_{}({n}) of {} failed with {e:?}", if is_row { "row" } else { "col" }, desc(model))
    });
    count("nth_out_of_bounds", 1);
}

fn writers<E: Elem>(m: &mut Matrix<E>, model: &Model, at: &[Vec<usize>], steps: usize) -> Vec<(usize, usize, u64)> {
    note(|| format!("writers of {}", desc(model)));
    let (nr, nc) = (model.nr, model.nc);
    let mut writes: Vec<(usize, usize, u64)> = vec![];
    let mut stamp = 1_000_000u64;
    let mut hit = |label: &str, e: &mut E, r: usize, c: usize| {
        if writes.iter().any(|w| (w.0, w.1) == (r, c)) {
            violate("handed-out-twice", &format!("{label}: ({r}, {c})"));
            stop_if_violated();
        }
        same(label, e, r, c, model, at);
        stamp += 1;
        e.set(stamp);
        writes.push((r, c, stamp));
    };
    let which = choose(4);
    event("writers", which as u64, 0);
    macro_rules! outer {
        ($it:expr, $a:expr, $b:expr, $name:literal, $rows:literal) => {{
            let mut outer = Cur::new($name, $it, $a);
            let mut flat = vec![];
            for _ in 0..steps {
                if flat.is_empty() || choose(3) == 0 {
                    let mut new = vec![];
                    outer.step(&mut |k, it| new.push((k, it)));
                    note(|| format!("  {}: {}..{}", $name, outer.lo, outer.hi));
                    for (k, it) in new {
                        flat.push((k, Cur::new(format!("{} {k}", $name), it, $b)));
                    }
                } else {
                    let k = choose(flat.len());
                    let (line, cur) = &mut flat[k];
                    let line = *line;
                    let label = cur.label.clone();
                    cur.step(&mut |pos, e| {
                        let (r, c) = if $rows { (line, pos) } else { (pos, line) };
                        hit(&label, e, r, c)
                    });
                    note(|| format!("  {label}: {}..{}", cur.lo, cur.hi));
                    if cur.done() {
                        flat.swap_remove(k);
                    }
                }
                stop_if_violated();
            }
            for (line, cur) in &mut flat {
                let label = cur.label.clone();
                cur.drain(&mut |pos, e| {
                    let (r, c) = if $rows { (*line, pos) } else { (pos, *line) };
                    hit(&label, e, r, c)
                });
            }
            outer.drain(&mut |_, it| {
                ensure(it.len() == $b, "wrong-len", || format!("{}: a line has length {}", $name, it.len()));
            });
        }};
    }
    macro_rules! nth {
        ($call:ident, $a:expr, $b:expr, $rows:literal) => {{
            let n = edge_n($a);
            note(|| format!("  {}({n})", stringify!($call)));
            event("nth", $rows as u64, n as u64);
            match m.$call(n) {
                Ok(it) => {
                    nth_ok(n < $a, $rows, n, model);
                    let mut cur = Cur::new(format!("nth {n}"), it, $b);
                    for _ in 0..steps {
                        if cur.done() {
                            break;
                        }
                        cur.step(&mut |pos, e| {
                            let (r, c) = if $rows { (n, pos) } else { (pos, n) };
                            hit("nth", e, r, c)
                        });
                    }
                    cur.drain(&mut |pos, e| {
                        let (r, c) = if $rows { (n, pos) } else { (pos, n) };
                        hit("nth", e, r, c)
                    });
                }
                Err(e) => nth_err(n < $a, $rows, n, model, e),
            }
        }};
    }
    match which {
        0 => outer!(m.iter_rows_mut(), nr, nc, "iter_rows_mut", true),
        1 => outer!(m.iter_cols_mut(), nc, nr, "iter_cols_mut", false),
        2 => nth!(iter_nth_row_mut, nr, nc, true),
        _ => nth!(iter_nth_col_mut, nc, nr, false),
    }
    writes
}

/// Lengths and bounds at the far end of the number line.
fn c06_vast() {
    let degenerate = choose(2) == 1;
    let (mut nr, mut nc) = if degenerate {
        if choose(2) == 0 { (0, tame(pick(&EXTREMES))) } else { (tame(pick(&EXTREMES)), 0) }
    } else {
        vast_shape()
    };
    let mut m: Matrix<()> = vast(nr, nc);
    if choose(2) == 1 {
        m.switch_order_without_rearrangement();
        std::mem::swap(&mut nr, &mut nc);
    }
    note(|| format!("() {nr}x{nc} {:?}", m.order()));
    event("vast", nr as u64, nc as u64);
    count("nontrivial", 1);
    count("vast", 1);
    let model = Model { nr, nc, order: m.order(), rows: vec![] };
    for _ in 0..range(2, 8) {
        let n = match choose(3) {
            0 => nr.saturating_sub(1),
            1 => nc.saturating_sub(1),
            _ => edge_n(if choose(2) == 0 { nr } else { nc }),
        };
        let which = choose(8);
        event("view", which as u64, n as u64);
        note(|| format!("view {which} n {n}"));
        macro_rules! outer {
            ($it:expr, $a:expr, $b:expr, $name:literal) => {{
                let mut cur = Cur::new($name, $it, $a);
                let mut inner = vec![];
                for _ in 0..choose(6) {
                    if cur.done() {
                        break;
                    }
                    cur.step(&mut |k, it| {
                        if inner.len() < 8 {
                            inner.push((k, it))
                        }
                    });
                }
                for (k, it) in inner {
                    let mut c = Cur::new(format!("{} {k}", $name), it, $b);
                    for _ in 0..choose(4) {
                        if !c.done() {
                            c.step(&mut |_, _| {});
                        }
                    }
                }
            }};
        }
        macro_rules! nth {
            ($r:expr, $is_row:literal, $a:expr, $b:expr) => {
                match $r {
                    Ok(it) => {
                        nth_ok(n < $a, $is_row, n, &model);
                        let mut c = Cur::new("nth", it, $b);
                        for _ in 0..choose(5) {
                            if !c.done() {
                                c.step(&mut |_, _| {});
                            }
                        }
                    }
                    Err(e) => nth_err(n < $a, $is_row, n, &model, e),
                }
            };
        }
        let r = attempt(|| match which {
            0 => outer!(m.iter_rows(), nr, nc, "iter_rows"),
            1 => outer!(m.iter_cols(), nc, nr, "iter_cols"),
            2 => outer!(m.iter_rows_mut(), nr, nc, "iter_rows_mut"),
            3 => outer!(m.iter_cols_mut(), nc, nr, "iter_cols_mut"),
            4 => nth!(m.iter_nth_row(n), true, nr, nc),
            5 => nth!(m.iter_nth_col(n), false, nc, nr),
            6 => nth!(m.iter_nth_row_mut(n), true, nr, nc),
            _ => nth!(m.iter_nth_col_mut(n), false, nc, nr),
        });
        if let Err(p) = r {
            violate("unexpected-panic", &format!("view {which} of {}: {}", desc(&model), payload_str(&*p)));
        }
        stop_if_violated();
    }
}

// --------------------------------------------------------------------- C15

fn c15(tier: Tier) {
    match weighted(&[6, 6, 4, 4, 4, 4, 3, 2]) {
        0 => c15_e::<T4>(tier),
        1 => c15_e::<T24>(tier),
        2 => c15_e::<P8>(tier),
        3 => c15_e::<TBox>(tier),
        4 => c15_e::<B1>(tier),
        5 => c15_e::<Z>(tier),
        6 => c15_vast(),
        _ => c15_e::<T128>(tier),
    }
}

/// Logical position of the k-th element in memory order.
fn place(model: &Model, k: usize) -> (usize, usize) {
    match model.order {
        Order::RowMajor => (k / model.nc, k % model.nc),
        Order::ColMajor => (k % model.nr, k / model.nr),
    }
}

fn ixok(label: &str, ix: Index, r: usize, c: usize, model: &Model) {
    if !ensure((ix.row, ix.col) == (r, c), "wrong-index", || {
        format!("{label} of {}: the element at ({r}, {c}) is reported at ({}, {})", desc(model), ix.row, ix.col)
    }) {
        stop_if_violated();
    }
}

fn c15_e<E: Elem>(tier: Tier) {
    event(E::NAME, 0, 0);
    note(|| format!("element type {}", E::NAME));
    let n = range(1, 6);
    let mut w = history::<E>(n, &SHAPERS);
    w.held.clear();
    let rounds = range(1, if tier == Tier::Thorough { 5 } else { 3 });
    for _ in 0..rounds {
        if w.ms.is_empty() {
            break;
        }
        let i = choose(w.ms.len());
        let model = w.ms[i].model.clone();
        let at = addrs(&w.ms[i].m);
        if model.size() > 1 {
            count("nontrivial", 1);
        }
        state(mix(model.nr as u64, mix(model.nc as u64, (model.order == Order::RowMajor) as u64)));
        let steps = range(1, if tier == Tier::Thorough { 60 } else { 30 });
        let which = weighted(&[4, 4, 4, 5, 5, 6]);
        note(|| format!("element iteration {which} of {}", desc(&model)));
        event("which", which as u64, 0);
        let balanced = elem::live() == w.ms.iter().map(|s| s.m.size()).sum::<usize>();
        let mut moved: Vec<(usize, E)> = vec![];
        let r = attempt(|| match which {
            0 => c15_read(&w.ms[i].m, &model, &at, steps),
            1 => {
                let m = &mut w.ms[i].m;
                let mut want = model.clone();
                let mut cur = Cur::new("iter_elements_mut", m.iter_elements_mut(), model.size());
                let mut hit = |pos: usize, e: &mut E| {
                    let (r, c) = place(&model, pos);
                    same("iter_elements_mut", e, r, c, &model, &at);
                    e.set(pos as u64 + 77);
                    want.rows[r][c].val = E::norm(pos as u64 + 77);
                };
                for _ in 0..steps {
                    if !cur.done() {
                        cur.step(&mut |p, e| hit(p, e));
                    }
                }
                cur.drain(&mut |p, e| hit(p, e));
                drop(cur);
                w.ms[i].model = want;
            }
            2 => {
                let m = &mut w.ms[i].m;
                let mut want = model.clone();
                let mut cur = Cur::new("iter_elements_mut_with_index", m.iter_elements_mut_with_index(), model.size());
                let mut hit = |pos: usize, (ix, e): (Index, &mut E)| {
                    let (r, c) = place(&model, pos);
                    same("iter_elements_mut_with_index", e, r, c, &model, &at);
                    ixok("iter_elements_mut_with_index", ix, r, c, &model);
                    e.set(pos as u64 + 88);
                    want.rows[r][c].val = E::norm(pos as u64 + 88);
                };
                for _ in 0..steps {
                    if !cur.done() {
                        cur.step(&mut |p, e| hit(p, e));
                    }
                }
                cur.drain(&mut |p, e| hit(p, e));
                drop(cur);
                w.ms[i].model = want;
            }
            3 | 4 => {
                let m = w.ms.remove(i).m;
                let keep = choose(2) == 1;
                let label = if which == 3 { "into_iter_elements" } else { "into_iter_elements_with_index" };
                let mut hit = |pos: usize, ix: Option<Index>, e: E| {
                    let (r, c) = place(&model, pos);
                    same_moved(label, &e, r, c, &model);
                    if let Some(ix) = ix {
                        ixok(label, ix, r, c, &model);
                    }
                    if keep {
                        moved.push((pos, e));
                    }
                };
                let steps = if choose(3) == 0 { steps } else { steps / 6 };
                let drain = choose(2) == 1;
                macro_rules! go {
                    ($it:expr, |$p:ident, $x:ident| $e:expr) => {{
                        let mut cur = Cur::new(label, $it, model.size());
                        for _ in 0..steps {
                            if !cur.done() {
                                cur.step(&mut |$p, $x| $e);
                            }
                        }
                        if drain {
                            cur.drain(&mut |$p, $x| $e);
                        } else {
                            count("cancel_half_way", 1);
                        }
                        // the rest goes with the cursor
                    }};
                }
                if which == 3 {
                    go!(m.into_iter_elements(), |p, e| hit(p, None, e))
                } else {
                    go!(m.into_iter_elements_with_index(), |p, x| hit(p, Some(x.0), x.1))
                }
            }
            _ => c15_par(&mut w, i, &model, &at, &mut moved),
        });
        if let Err(p) = r {
            violate("unexpected-panic", &format!("element iteration {which} of {}: {}", desc(&model), payload_str(&*p)));
        }
        stop_if_violated();
        // whoever was moved out is alive, everybody else is gone
        for (pos, e) in &moved {
            let (r, c) = place(&model, *pos);
            same_moved("a kept element", e, r, c, &model);
        }
        if E::IDS {
            let mut ids: Vec<u32> = moved.iter().map(|x| x.1.id()).collect();
            ids.sort_unstable();
            ensure(ids.windows(2).all(|w| w[0] != w[1]), "moved-out-twice", || format!("element iteration {which}"));
        }
        if E::TRACKED && balanced {
            let (have, want) = (elem::live(), w.ms.iter().map(|s| s.m.size()).sum::<usize>() + moved.len());
            ensure(have == want, if have > want { "leak" } else { "lost-element" }, || {
                format!("element iteration {which} of {}: {have} elements alive, {want} expected", desc(&model))
            });
        }
        drop(moved);
        w.ctl.judge = Judge::Content;
        w.check("element iteration", true);
        w.ctl.judge = Judge::Coherence;
        stop_if_violated();
        if !w.ms.is_empty() {
            let all = ops::all::<E>();
            let ops: Vec<&Op<E>> = all.iter().filter(|o| matches!(o.group, G::Order | G::Shape)).collect();
            step(&mut w, ops[choose(ops.len())]);
        }
    }
    w.end(true);
}

fn same_moved<E: Elem>(what: &str, e: &E, r: usize, c: usize, model: &Model) {
    let ok = model.rows.get(r).and_then(|x| x.get(c)).is_some_and(|w| w.val == e.val() && (!E::IDS || w.id == e.id()));
    if !ok {
        violate("wrong-element", &format!("{what} of {}: not the element at ({r}, {c})", desc(model)));
        stop_if_violated();
    }
}

fn c15_read<E: Elem>(m: &Matrix<E>, model: &Model, at: &[Vec<usize>], steps: usize) {
    let n = model.size();
    let mut plain: Vec<Box<dyn Cursor<&E>>> = vec![
        Box::new(Cur::new("iter_elements", m.iter_elements(), n)),
        Box::new(Cur::new("iter_elements (2)", m.iter_elements(), n)),
    ];
    let mut indexed: Vec<Box<dyn Cursor<(Index, &E)>>> = vec![
        Box::new(Cur::new("iter_elements_with_index", m.iter_elements_with_index(), n)),
        Box::new(Cur::new("iter_elements_with_index (2)", m.iter_elements_with_index(), n)),
    ];
    let mut done = 0;
    while done < steps {
        let k = range(1, 4);
        done += k;
        if choose(2) == 0 {
            interleave(&mut plain, k, &mut |_, pos, e| {
                let (r, c) = place(model, pos);
                same("iter_elements", e, r, c, model, at)
            });
        } else {
            interleave(&mut indexed, k, &mut |_, pos, (ix, e)| {
                let (r, c) = place(model, pos);
                same("iter_elements_with_index", e, r, c, model, at);
                ixok("iter_elements_with_index", ix, r, c, model);
            });
        }
    }
    for c in &mut plain {
        c.drain(&mut |pos, e| {
            let (r, c) = place(model, pos);
            same("iter_elements", e, r, c, model, at)
        });
    }
    for c in &mut indexed {
        c.drain(&mut |pos, (ix, e)| {
            let (r, c) = place(model, pos);
            same("iter_elements_with_index", e, r, c, model, at);
            ixok("iter_elements_with_index", ix, r, c, model);
        });
    }
}

fn c15_par<E: Elem>(w: &mut World<E>, i: usize, model: &Model, at: &[Vec<usize>], moved: &mut Vec<(usize, E)>) {
    let threads = range(1, 6);
    let how = choose(6);
    let pool = choose(4) == 3 && !cfg!(miri);
    note(|| format!("parallel variant {how}, {threads} workers, pool {pool}"));
    event("par", how as u64, threads as u64);
    let seen: std::sync::Mutex<Vec<(usize, usize, usize, u64)>> = std::sync::Mutex::new(vec![]);
    let kept: std::sync::Mutex<Vec<((usize, usize), E)>> = std::sync::Mutex::new(vec![]);
    let log = |ix: Index, a: usize, v: u64| {
        let _p = heap::Pause::new();
        seen.lock().unwrap().push((ix.row, ix.col, a, v))
    };
    let mut whole = true;
    let mut indexed = true;
    let taken = (how >= 3).then(|| w.ms.remove(i).m);
    let ms = &mut w.ms;
    let cut = choose(model.size() + 1);
    let (whole_, indexed_) = (&mut whole, &mut indexed);
    let body = || match how {
        0 => ms[i].m.par_iter_elements_with_index().for_each(|(ix, e)| log(ix, e as *const E as usize, e.val())),
        1 => ms[i].m.par_iter_elements_mut_with_index().for_each(|(ix, e)| log(ix, e as *const E as usize, e.val())),
        2 => {
            *indexed_ = false;
            ms[i].m.par_iter_elements().for_each(|e| log(Index::new(0, 0), e as *const E as usize, e.val()))
        }
        3 => taken.unwrap().into_par_iter_elements_with_index().for_each(|(ix, e)| {
            log(ix, 0, e.val());
            let _p = heap::Pause::new();
            kept.lock().unwrap().push(((ix.row, ix.col), e));
        }),
        4 => {
            // stops early: the rest has to go as well
            *whole_ = false;
            count("cancel_half_way", 1);
            let n = std::sync::atomic::AtomicUsize::new(0);
            taken.unwrap().into_par_iter_elements_with_index().any(|(ix, e)| {
                log(ix, 0, e.val());
                n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= cut
            });
        }
        _ => {
            *indexed_ = false;
            taken.unwrap().into_par_iter_elements().for_each(|e| log(Index::new(0, 0), 0, e.val()))
        }
    };
    if pool {
        rayon_core::sim::with_pool(threads, body);
    } else {
        rayon_core::sim::configure(rayon_core::sim::Mode::Inline, threads);
        body();
    }
    rayon_core::sim::configure(rayon_core::sim::Mode::Off, 4);
    let seen = seen.into_inner().unwrap();
    for ((r, c), e) in kept.into_inner().unwrap() {
        if r >= model.nr || c >= model.nc {
            violate("wrong-index", &format!("parallel variant {how} of {}: index ({r}, {c})", desc(model)));
            stop_if_violated();
        }
        let k = match model.order {
            Order::RowMajor => r * model.nc + c,
            Order::ColMajor => c * model.nr + r,
        };
        moved.push((k, e));
    }
    if indexed {
        let mut ix: Vec<(usize, usize)> = seen.iter().map(|x| (x.0, x.1)).collect();
        ix.sort_unstable();
        ensure(ix.windows(2).all(|w| w[0] != w[1]), "duplicate-index", || {
            format!("parallel variant {how} of {}: an index is reported twice", desc(model))
        });
        for (r, c, a, v) in &seen {
            let ok = *r < model.nr && *c < model.nc && model.at(*r, *c).val == *v
                && (*a == 0 || size_of::<E>() == 0 || at[*r][*c] == *a);
            ensure(ok, "wrong-index", || {
                format!("parallel variant {how} of {}: index ({r}, {c}) is not where get finds the element", desc(model))
            });
        }
    } else {
        let mut got: Vec<u64> = seen.iter().map(|x| x.3).collect();
        let mut want: Vec<u64> = model.rows.iter().flatten().map(|c| c.val).collect();
        got.sort_unstable();
        want.sort_unstable();
        ensure(got == want, "wrong-multiset", || format!("parallel variant {how} of {}", desc(model)));
    }
    ensure(!whole || seen.len() == model.size(), "lost-item", || {
        format!("parallel variant {how} of {}: {} of {} elements visited", desc(model), seen.len(), model.size())
    });
}

/// Indices at the far end of the number line.
fn c15_vast() {
    let (mut nr, mut nc) = vast_shape();
    let mut m: Matrix<()> = vast(nr, nc);
    if choose(2) == 1 {
        m.switch_order_without_rearrangement();
        std::mem::swap(&mut nr, &mut nc);
    }
    let model = Model { nr, nc, order: m.order(), rows: vec![] };
    note(|| format!("() {}", desc(&model)));
    event("vast", nr as u64, nc as u64);
    count("nontrivial", 1);
    count("vast", 1);
    let n = nr * nc;
    let steps = range(1, 20);
    let which = choose(6);
    macro_rules! go {
        ($it:expr, |$p:ident, $x:ident| $e:expr) => {{
            let mut cur = Cur::new("vast", $it, n);
            for _ in 0..steps {
                if !cur.done() {
                    cur.step(&mut |$p, $x| $e);
                }
            }
        }};
    }
    let check = |pos: usize, ix: Index| {
        let (r, c) = place(&model, pos);
        event("item", r as u64, c as u64);
        ixok("vast", ix, r, c, &model)
    };
    let r = attempt(|| match which {
        0 => go!(m.iter_elements(), |_p, _x| ()),
        1 => go!(m.iter_elements_mut(), |_p, _x| ()),
        2 => go!(m.iter_elements_with_index(), |p, x| check(p, x.0)),
        3 => go!(m.iter_elements_mut_with_index(), |p, x| check(p, x.0)),
        4 => go!(m.into_iter_elements(), |_p, _x| ()),
        _ => go!(m.into_iter_elements_with_index(), |p, x| check(p, x.0)),
    });
    if let Err(p) = r {
        violate("unexpected-panic", &format!("element iteration {which} of {}: {}", desc(&model), payload_str(&*p)));
    }
}

fn main() {
    let _ = shape;
    runner::main(&[
        Prop { id: "C03", scenario: c03, enumerate_faults: false },
        Prop { id: "C06", scenario: c06, enumerate_faults: false },
        Prop { id: "C15", scenario: c15, enumerate_faults: false },
    ]);
}
