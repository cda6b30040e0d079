//! C01, C02, C05, C09: histories.
use matsim::elem::*;
use matsim::gen_::*;
use matsim::model::*;
use matsim::ops::{self, G, GROUPS, Op};
use matsim::runner::{self, Prop, Tier};
use matsim::*;

#[cfg(not(miri))]
#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

fn by_elem(f: [fn(Tier); 7], tier: Tier) {
    let k = weighted(&[4, 4, 4, 4, 4, 4, 2]);
    f[k](tier)
}

/// Picks the operations this run uses (swarm).
fn swarm<E: Elem>() -> Vec<Op<E>> {
    let all = ops::all::<E>();
    if choose(3) == 0 {
        return all;
    }
    let on: Vec<G> = GROUPS.iter().copied().filter(|g| *g == G::Build || choose(2) == 0).collect();
    all.into_iter().filter(|o| on.contains(&o.group)).collect()
}

fn pick_op<E: Elem>(ops: &[Op<E>]) -> &Op<E> {
    let ws: Vec<u32> = ops.iter().map(|o| o.weight).collect();
    &ops[weighted(&ws)]
}

fn step<E: Elem>(w: &mut World<E>, op: &Op<E>) {
    count("ops", 1);
    event(op.name, 0, 0);
    w.ctl.args.clear();
    (op.f)(w);
    note(|| {
        let s: Vec<String> = w
            .ms
            .iter()
            .map(|s| format!("{}x{}{}", s.m.nrows(), s.m.ncols(), if s.m.order() == matreex::Order::RowMajor { "r" } else { "c" }))
            .collect();
        format!("{} {}  => [{}]", op.name, w.ctl.args, s.join(" "))
    });
}

// --------------------------------------------------------------------- C01

fn c01(tier: Tier) {
    by_elem([c01_e::<T24>, c01_e::<T4>, c01_e::<P8>, c01_e::<TBox>, c01_e::<B1>, c01_e::<Z>, c01_e::<T128>], tier)
}

fn c01_e<E: Elem>(tier: Tier) {
    note(|| format!("element type {}", E::NAME));
    event(E::NAME, 0, 0);
    let ops = swarm::<E>();
    let builders: Vec<Op<E>> = ops::all::<E>().into_iter().filter(|o| o.group == G::Build).collect();
    let mut w = World::<E>::new(Judge::Content);
    let n = range(1, if cfg!(miri) { 8 } else if tier == Tier::Thorough { 60 } else { 24 });
    let mut touched = 0;
    for _ in 0..n {
        let op = if w.ms.is_empty() { pick_op(&builders) } else { pick_op(&ops) };
        step(&mut w, op);
        w.trim();
        w.check(op.name, false);
        state(w.state_hash());
        if w.ms.iter().any(|s| !s.m.is_empty()) && op.group != G::Build && op.group != G::Read {
            touched += 1;
        }
        stop_if_violated();
    }
    if touched >= 2 {
        count("nontrivial", 1);
    }
    w.end(false);
}

// --------------------------------------------------------------------- C02

fn c02(tier: Tier) {
    // the very first choice is the fault point, 0 = no fault
    let k = choose(runner::FORCE_FAULT) as u64;
    let f = [c02_e::<T24>, c02_e::<T4>, c02_e::<TBox>, c02_e::<Z>, c02_e::<P8>, c02_e::<T128>];
    let e = weighted(&[4, 4, 4, 4, 4, 2]);
    f[e](tier, k)
}

fn c02_e<E: Elem>(tier: Tier, k: u64) {
    note(|| format!("element type {}, fault at callback {k}", E::NAME));
    event(E::NAME, k, 0);
    let ops = ops::all::<E>();
    let builders: Vec<Op<E>> = ops::all::<E>().into_iter().filter(|o| o.group == G::Build).collect();
    let mut w = World::<E>::new(Judge::Coherence);
    let n = range(1, if cfg!(miri) { 3 } else { 6 });
    for _ in 0..n {
        let op = if w.ms.is_empty() { pick_op(&builders) } else { pick_op(&ops) };
        step(&mut w, op);
        w.trim();
        for s in &mut w.ms {
            s.stale = true;
        }
        w.check(op.name, true);
        stop_if_violated();
    }
    // the target
    let op = pick_op(&ops);
    note(|| format!("TARGET {}", op.name));
    w.ctl.armed = Some(k);
    w.ctl.callbacks = 0;
    step(&mut w, op);
    if !w.ctl.faulted {
        w.trim();
    }
    let n = w.ctl.callbacks;
    w.ctl.armed = None;
    if k == 0 {
        count("fault_points", n);
    }
    if w.ctl.faulted {
        count("nontrivial", 1);
        event("target", hash_str(op.name), k);
        state(mix(hash_str(op.name), w.state_hash()));
    }
    for s in &mut w.ms {
        s.stale = true;
    }
    w.check(&format!("a panic in {}", op.name), true);
    stop_if_violated();
    // the survivors must be usable
    let m = range(0, if cfg!(miri) { 2 } else if tier == Tier::Thorough { 12 } else { 6 });
    for _ in 0..m {
        let op = if w.ms.is_empty() { pick_op(&builders) } else { pick_op(&ops) };
        step(&mut w, op);
        w.trim();
        for s in &mut w.ms {
            s.stale = true;
        }
        w.check(&format!("a panic in the target, then {}", op.name), true);
        stop_if_violated();
    }
    w.end(true);
}

// --------------------------------------------------------------------- C05

fn c05(tier: Tier) {
    by_elem([c05_e::<T24>, c05_e::<T4>, c05_e::<P8>, c05_e::<TBox>, c05_e::<B1>, c05_e::<Z>, c05_e::<T128>], tier)
}

fn c05_shape() -> (usize, usize) {
    match weighted(&[6000, 3000, 3000, 2000, 2000, 2000, 2000, 500, 3]) {
        0 => (range(1, 8), range(1, 8)),
        1 => (range(1, 24), range(1, 24)),
        2 => {
            let n = range(1, 16);
            (n, n)
        }
        3 => (1, range(1, 60)),
        4 => (range(1, 60), 1),
        5 => {
            let (a, b, g) = (range(1, 6), range(1, 6), range(2, 5));
            (a * g, b * g)
        }
        7 => large(),
        8 => huge(),
        _ => match choose(3) {
            0 => (0, 0),
            1 => (0, range(1, 9)),
            _ => (range(1, 9), 0),
        },
    }
}

fn c05_e<E: Elem>(tier: Tier) {
    note(|| format!("element type {}", E::NAME));
    event(E::NAME, 0, 0);
    let ops: Vec<Op<E>> = ops::all::<E>().into_iter().filter(|o| o.group == G::Order).collect();
    let mut w = World::<E>::new(Judge::Identity);
    let (nr, nc) = c05_shape();
    let n = nr * nc;
    let vals: Vec<E> = (0..n as u64).map(|i| E::make(i + 1)).collect();
    let cells: Vec<Cell> = vals.iter().map(|e| Cell { val: e.val(), id: e.id() }).collect();
    let mut m = matreex::Matrix::from_row(vals);
    m.reshape((nr, nc)).unwrap();
    let order = m.order();
    w.push(m, Model::from_mem(nr, nc, order, &cells));
    note(|| format!("{nr}x{nc}"));
    event("shape", nr as u64, nc as u64);
    w.check("construction", false);
    let steps = range(1, if tier == Tier::Thorough { 24 } else { 10 });
    let (births, deaths) = (elem::born(), elem::died());
    for _ in 0..steps {
        let op = pick_op(&ops);
        step(&mut w, op);
        // the memory-order sequence is what the order tag says it is
        let s = &w.ms[0];
        let want: Vec<(u64, u32)> = s.model.mem().iter().map(|c| (c.val, c.id)).collect();
        let got: Vec<(u64, u32)> =
            s.m.iter_elements().take(n + 1).map(|e| (e.val(), if E::IDS { e.id() } else { 0 })).collect();
        ensure(got == want, "wrong-memory-order", || {
            format!("after {}: the memory-order sequence of the {}x{} matrix is wrong", op.name, s.model.nr, s.model.nc)
        });
        w.check(op.name, false);
        ensure(elem::born() == births && elem::died() == deaths && elem::clones() == 0, "cloned-or-dropped", || {
            format!("{} created or dropped elements", op.name)
        });
        state(w.state_hash());
        stop_if_violated();
    }
    // the involutions, from wherever the history led
    let s = &mut w.ms[0];
    let before = s.model.clone();
    s.m.transpose();
    s.m.transpose();
    w.check("transpose twice", false);
    let s = &mut w.ms[0];
    s.m.switch_order();
    s.m.switch_order();
    w.check("switch_order twice", false);
    let s = &mut w.ms[0];
    s.m.switch_order_without_rearrangement();
    s.m.switch_order_without_rearrangement();
    w.check("switch_order_without_rearrangement twice", false);
    let _ = before;
    if n > 1 {
        count("nontrivial", 1);
    }
    w.end(false);
}

// --------------------------------------------------------------------- C09

fn c09(tier: Tier) {
    by_elem([c09_e::<T24>, c09_e::<T4>, c09_e::<P8>, c09_e::<TBox>, c09_e::<B1>, c09_e::<Z>, c09_e::<T128>], tier)
}

#[derive(PartialEq)]
struct Snap {
    shape: (usize, usize),
    order: matreex::Order,
    mem: Vec<Cell>,
}

fn snap<E: Elem>(m: &matreex::Matrix<E>) -> Snap {
    Snap {
        shape: (m.nrows(), m.ncols()),
        order: m.order(),
        mem: m.iter_elements().map(|e| Cell { val: e.val(), id: e.id() }).collect(),
    }
}

fn c09_e<E: Elem>(tier: Tier) {
    note(|| format!("element type {}", E::NAME));
    event(E::NAME, 0, 0);
    let all = ops::all::<E>();
    let judged = |o: &Op<E>| o.name == "s_reshape" || o.name == "s_resize";
    let fallible =
        |o: &Op<E>| judged(o) || matches!(o.name, "w_swap" | "w_swap_lines" | "g_assign");
    let builders: Vec<Op<E>> = ops::all::<E>()
        .into_iter()
        .filter(|o| matches!(o.name, "b_from_rows" | "b_with_initializer" | "b_from_line"))
        .collect();
    let targets: Vec<Op<E>> = ops::all::<E>().into_iter().filter(|o| fallible(o)).collect();
    let mut w = World::<E>::new(Judge::Identity);
    let n = range(1, if tier == Tier::Thorough { 40 } else { 16 });
    let mut nontrivial = false;
    for _ in 0..n {
        let op = if w.ms.is_empty() {
            pick_op(&builders)
        } else if chance(1, 3) {
            pick_op(&all)
        } else {
            pick_op(&targets)
        };
        let j = judged(op);
        w.ctl.judge = if j { Judge::Identity } else { Judge::Coherence };
        // everything before the step, by value and identity
        let before: Vec<Snap> = w.ms.iter().map(|s| snap(&s.m)).collect();
        let len = w.ms.len();
        let failed = w.ctl.failed;
        let died = elem::died();
        let live = elem::live();
        let exact = live == w.ms.iter().map(|s| s.m.size()).sum::<usize>() + w.held.len();
        step(&mut w, op);
        if fallible(op) && w.ctl.failed > failed {
            nontrivial = true;
            count("failed_inplace_ops", 1);
            // a consumed right operand may have gone; all others are untouched
            let after: Vec<Snap> = w.ms.iter().map(|s| snap(&s.m)).collect();
            let gone = len.saturating_sub(after.len());
            let mut k = 0;
            let mut skipped = 0;
            for a in &after {
                while k < before.len() && *a != before[k] && skipped < gone {
                    k += 1;
                    skipped += 1;
                }
                if k >= before.len() {
                    break; // operands the step itself added
                }
                ensure(*a == before[k], "changed-by-failure", || {
                    format!(
                        "a failed {} changed a matrix: {}x{} {:?} before, {}x{} {:?} after",
                        op.name, before[k].shape.0, before[k].shape.1, before[k].order, a.shape.0, a.shape.1, a.order
                    )
                });
                k += 1;
            }
            if E::TRACKED && gone == 0 && j {
                ensure(elem::died() == died && elem::live() == live, "changed-by-failure", || {
                    format!("a failed {} created or dropped elements", op.name)
                });
            }
        } else if j {
            nontrivial = true;
        }
        w.trim();
        if !j {
            for s in &mut w.ms {
                s.stale = true;
            }
        }
        w.check(op.name, !j || !exact);
        state(w.state_hash());
        stop_if_violated();
    }
    if nontrivial {
        count("nontrivial", 1);
    }
    w.end(true);
}

fn main() {
    let _ = GROUPS;
    let _ = shape;
    runner::main(&[
        Prop { id: "C01", scenario: c01, enumerate_faults: false },
        Prop { id: "C02", scenario: c02, enumerate_faults: true },
        Prop { id: "C05", scenario: c05, enumerate_faults: false },
        Prop { id: "C09", scenario: c09, enumerate_faults: false },
    ]);
}
