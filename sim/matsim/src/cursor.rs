//! Cursors: library iterators as live objects whose next step the simulator
//! picks. A cursor knows which positions it still has to deliver.

use simrt::*;

/// Largest number of items a single step may run through.
pub const DRAIN: usize = 4096;

pub trait Cursor<T> {
    /// Takes one step; items go to `sink` with the position they stand for.
    fn step(&mut self, sink: &mut dyn FnMut(usize, T));
    fn remaining(&self) -> usize;
    fn done(&self) -> bool;
    fn abandon(&mut self);
    fn drain(&mut self, sink: &mut dyn FnMut(usize, T));
    fn name(&self) -> &str;
}

pub struct Cur<I> {
    it: Option<I>,
    /// Positions still to come: `lo..hi`.
    pub lo: usize,
    pub hi: usize,
    pub label: String,
}

impl<I: ExactSizeIterator + DoubleEndedIterator> Cur<I> {
    pub fn new(label: impl Into<String>, it: I, n: usize) -> Self {
        let mut c = Cur { it: Some(it), lo: 0, hi: n, label: label.into() };
        c.check_len();
        c
    }
    fn rem(&self) -> usize {
        self.hi - self.lo
    }
    fn check_len(&mut self) {
        let rem = self.rem();
        if let Some(it) = &self.it {
            let (len, hint) = (it.len(), it.size_hint());
            ensure(len == rem, "wrong-len", || {
                format!("{}: len() is {len}, {rem} items are still to come", self.label)
            });
            ensure(hint == (rem, Some(rem)), "wrong-len", || {
                format!("{}: size_hint() is {hint:?}, {rem} items are still to come", self.label)
            });
        }
    }
    fn got(&self, call: &str, item: &Option<I::Item>, expect: bool) -> bool {
        if item.is_some() == expect {
            return true;
        }
        violate(
            if expect { "lost-item" } else { "extra-item" },
            &format!(
                "{}: {call} returned {} with {} items still to come ({}..{})",
                self.label,
                if expect { "None" } else { "an item" },
                self.rem(),
                self.lo,
                self.hi
            ),
        );
        stop_if_violated();
        false
    }
}

impl<I: ExactSizeIterator + DoubleEndedIterator> Cursor<I::Item> for Cur<I> {
    fn remaining(&self) -> usize {
        if self.it.is_some() { self.rem() } else { 0 }
    }
    fn done(&self) -> bool {
        self.it.is_none()
    }
    fn abandon(&mut self) {
        self.it = None;
    }
    fn name(&self) -> &str {
        &self.label
    }
    fn step(&mut self, sink: &mut dyn FnMut(usize, I::Item)) {
        let rem = self.rem();
        let Some(it) = self.it.as_mut() else { return };
        match weighted(&[30, 30, 8, 6, 6, 2, 2, 1, 1, 1, 1, 1, 1, 1]) {
            0 => {
                event("next", self.lo as u64, 0);
                let x = it.next();
                if self.got("next()", &x, rem > 0) && rem > 0 {
                    self.lo += 1;
                    sink(self.lo - 1, x.unwrap());
                }
                self.check_len();
            }
            1 => {
                event("next_back", self.hi as u64, 0);
                let x = it.next_back();
                if self.got("next_back()", &x, rem > 0) && rem > 0 {
                    self.hi -= 1;
                    sink(self.hi, x.unwrap());
                }
                self.check_len();
            }
            2 => self.check_len(),
            3 => {
                let k = choose(rem.min(40) + 2);
                event("nth", k as u64, 0);
                let x = it.nth(k);
                self.got(&format!("nth({k})"), &x, k < rem);
                if k < rem {
                    self.lo += k + 1;
                    sink(self.lo - 1, x.unwrap());
                } else {
                    self.lo = self.hi;
                }
                self.check_len();
            }
            4 => {
                let k = choose(rem.min(40) + 2);
                event("nth_back", k as u64, 0);
                let x = it.nth_back(k);
                self.got(&format!("nth_back({k})"), &x, k < rem);
                if k < rem {
                    self.hi -= k + 1;
                    sink(self.hi, x.unwrap());
                } else {
                    self.hi = self.lo;
                }
                self.check_len();
            }
            _ if rem > DRAIN => self.check_len(),
            // the finishers
            5 => {
                event("for_each", 0, 0);
                let it = self.it.take().unwrap();
                let (mut pos, hi, label) = (self.lo, self.hi, self.label.clone());
                it.for_each(|x| {
                    if pos >= hi {
                        violate("extra-item", &format!("{label}: for_each delivers more than {hi} items"));
                        stop_if_violated();
                    }
                    sink(pos, x);
                    pos += 1;
                });
                ensure(pos == hi, "lost-item", || format!("{label}: for_each stopped at {pos} of {hi}"));
                self.lo = self.hi;
            }
            6 => {
                event("rev", 0, 0);
                let it = self.it.take().unwrap();
                let (lo, mut pos, label) = (self.lo, self.hi, self.label.clone());
                it.rev().for_each(|x| {
                    if pos <= lo {
                        violate("extra-item", &format!("{label}: rev() delivers too many items"));
                        stop_if_violated();
                    }
                    pos -= 1;
                    sink(pos, x);
                });
                ensure(pos == lo, "lost-item", || format!("{label}: rev() stopped at {pos}, not {lo}"));
                self.lo = self.hi;
            }
            7 => {
                event("count", 0, 0);
                let n = self.it.take().unwrap().count();
                ensure(n == rem, "wrong-len", || format!("{}: count() is {n}, not {rem}", self.label));
                self.lo = self.hi;
            }
            8 => {
                event("last", 0, 0);
                let x = self.it.take().unwrap().last();
                self.got("last()", &x, rem > 0);
                let hi = self.hi;
                self.lo = self.hi;
                if let Some(x) = x {
                    sink(hi - 1, x);
                }
            }
            9 => {
                let k = 1 + choose(4);
                event("step_by", k as u64, 0);
                let it = self.it.take().unwrap();
                let (mut pos, hi, label) = (self.lo, self.hi, self.label.clone());
                for x in it.step_by(k) {
                    if pos >= hi {
                        violate("extra-item", &format!("{label}: step_by({k}) delivers too many items"));
                        stop_if_violated();
                    }
                    sink(pos, x);
                    pos += k;
                }
                ensure(pos >= hi, "lost-item", || format!("{label}: step_by({k}) stopped at {pos} of {hi}"));
                self.lo = self.hi;
            }
            10 => {
                event("collect", 0, 0);
                let v: Vec<I::Item> = self.it.take().unwrap().collect();
                ensure(v.len() == rem, "wrong-len", || format!("{}: collected {} items, not {rem}", self.label, v.len()));
                stop_if_violated();
                for (k, x) in v.into_iter().enumerate() {
                    sink(self.lo + k, x);
                }
                self.lo = self.hi;
            }
            11 => {
                // the same from the back
                let k = choose(rem + 1);
                event("rfind", k as u64, 0);
                let top = self.hi;
                let mut seen = 0;
                let x = it.rfind(|_| {
                    seen += 1;
                    seen > k
                });
                self.got("rfind()", &x, k < rem);
                if k < rem {
                    self.hi = top - k - 1;
                    sink(top - k - 1, x.unwrap());
                } else {
                    self.hi = self.lo;
                }
                self.check_len();
            }
            12 => {
                // a part of it, borrowed
                let k = choose(rem + 1);
                event("by_ref", k as u64, 0);
                let (mut pos, end, label) = (self.lo, self.lo + k, self.label.clone());
                it.by_ref().take(k).for_each(|x| {
                    if pos >= end {
                        violate("extra-item", &format!("{label}: by_ref().take({k}) delivers too many items"));
                        stop_if_violated();
                    }
                    sink(pos, x);
                    pos += 1;
                });
                ensure(pos == end, "lost-item", || format!("{label}: by_ref().take({k}) stopped at {pos}, not {end}"));
                self.lo = end;
                self.check_len();
            }
            _ => {
                // a search that stops in the middle
                let k = choose(rem + 1);
                event("find", k as u64, 0);
                let base = self.lo;
                let mut seen = 0;
                let x = it.find(|_| {
                    seen += 1;
                    seen > k
                });
                self.got("find()", &x, k < rem);
                if k < rem {
                    self.lo = base + k + 1;
                    sink(base + k, x.unwrap());
                } else {
                    self.lo = self.hi;
                }
                self.check_len();
            }
        }
        stop_if_violated();
    }
    fn drain(&mut self, sink: &mut dyn FnMut(usize, I::Item)) {
        loop {
            let rem = self.rem();
            if rem > DRAIN {
                return;
            }
            let Some(it) = self.it.as_mut() else { return };
            let x = if choose(2) == 0 { it.next().map(|x| (true, x)) } else { it.next_back().map(|x| (false, x)) };
            let plain = x.is_some();
            if plain != (rem > 0) {
                violate(
                    if plain { "extra-item" } else { "lost-item" },
                    &format!("{}: draining, {} items still to come", self.label, rem),
                );
                stop_if_violated();
            }
            match x {
                Some((true, x)) => {
                    self.lo += 1;
                    sink(self.lo - 1, x);
                }
                Some((false, x)) => {
                    self.hi -= 1;
                    sink(self.hi, x);
                }
                None => {
                    self.check_len();
                    // exhausted means exhausted
                    let it = self.it.as_mut().unwrap();
                    let again = [it.next().is_some(), it.next_back().is_some()];
                    ensure(again == [false, false], "extra-item", || format!("{}: yields again after its end", self.label));
                    stop_if_violated();
                    self.it = None;
                    return;
                }
            }
            self.check_len();
            stop_if_violated();
        }
    }
}

/// Takes one cursor step at a time from a set of live cursors until `steps`
/// are used up or nothing is left.
pub fn interleave<T>(cs: &mut [Box<dyn Cursor<T> + '_>], steps: usize, sink: &mut dyn FnMut(usize, usize, T)) {
    for _ in 0..steps {
        let alive: Vec<usize> = (0..cs.len()).filter(|i| !cs[*i].done()).collect();
        if alive.is_empty() {
            return;
        }
        let k = pick(&alive);
        if chance(1, 40) {
            note(|| format!("  abandon {}", cs[k].name()));
            cs[k].abandon();
            continue;
        }
        let before = cs[k].remaining();
        cs[k].step(&mut |pos, x| sink(k, pos, x));
        note(|| format!("  {}: {} -> {} to come", cs[k].name(), before, cs[k].remaining()));
    }
}
