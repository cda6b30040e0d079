//! Instrumented element types. Every creation, copy, comparison, rendering and
//! destruction of a tracked element is an event of the simulation, recorded in
//! a ledger, and a point at which the fault plan may strike.

use simrt::{cb, hash_str, mix, violate};
use std::fmt::{Debug, Display};
use std::ops::*;
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Copy)]
struct Entry {
    live: bool,
    val: u64,
}

#[derive(Default)]
struct Ledger {
    e: Vec<Entry>,
    live: usize,
    born: u64,
    died: u64,
    clones: u64,
    z_born: u64,
    z_died: u64,
}

static LEDGER: Mutex<Ledger> =
    Mutex::new(Ledger { e: Vec::new(), live: 0, born: 0, died: 0, clones: 0, z_born: 0, z_died: 0 });

fn led() -> MutexGuard<'static, Ledger> {
    match LEDGER.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

/// Forgets everything; called at the start of a run.
pub fn reset() {
    let _p = simrt::heap::Pause::new();
    *led() = Ledger::default();
}
/// Tracked elements alive (those with an id, plus zero-sized ones).
pub fn live() -> usize {
    let l = led();
    l.live + (l.z_born - l.z_died) as usize
}
pub fn born() -> u64 {
    let l = led();
    l.born + l.z_born
}
pub fn died() -> u64 {
    let l = led();
    l.died + l.z_died
}
pub fn clones() -> u64 {
    led().clones
}

fn birth(val: u64) -> u32 {
    let _p = simrt::heap::Pause::new();
    let mut l = led();
    l.e.push(Entry { live: true, val });
    l.live += 1;
    l.born += 1;
    l.e.len() as u32
}

fn death(id: u32, what: &str) {
    let bad = {
        let mut l = led();
        match l.e.get_mut((id as usize).wrapping_sub(1)) {
            Some(e) if e.live => {
                e.live = false;
                l.live -= 1;
                l.died += 1;
                None
            }
            Some(_) => Some("dropped-twice"),
            None => Some("garbage-dropped"),
        }
    };
    if let Some(class) = bad {
        let _p = simrt::heap::Pause::new();
        violate(class, &format!("{what}: element id {id:#x} is not alive when it is dropped"));
    }
}

fn lookup(id: u32, what: &str) -> u64 {
    let r = {
        let l = led();
        match l.e.get((id as usize).wrapping_sub(1)) {
            Some(e) if e.live => return e.val,
            Some(e) => ("use-after-drop", e.val),
            None => ("garbage-read", 0),
        }
    };
    let _p = simrt::heap::Pause::new();
    violate(r.0, &format!("{what}: element id {id:#x} is not alive when it is read"));
    r.1
}

pub trait Elem:
    Clone
    + Default
    + PartialEq
    + Debug
    + Display
    + Send
    + Sync
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Rem<Output = Self>
    + Neg<Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
    + 'static
{
    const NAME: &'static str;
    /// Drops are observed.
    const TRACKED: bool;
    /// Elements have an identity.
    const IDS: bool;
    /// A new element, made by the harness (never a fault point).
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    fn id(&self) -> u32 {
        0
    }
    /// The value an element made from `v` reports.
    fn norm(v: u64) -> u64;
    fn set(&mut self, v: u64);
}

// The arithmetic of values. Addition is the group operation (0 is the default);
// the others are not commutative.
pub fn v_add(a: u64, b: u64) -> u64 {
    a.wrapping_add(b)
}
pub fn v_sub(a: u64, b: u64) -> u64 {
    a.wrapping_sub(b)
}
pub fn v_mul(a: u64, b: u64) -> u64 {
    mix(a.wrapping_add(0x1111), b)
}
pub fn v_div(a: u64, b: u64) -> u64 {
    mix(a.wrapping_add(0x2222), b)
}
pub fn v_rem(a: u64, b: u64) -> u64 {
    mix(a.wrapping_add(0x3333), b)
}
pub fn v_neg(a: u64) -> u64 {
    a.wrapping_neg()
}

macro_rules! ops {
    ($t:ty) => {
        ops!(@bin $t, Add, add, AddAssign, add_assign, v_add, "cb_add");
        ops!(@bin $t, Sub, sub, SubAssign, sub_assign, v_sub, "cb_sub");
        ops!(@bin $t, Mul, mul, MulAssign, mul_assign, v_mul, "cb_mul");
        ops!(@bin $t, Div, div, DivAssign, div_assign, v_div, "cb_div");
        ops!(@bin $t, Rem, rem, RemAssign, rem_assign, v_rem, "cb_rem");
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                cb("cb_neg");
                <$t>::make(v_neg(self.val()))
            }
        }
        impl Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                cb("cb_display");
                write!(f, "{}", self.val() % 100_000)
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                cb("cb_debug");
                write!(f, "#{}", self.val() % 100_000)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                cb("cb_eq");
                self.val() == o.val()
            }
        }
        impl Default for $t {
            fn default() -> $t {
                cb("cb_default");
                <$t>::make(0)
            }
        }
        impl Clone for $t {
            fn clone(&self) -> $t {
                cb("cb_clone");
                led().clones += 1;
                <$t>::make(self.val())
            }
        }
    };
    (@bin $t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident, $v:ident, $cb:literal) => {
        impl $tr for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                cb($cb);
                <$t>::make($v(self.val(), o.val()))
            }
        }
        impl $tra for $t {
            fn $fa(&mut self, o: $t) {
                cb($cb);
                let v = $v(self.val(), o.val());
                self.set(v);
            }
        }
    };
}

const CANARY: u64 = 0x600D_CAFE_F00D_BEEF;

/// 24 bytes, drop glue, canary.
#[repr(C)]
pub struct T24 {
    canary: u64,
    val: u64,
    id: u32,
    nid: u32,
}
impl T24 {
    fn check(&self, what: &str) -> bool {
        if self.canary != CANARY || self.nid != !self.id {
            let _p = simrt::heap::Pause::new();
            violate(
                "garbage-read",
                &format!("T24 {what}: canary {:#x}, id {:#x}", self.canary, self.id),
            );
            return false;
        }
        true
    }
}
impl Elem for T24 {
    const NAME: &'static str = "T24";
    const TRACKED: bool = true;
    const IDS: bool = true;
    fn make(v: u64) -> Self {
        let id = birth(v);
        T24 { canary: CANARY, val: v, id, nid: !id }
    }
    fn val(&self) -> u64 {
        if self.check("read") {
            lookup(self.id, "T24");
            self.val
        } else {
            0
        }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn norm(v: u64) -> u64 {
        v
    }
    fn set(&mut self, v: u64) {
        self.val();
        self.val = v;
    }
}
impl Drop for T24 {
    fn drop(&mut self) {
        if self.check("drop") {
            death(self.id, "T24");
        }
        cb("cb_drop");
    }
}
ops!(T24);

/// 128 bytes on a 64-byte boundary, drop glue; every word is checked.
#[repr(C, align(64))]
pub struct T128 {
    canary: u64,
    val: u64,
    id: u32,
    nid: u32,
    tail: [u64; 13],
}
impl T128 {
    fn check(&self, what: &str) -> bool {
        let tag = mix(CANARY, self.id as u64);
        let aligned = (self as *const Self as usize) % 64 == 0;
        if self.canary != CANARY || self.nid != !self.id || !aligned || self.tail.iter().any(|w| *w != tag) {
            let _p = simrt::heap::Pause::new();
            violate("garbage-read", &format!("T128 {what}: canary {:#x}, id {:#x}, aligned: {aligned}", self.canary, self.id));
            return false;
        }
        true
    }
}
impl Elem for T128 {
    const NAME: &'static str = "T128";
    const TRACKED: bool = true;
    const IDS: bool = true;
    fn make(v: u64) -> Self {
        let id = birth(v);
        T128 { canary: CANARY, val: v, id, nid: !id, tail: [mix(CANARY, id as u64); 13] }
    }
    fn val(&self) -> u64 {
        if self.check("read") {
            lookup(self.id, "T128");
            self.val
        } else {
            0
        }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn norm(v: u64) -> u64 {
        v
    }
    fn set(&mut self, v: u64) {
        self.val();
        self.val = v;
    }
}
impl Drop for T128 {
    fn drop(&mut self) {
        if self.check("drop") {
            death(self.id, "T128");
        }
        cb("cb_drop");
    }
}
ops!(T128);

/// 4 bytes, drop glue; the value lives in the ledger.
pub struct T4 {
    id: u32,
}
impl Elem for T4 {
    const NAME: &'static str = "T4";
    const TRACKED: bool = true;
    const IDS: bool = true;
    fn make(v: u64) -> Self {
        T4 { id: birth(v) }
    }
    fn val(&self) -> u64 {
        lookup(self.id, "T4")
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn norm(v: u64) -> u64 {
        v
    }
    fn set(&mut self, v: u64) {
        lookup(self.id, "T4");
        if let Some(e) = led().e.get_mut((self.id as usize).wrapping_sub(1)) {
            e.val = v;
        }
    }
}
impl Drop for T4 {
    fn drop(&mut self) {
        death(self.id, "T4");
        cb("cb_drop");
    }
}
ops!(T4);

/// Owns heap memory.
pub struct TBox(Box<(u64, u32)>);
impl Elem for TBox {
    const NAME: &'static str = "TBox";
    const TRACKED: bool = true;
    const IDS: bool = true;
    fn make(v: u64) -> Self {
        TBox(Box::new((v, birth(v))))
    }
    fn val(&self) -> u64 {
        lookup(self.0.1, "TBox");
        self.0.0
    }
    fn id(&self) -> u32 {
        self.0.1
    }
    fn norm(v: u64) -> u64 {
        v
    }
    fn set(&mut self, v: u64) {
        self.val();
        self.0.0 = v;
    }
}
impl Drop for TBox {
    fn drop(&mut self) {
        death(self.0.1, "TBox");
        cb("cb_drop");
    }
}
ops!(TBox);

/// 8 bytes, no drop glue.
pub struct P8(u64);
impl Elem for P8 {
    const NAME: &'static str = "P8";
    const TRACKED: bool = false;
    const IDS: bool = false;
    fn make(v: u64) -> Self {
        P8(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn norm(v: u64) -> u64 {
        v
    }
    fn set(&mut self, v: u64) {
        self.0 = v;
    }
}
ops!(P8);

/// 1 byte, no drop glue.
pub struct B1(u8);
impl Elem for B1 {
    const NAME: &'static str = "B1";
    const TRACKED: bool = false;
    const IDS: bool = false;
    fn make(v: u64) -> Self {
        B1(v as u8)
    }
    fn val(&self) -> u64 {
        self.0 as u64
    }
    fn norm(v: u64) -> u64 {
        v & 0xff
    }
    fn set(&mut self, v: u64) {
        self.0 = v as u8;
    }
}
ops!(B1);

/// Zero-sized, drop glue, counted.
pub struct Z;
impl Elem for Z {
    const NAME: &'static str = "Z";
    const TRACKED: bool = true;
    const IDS: bool = false;
    fn make(_: u64) -> Self {
        led().z_born += 1;
        Z
    }
    fn val(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl Drop for Z {
    fn drop(&mut self) {
        let bad = {
            let mut l = led();
            if l.z_died == l.z_born {
                true
            } else {
                l.z_died += 1;
                false
            }
        };
        if bad {
            violate("dropped-twice", "Z: more zero-sized elements dropped than created");
        }
        cb("cb_drop");
    }
}
ops!(Z);

pub fn hash_name(s: &str) -> u64 {
    hash_str(s)
}
