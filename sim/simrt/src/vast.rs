//! Runs that meet matrices vastly larger than anything that can be visited.
//!
//! On those, an implementation that is correct but visits every position of a
//! matrix without elements never ends, which no property forbids. Such a run
//! is given a few seconds of processor time and then abandoned (exit status
//! 97); the driver starts over with `SIM_MODEST` set, where the extents that
//! are not needed are cut down.

use std::sync::OnceLock;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const ABANDONED: i32 = 97;
const SECONDS: i64 = 3;
const LARGE: usize = 1 << 20;
static ARMED: AtomicBool = AtomicBool::new(false);

#[cfg(not(miri))]
mod timer {
    #[repr(C)]
    struct Spec {
        interval: [i64; 2],
        value: [i64; 2],
    }
    unsafe extern "C" {
        fn setitimer(which: i32, new: *const Spec, old: *mut Spec) -> i32;
        fn signal(signum: i32, handler: usize) -> usize;
        fn _exit(status: i32) -> !;
    }
    const ITIMER_VIRTUAL: i32 = 1;
    const SIGVTALRM: i32 = 26;

    extern "C" fn expired(_: i32) {
        unsafe { _exit(super::ABANDONED) }
    }

    pub fn set(seconds: i64) {
        unsafe {
            signal(SIGVTALRM, expired as *const () as usize);
            setitimer(ITIMER_VIRTUAL, &Spec { interval: [0; 2], value: [seconds, 0] }, std::ptr::null_mut());
        }
    }
}

#[cfg(miri)]
mod timer {
    pub fn set(_: i64) {}
}

/// This run may be abandoned.
pub fn vast_run() {
    if !ARMED.swap(true, Relaxed) {
        timer::set(SECONDS);
    }
}

pub(crate) fn run_over() {
    if ARMED.swap(false, Relaxed) {
        timer::set(0);
    }
}

fn modest() -> bool {
    static MODEST: OnceLock<bool> = OnceLock::new();
    *MODEST.get_or_init(|| std::env::var_os("SIM_MODEST").is_some())
}

/// An extent whose size is not the point.
pub fn tame(n: usize) -> usize {
    if n <= LARGE {
        return n;
    }
    vast_run();
    if modest() { 1 + n % 1021 } else { n }
}

/// `shape`, tamed if it has no elements.
pub fn tame_empty((r, c): (usize, usize)) -> (usize, usize) {
    if r == 0 || c == 0 {
        (tame(r), tame(c))
    } else {
        if r.max(c) > LARGE {
            vast_run();
        }
        (r, c)
    }
}
