//! The simulated heap: red zones around every block, poison on allocation and
//! on free, a quarantine so that freed blocks stay poisoned for a while, and a
//! request limit beyond which an allocation is refused.
//!
//! It is installed by the simulation binaries with `#[global_allocator]`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct SimHeap;

/// Payload of the unwind out of a refused allocation.
pub struct Refused(pub usize);

const RZ: usize = 32;
const MAGIC: u64 = 0x51AB_1E5A_FE0D_D0CA;
const POISON_NEW: u8 = 0xA5;
const POISON_OLD: u8 = 0xDB;
const POISON_RZ: u8 = 0xFD;
const QUARANTINE: usize = 512;
const QUARANTINE_MAX_BLOCK: usize = 1 << 16;

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static MAX_REQ: AtomicUsize = AtomicUsize::new(0);
static REFUSED: AtomicUsize = AtomicUsize::new(0);
static REFUSED_BYTES: AtomicUsize = AtomicUsize::new(0);
static CORRUPT: AtomicUsize = AtomicUsize::new(0);
static IN_RUN: AtomicBool = AtomicBool::new(false);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);

struct Slot {
    ptr: AtomicUsize,
    size: AtomicUsize,
    align: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot =
    Slot { ptr: AtomicUsize::new(0), size: AtomicUsize::new(0), align: AtomicUsize::new(0) };
static RING: [Slot; QUARANTINE] = [EMPTY; QUARANTINE];
static RING_POS: AtomicUsize = AtomicUsize::new(0);
static RING_LOCK: AtomicBool = AtomicBool::new(false);

thread_local! {
    static PAUSED: Cell<u32> = const { Cell::new(0) };
}

/// While alive, allocations of this thread are the harness's own: neither
/// counted nor limited.
pub struct Pause(());
impl Pause {
    pub fn new() -> Self {
        let _ = PAUSED.try_with(|p| p.set(p.get() + 1));
        Pause(())
    }
}
impl Default for Pause {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        let _ = PAUSED.try_with(|p| p.set(p.get() - 1));
    }
}

fn paused() -> bool {
    PAUSED.try_with(|p| p.get() > 0).unwrap_or(true)
}

pub fn begin_run() {
    CORRUPT.store(0, Relaxed);
    LIMIT.store(usize::MAX, Relaxed);
    IN_RUN.store(true, Relaxed);
}

pub fn end_run() {
    IN_RUN.store(false, Relaxed);
    LIMIT.store(usize::MAX, Relaxed);
}

pub fn corruption() -> Option<String> {
    match CORRUPT.load(Relaxed) {
        0 => None,
        1 => Some("a red zone before a heap block was overwritten".into()),
        2 => Some("a red zone after a heap block was overwritten".into()),
        3 => Some("a block was freed twice or never allocated".into()),
        4 => Some("a freed block was written to".into()),
        _ => Some("a block was freed with the wrong size".into()),
    }
}

/// Opens an observation window: requests above `limit` bytes are refused.
pub fn open_window(limit: usize) {
    MAX_REQ.store(0, Relaxed);
    REFUSED.store(0, Relaxed);
    REFUSED_BYTES.store(0, Relaxed);
    ALLOCS.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
}

#[derive(Clone, Copy, Debug)]
pub struct Window {
    pub max_request: usize,
    pub refused: usize,
    pub refused_bytes: usize,
    pub allocations: usize,
}

pub fn close_window() -> Window {
    LIMIT.store(usize::MAX, Relaxed);
    Window {
        max_request: MAX_REQ.load(Relaxed),
        refused: REFUSED.load(Relaxed),
        refused_bytes: REFUSED_BYTES.load(Relaxed),
        allocations: ALLOCS.load(Relaxed),
    }
}

fn front(align: usize) -> usize {
    let a = align.max(16);
    RZ.div_ceil(a) * a
}

unsafe fn release(ptr: usize, size: usize, align: usize) {
    let f = front(align);
    unsafe {
        // written to after it was freed?
        let p = ptr as *const u8;
        let n = size.min(256);
        let mut i = 0;
        while i < n {
            if *p.add(i) != POISON_OLD {
                CORRUPT.store(4, Relaxed);
                break;
            }
            i += 1;
        }
        System.dealloc(
            (ptr - f) as *mut u8,
            Layout::from_size_align_unchecked(f + size + RZ, align.max(16)),
        );
    }
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let size = layout.size();
        if !paused() {
            MAX_REQ.fetch_max(size, Relaxed);
            ALLOCS.fetch_add(1, Relaxed);
            if size > LIMIT.load(Relaxed) {
                REFUSED.fetch_add(1, Relaxed);
                REFUSED_BYTES.fetch_max(size, Relaxed);
                return std::ptr::null_mut();
            }
        }
        let f = front(layout.align());
        let Some(total) = size.checked_add(f + RZ) else {
            return std::ptr::null_mut();
        };
        let Ok(l) = Layout::from_size_align(total, layout.align().max(16)) else {
            return std::ptr::null_mut();
        };
        unsafe {
            let p = System.alloc(l);
            if p.is_null() {
                return p;
            }
            let u = p.add(f);
            std::ptr::write_bytes(p, POISON_RZ, f);
            (u.sub(16) as *mut u64).write(MAGIC);
            (u.sub(8) as *mut u64).write(size as u64);
            std::ptr::write_bytes(u, POISON_NEW, size);
            std::ptr::write_bytes(u.add(size), POISON_RZ, RZ);
            u
        }
    }

    unsafe fn dealloc(&self, u: *mut u8, layout: Layout) {
        let f = front(layout.align());
        let size = layout.size();
        unsafe {
            if (u.sub(16) as *const u64).read() != MAGIC {
                CORRUPT.store(3, Relaxed);
                return; // leak: nothing about this block can be trusted
            }
            if (u.sub(8) as *const u64).read() != size as u64 {
                CORRUPT.store(5, Relaxed);
                return;
            }
            let mut i = f - RZ.min(f);
            while i < f - 16 {
                if *u.sub(f).add(i) != POISON_RZ {
                    CORRUPT.store(1, Relaxed);
                }
                i += 1;
            }
            for i in 0..RZ {
                if *u.add(size + i) != POISON_RZ {
                    CORRUPT.store(2, Relaxed);
                }
            }
            (u.sub(16) as *mut u64).write(!MAGIC);
            std::ptr::write_bytes(u, POISON_OLD, size);
            if size > QUARANTINE_MAX_BLOCK || !IN_RUN.load(Relaxed) {
                release(u as usize, size, layout.align());
                return;
            }
            while RING_LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
                std::hint::spin_loop();
            }
            let pos = RING_POS.load(Relaxed);
            RING_POS.store((pos + 1) % QUARANTINE, Relaxed);
            let s = &RING[pos];
            let old = (s.ptr.load(Relaxed), s.size.load(Relaxed), s.align.load(Relaxed));
            s.ptr.store(u as usize, Relaxed);
            s.size.store(size, Relaxed);
            s.align.store(layout.align(), Relaxed);
            RING_LOCK.store(false, std::sync::atomic::Ordering::Release);
            if old.0 != 0 {
                release(old.0, old.1, old.2);
            }
        }
    }
}
