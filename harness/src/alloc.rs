//! Allocators observing the code under test.
//!
//! `Counting` counts allocations per thread. `Guard` additionally surrounds
//! every block with canaries, remembers its layout, poisons fresh and freed
//! memory, delays the release of freed blocks (checking that nobody writes to
//! them meanwhile) and keeps a live count of the blocks obtained while the
//! tracking flag of the thread is on.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// 0 = not tracking, otherwise slot + 1
    static TRACK: Cell<usize> = const { Cell::new(0) };
}

/// Allocations (alloc + realloc) made by this thread so far.
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
fn bump() {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump();
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------ guard

pub const SLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicI64 = AtomicI64::new(0);
static LIVE: [AtomicI64; SLOTS] = [ZERO; SLOTS];
static ACTIVE: AtomicBool = AtomicBool::new(false);
/// errors per slot; the last entry collects those of unknown origin
static ERRORS: [AtomicU64; SLOTS + 1] = [const { AtomicU64::new(0) }; SLOTS + 1];
static ERR_SIZE: [AtomicUsize; SLOTS + 1] = [const { AtomicUsize::new(0) }; SLOTS + 1];
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);

pub const E_LAYOUT: u64 = 1;
pub const E_FRONT: u64 = 2;
pub const E_BACK: u64 = 4;
pub const E_DOUBLE: u64 = 8;
pub const E_BADPTR: u64 = 16;
pub const E_UAF: u64 = 32;

pub fn guard_active() -> bool {
    ACTIVE.load(Relaxed)
}
/// Errors with blocks of the slot (or of unknown origin) since the last call.
pub fn take_errors(slot: usize) -> Option<String> {
    let k = if ERRORS[slot].load(SeqCst) != 0 { slot } else { SLOTS };
    let e = ERRORS[k].swap(0, SeqCst);
    if e == 0 {
        return None;
    }
    let mut v = vec![];
    for (b, n) in [
        (E_LAYOUT, "block released with a layout it was not obtained with"),
        (E_FRONT, "write before the start of a block"),
        (E_BACK, "write past the end of a block"),
        (E_DOUBLE, "block released twice"),
        (E_BADPTR, "release of a pointer that is not a live block"),
        (E_UAF, "write to a released block"),
    ] {
        if e & b != 0 {
            v.push(n);
        }
    }
    Some(format!("{} (block of {} bytes)", v.join("; "), ERR_SIZE[k].load(Relaxed)))
}
pub fn live(slot: usize) -> i64 {
    LIVE[slot].load(SeqCst)
}
pub fn reset_live(slot: usize) {
    LIVE[slot].store(0, SeqCst)
}
/// Turn tracking on for `slot` (or off with `None`); returns the previous.
pub fn track(slot: Option<usize>) -> usize {
    TRACK.with(|t| t.replace(slot.map(|s| s + 1).unwrap_or(0)))
}
pub fn track_raw(v: usize) {
    TRACK.with(|t| t.set(v));
}

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    slot: usize,
    front: [u64; 4],
}
const LIVE_MAGIC: u64 = 0x5AFE_B10C_5AFE_B10C;
const DEAD_MAGIC: u64 = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u64 = 0xC0DE_CAFE_F00D_BABE;
const HEAD: usize = 64;
const TAIL: usize = 64;

const Q: usize = 256;
const QZERO: AtomicUsize = AtomicUsize::new(0);
/// quarantine of released blocks (base pointers of small blocks) per slot
static QUAR: [[AtomicUsize; Q]; SLOTS] = [const { [QZERO; Q] }; SLOTS];
static QPOS: [AtomicUsize; SLOTS] = [const { QZERO }; SLOTS];

/// Check and release everything in the slot's quarantine.
pub fn flush(slot: usize) {
    let n = QPOS[slot].swap(0, SeqCst).min(Q);
    for q in &QUAR[slot][..n] {
        let old = q.swap(0, SeqCst);
        if old != 0 {
            unsafe { Guard.release(old as *mut u8) };
        }
    }
}

pub struct Guard;

/// `owner`: slot + 1 of the block, 0 if unknown (then the running case).
fn err(bit: u64, size: usize, owner: usize) {
    let owner = if owner != 0 { owner } else { TRACK.try_with(|t| t.get()).unwrap_or(0) };
    let k = if (1..=SLOTS).contains(&owner) { owner - 1 } else { SLOTS };
    ERR_SIZE[k].store(size, Relaxed);
    ERRORS[k].fetch_or(bit, SeqCst);
}
fn pre(align: usize) -> usize {
    HEAD.max(align)
}
unsafe fn full(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(pre(align) + size + TAIL, align.max(16))
}

impl Guard {
    unsafe fn release(&self, base: *mut u8) {
        // base points to a dead block: check the poison, then free
        let h = &*(base as *const Head);
        let (size, align, owner) = (h.size, h.align, h.slot);
        let user = base.add(pre(align));
        for i in 0..size {
            if *user.add(i) != 0xDD {
                err(E_UAF, size, owner);
                break;
            }
        }
        System.dealloc(base, full(size, align));
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump();
        ACTIVE.store(true, Relaxed);
        let (size, align) = (l.size(), l.align());
        let align_off = pre(align);
        let base = System.alloc(full(size, align));
        if base.is_null() {
            return base;
        }
        let slot = TRACK.try_with(|t| t.get()).unwrap_or(0);
        // when align > HEAD the header sits at the base
        let h = base as *mut Head;
        *h = Head {
            magic: LIVE_MAGIC,
            size,
            align,
            slot,
            front: [CANARY; 4],
        };
        let user = base.add(align_off);
        for i in HEAD..align_off {
            *base.add(i) = 0xC5;
        }
        std::ptr::write_bytes(user, 0xA5, size);
        std::ptr::write_bytes(user.add(size), 0xC3, TAIL);
        if slot != 0 {
            BLOCKS.fetch_add(1, Relaxed);
            LIVE[slot - 1].fetch_add(1, SeqCst);
        }
        user
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let align_off = pre(l.align());
        let base = p.sub(align_off);
        let h = &mut *(base as *mut Head);
        if h.magic == DEAD_MAGIC {
            err(E_DOUBLE, l.size(), h.slot);
            return;
        }
        if h.magic != LIVE_MAGIC {
            err(E_BADPTR, l.size(), 0);
            return;
        }
        if h.front != [CANARY; 4] {
            err(E_FRONT, h.size, h.slot);
        }
        if h.size != l.size() || h.align != l.align() {
            err(E_LAYOUT, h.size, h.slot);
        }
        let size = h.size;
        for i in 0..TAIL {
            if *p.add(size + i) != 0xC3 {
                err(E_BACK, size, h.slot);
                break;
            }
        }
        if h.slot != 0 {
            LIVE[h.slot - 1].fetch_sub(1, SeqCst);
        }
        h.magic = DEAD_MAGIC;
        std::ptr::write_bytes(p, 0xDD, size);
        if size <= 4096 && h.slot != 0 {
            let k = h.slot - 1;
            let i = QPOS[k].fetch_add(1, Relaxed) % Q;
            let old = QUAR[k][i].swap(base as usize, SeqCst);
            if old != 0 {
                self.release(old as *mut u8);
            }
        } else {
            self.release(base);
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
