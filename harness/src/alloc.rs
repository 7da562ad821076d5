//! Shadow allocator. Every block carries a header; blocks allocated while
//! tracking is on are checked on release (layout, double release) and then
//! quarantined (poisoned, kept mapped) until the history ends, so that
//! a stale handle reads garbage instead of a neighbour's data, a second release
//! is recognised, and the liveness of the block at an address stays
//! decidable. Off under Miri and ASan, which watch memory themselves.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, AtomicPtr, AtomicU64, Ordering::*};

pub const SHADOW: bool = !cfg!(miri) && !cfg!(rcsv_noshadow);

const LIVE: u64 = 0x11ab_5afe_b10c_0001;
const FREED: u64 = 0xdead_5afe_b10c_0002;
const HDR: usize = 64;
const POISON: u8 = 0xDD;

#[repr(C)]
struct Header {
    magic: AtomicU64,
    size: usize,
    align: usize,
    base: *mut u8,
    next: *mut Header,
    tracked: bool,
}

pub struct Shadow;

thread_local! { static TRACK: Cell<bool> = const { Cell::new(false) }; }
static LIVE_TRACKED: AtomicIsize = AtomicIsize::new(0);
static TOTAL_TRACKED: AtomicU64 = AtomicU64::new(0);
static QUAR: AtomicPtr<Header> = AtomicPtr::new(std::ptr::null_mut());
static QUAR_BYTES: AtomicU64 = AtomicU64::new(0);
static ERRS: AtomicU64 = AtomicU64::new(0);

pub const E_DOUBLE_FREE: u64 = 1;
pub const E_BAD_LAYOUT: u64 = 2;
pub const E_BAD_PTR: u64 = 4;
pub const E_POISON: u64 = 8;

fn base_layout(size: usize, align: usize) -> (Layout, usize) {
    let off = if align > HDR { align } else { HDR };
    let al = if align > HDR { align } else { HDR };
    (Layout::from_size_align(size + off, al).unwrap(), off)
}

unsafe impl GlobalAlloc for Shadow {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let on = crate::inject::suspend();
        let busy = crate::sim::suspend();
        let p = alloc(l, busy || !crate::sim::IS);
        crate::sim::resume(busy);
        crate::inject::resume(on);
        p
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let on = crate::inject::suspend();
        let busy = crate::sim::suspend();
        dealloc(user, l);
        crate::sim::resume(busy);
        crate::inject::resume(on);
    }
}

unsafe fn alloc(l: Layout, outside: bool) -> *mut u8 {
    let Some(total) = l.size().checked_add(HDR.max(l.align())) else { return std::ptr::null_mut() };
    if total > isize::MAX as usize / 2 { return std::ptr::null_mut(); }
    let (bl, off) = base_layout(l.size(), l.align());
    let tracked = outside && TRACK.try_with(|t| t.get()).unwrap_or(false);
    let base = match if tracked { crate::sim::take(bl.size(), bl.align()) } else { None } {
        Some(a) => a as *mut u8,
        None => System.alloc(bl),
    };
    if base.is_null() { return base; }
    let user = base.add(off);
    let h = user.sub(HDR) as *mut Header;
    h.write(Header { magic: AtomicU64::new(LIVE), size: l.size(), align: l.align(), base, next: std::ptr::null_mut(), tracked });
    if tracked {
        // Uninitialised memory must not look like valid items
        std::ptr::write_bytes(user, 0xA5, l.size());
        crate::sim::allocated(user as usize, l.size());
        LIVE_TRACKED.fetch_add(1, Relaxed);
        TOTAL_TRACKED.fetch_add(1, Relaxed);
    }
    user
}

unsafe fn dealloc(user: *mut u8, l: Layout) {
    let h = user.sub(HDR) as *mut Header;
    match (*h).magic.compare_exchange(LIVE, FREED, AcqRel, Acquire) {
        Ok(_) => {}
        Err(FREED) => { ERRS.fetch_or(E_DOUBLE_FREE, Relaxed); return; }
        Err(_) => { ERRS.fetch_or(E_BAD_PTR, Relaxed); return; }
    }
    if (*h).size != l.size() || (*h).align != l.align() {
        ERRS.fetch_or(E_BAD_LAYOUT, Relaxed);
    }
    if (*h).tracked {
        LIVE_TRACKED.fetch_sub(1, Relaxed);
        crate::sim::released(user as usize, (*h).size);
        std::ptr::write_bytes(user, POISON, (*h).size);
        QUAR_BYTES.fetch_add((*h).size as u64, Relaxed);
        let mut head = QUAR.load(Relaxed);
        loop {
            (*h).next = head;
            match QUAR.compare_exchange_weak(head, h, AcqRel, Relaxed) {
                Ok(_) => break,
                Err(cur) => head = cur,
            }
        }
    } else {
        free(h);
    }
}

unsafe fn free(h: *mut Header) {
    let (bl, _) = base_layout((*h).size, (*h).align);
    let base = (*h).base;
    if crate::sim::inside(base as usize) { crate::sim::forget(h as usize + HDR, (*h).size); return; }
    System.dealloc(base, bl);
}

/// Run `f` with tracking of the current thread's allocations set to `on`.
pub fn tracking<R>(on: bool, f: impl FnOnce() -> R) -> R {
    if !SHADOW { return f(); }
    struct Restore(bool);
    impl Drop for Restore { fn drop(&mut self) { TRACK.with(|t| t.set(self.0)); } }
    let _r = Restore(TRACK.with(|t| t.replace(on)));
    f()
}

/// For threads that take turns on one: set whether allocations are tracked.
pub fn swap_track(on: bool) -> bool { TRACK.with(|t| t.replace(on)) }

/// Is the block starting at this address allocated? Only for addresses known to
/// have been the start of a tracked block in the current history.
pub fn is_live(addr: usize) -> bool {
    unsafe { (*((addr - HDR) as *const Header)).magic.load(Acquire) == LIVE }
}

pub fn live_tracked() -> isize { LIVE_TRACKED.load(SeqCst) }
pub fn total_tracked() -> u64 { TOTAL_TRACKED.load(Relaxed) }
pub fn reset_live() { LIVE_TRACKED.store(0, SeqCst); }
pub fn take_errs() -> u64 { ERRS.swap(0, SeqCst) }

pub fn err_text(e: u64) -> String {
    let mut v = vec![];
    if e & E_DOUBLE_FREE != 0 { v.push("a block was released twice"); }
    if e & E_BAD_LAYOUT != 0 { v.push("a block was released with a layout other than the one it was allocated with"); }
    if e & E_BAD_PTR != 0 { v.push("a pointer that is not the start of a block was released"); }
    if e & E_POISON != 0 { v.push("memory was written after it was released"); }
    v.join("; ")
}

/// Empty the quarantine, verifying that released blocks weren't written to since.
/// Only call this when no other thread is releasing memory.
pub fn flush() {
    if !SHADOW { return; }
    unsafe {
        let mut h = QUAR.swap(std::ptr::null_mut(), AcqRel);
        QUAR_BYTES.store(0, Relaxed);
        while !h.is_null() {
            let next = (*h).next;
            let user = (h as *mut u8).add(HDR);
            let s = std::slice::from_raw_parts(user, (*h).size);
            if s.iter().any(|&b| b != POISON) { ERRS.fetch_or(E_POISON, Relaxed); }
            free(h);
            h = next;
        }
    }
    if LIVE_TRACKED.load(Relaxed) == 0 { crate::sim::reset(); }
}
