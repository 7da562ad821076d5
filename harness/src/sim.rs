//! Own runtime for the thread sanitizer's instrumentation. The compiler calls the
//! `__tsan_*` functions for every access to memory and every atomic operation of
//! the library (and of the harness); here they drive a simulation in which the
//! threads of a program take turns on one processor thread:
//!
//! - before each atomic operation the turn may pass to another thread;
//! - vector clocks, fed by the memory orders the library asks for, decide for
//!   each access whether it races with an earlier one;
//! - an atomic load may return an older value wherever the C++ memory model
//!   allows that (given that stores take effect in the order executed);
//! - every byte the library allocates has a state, so that accesses outside
//!   blocks or after their release are seen.
//!
//! Everything the simulation decides follows from its seed.

#[cfg(rcsv_sim)]
mod imp {
    use crate::tags::*;
    use core::arch::asm;

    pub const N: usize = 3;
    const ALL: u8 = 255; // happened before the threads started
    type Vc = [u16; N];
    const LIMIT: u32 = 40_000;
    pub const ARENA: usize = 1 << 18;
    const STACK: usize = 1 << 19;

    #[derive(Clone, Copy)]
    struct Sh { st: u8, wt: u8, we: u16, r: Vc, aw: Vc, ar: Vc, loc: u16 }
    const FRESH: Sh = Sh { st: 0, wt: 0, we: 0, r: [0; N], aw: [0; N], ar: [0; N], loc: 0 };
    pub const DEAD: u8 = 0;
    pub const LIVE_BYTE: u8 = 1;
    pub const FREED: u8 = 2;

    #[derive(Clone, Copy)]
    struct Store { val: u64, tid: u8, epoch: u16, rel: Vc }
    struct Loc { addr: usize, size: u8, first: u32, stores: Vec<Store>, reads: Vec<(u8, u16, u32)> }
    #[derive(Clone, Copy)]
    struct Th { vc: Vc, relf: Vc, acqp: Vc, sp: usize, done: bool, track: bool, inlib: bool, op: &'static str }

    pub struct Sim {
        th: [Th; N],
        n: usize,
        cur: usize,
        main_sp: usize,
        locs: Vec<Loc>,
        clock: Vc,
        fence: bool,
        quiet: bool,
        raced: bool,
        pub weak: bool,
        pub sync: bool,
        pub points: u32,
        since: u32,
        changes: Vec<u32>,
        p: u32,
        rng: u64,
        pub sig: u64,
        body: Option<*const dyn Fn(usize)>,
        stacks: Vec<usize>,
        arena: usize,
        used: usize,
        shadow: *mut Sh,
        pub total_points: u64,
        pub switches: u64,
        pub stale: u64,
        pub accesses: u64,
        pub atomics: u64,
    }

    static mut SIM: *mut Sim = core::ptr::null_mut();
    /// A simulated thread runs on this (the main) thread
    #[thread_local]
    static mut ON: bool = false;
    /// The runtime itself runs
    #[thread_local]
    static mut BUSY: bool = false;

    core::arch::global_asm!(
        ".globl rcsv_swap", "rcsv_swap:",
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp", "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp", "ret");
    extern "C" { fn rcsv_swap(save: *mut usize, to: usize); }

    fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }
    #[inline(always)]
    fn live() -> bool { unsafe { ON && !BUSY } }

    fn join(a: &mut Vc, b: &Vc) { let mut i = 0; while i < N { if b[i] > a[i] { a[i] = b[i]; } i += 1; } }

    impl Sim {
        fn rnd(&mut self, n: u32) -> u32 {
            let mut x = self.rng;
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            self.rng = x;
            ((x >> 32) as u32) % n.max(1)
        }

        fn fail(&mut self, kind: &'static str, t: Tags, msg: String) -> ! {
            unsafe { ON = false; BUSY = true; }
            crate::conc::sim_fail(kind, t, format!("{} (thread {} in {})", msg, self.cur, self.th[self.cur].op));
        }

        fn race(&mut self, addr: usize, what: &str, u: usize, before: &str) {
            if self.quiet { self.raced = true; return; }
            let m = format!("data race: {} at offset {} of the library's memory, unordered with {} by thread {} (in or before {})", what, addr - self.arena, before, u, self.th[u].op);
            self.fail("RACE", c(14) | c(2) | crate::conc::happened(), m);
        }

        /// A plain or atomic access of the current thread
        fn access(&mut self, addr: usize, size: usize, write: bool, atomic: bool) {
            let off = addr.wrapping_sub(self.arena);
            if off >= ARENA { return; }
            self.accesses += 1;
            let me = self.cur;
            let vc = self.th[me].vc;
            let ep = vc[me];
            let mut o = off;
            let end = if off + size < ARENA { off + size } else { ARENA };
            while o < end {
                let s = unsafe { *self.shadow.add(o) };
                if s.st != LIVE_BYTE {
                    let m = format!("{} {} at offset {} of the library's memory", if write { "write" } else { "read" }, if s.st == FREED { "after release" } else { "outside any block" }, o);
                    self.fail("MEM", c(14) | c(2) | c(3) | c(17) | crate::conc::happened(), m);
                }
                if s.we > vc[s.wt as usize] { self.race(addr, if write { "write" } else { "read" }, s.wt as usize, "a write"); }
                let mut u = 0;
                while u < N {
                    if u == me { u += 1; continue; }
                    if !atomic && s.aw[u] > vc[u] { self.race(addr, if write { "plain write" } else { "plain read" }, u, "an atomic write"); }
                    if write && s.r[u] > vc[u] { self.race(addr, "write", u, "a read"); }
                    if write && !atomic && s.ar[u] > vc[u] { self.race(addr, "plain write", u, "an atomic read"); }
                    u += 1;
                }
                let s = unsafe { &mut *self.shadow.add(o) };
                o += 1;
                match (write, atomic) {
                    (true, false) => {
                        s.wt = me as u8;
                        s.we = ep;
                        s.r = [0; N];
                        s.aw = [0; N];
                        s.ar = [0; N];
                        let l = s.loc;
                        s.loc = 0;
                        if l != 0 { let l = &mut self.locs[l as usize - 1]; l.stores.clear(); l.reads.clear(); l.first = 0; l.addr = 0; }
                    }
                    (false, false) => s.r[me] = ep,
                    (true, true) => s.aw[me] = ep,
                    (false, true) => s.ar[me] = ep,
                }
            }
        }

        fn loc(&mut self, addr: usize, size: u8) -> usize {
            let off = addr.wrapping_sub(self.arena);
            let known = if off < ARENA { (unsafe { (*self.shadow.add(off)).loc }) as usize } else { self.locs.iter().position(|l| l.addr == addr).map_or(0, |i| i + 1) };
            if known != 0 && self.locs[known - 1].size == size && self.locs[known - 1].addr == addr { return known - 1; }
            self.locs.push(Loc { addr, size, first: 0, stores: vec![], reads: vec![] });
            let i = self.locs.len();
            if off < ARENA { let mut k = 0; while k < size as usize { unsafe { (*self.shadow.add(off + k)).loc = i as u16; } k += 1; } }
            i - 1
        }

        fn init(&mut self, l: usize, now: u64) {
            if self.locs[l].stores.is_empty() { self.locs[l].stores.push(Store { val: now, tid: ALL, epoch: 0, rel: [0; N] }); }
        }

        fn acquire(&mut self, mo: i32, rel: &Vc) {
            let t = &mut self.th[self.cur];
            if matches!(mo, 1 | 2 | 4 | 5) { join(&mut t.vc, rel); } else { join(&mut t.acqp, rel); }
        }

        /// Which store does a load return?
        fn load(&mut self, addr: usize, size: u8, mo: i32, now: u64) -> u64 {
            self.access(addr, size as usize, false, true);
            let l = self.loc(addr, size);
            self.init(l, now);
            let me = self.cur;
            let vc = self.th[me].vc;
            let n = self.locs[l].stores.len();
            let last = n - 1;
            let mut i = last;
            if self.weak && !self.fence && mo != 5 && n > 1 && self.rnd(2) == 0 {
                let lc = &self.locs[l];
                let mut lo = 0;
                for (k, s) in lc.stores.iter().enumerate() { if s.tid == ALL || s.epoch <= vc[s.tid as usize] { lo = k; } }
                for &(t, e, k) in &lc.reads { if t as usize == me || e <= vc[t as usize] { lo = lo.max((k as usize).saturating_sub(lc.first as usize)); } }
                i = lo + self.rnd((last - lo + 1) as u32) as usize;
                if i != last { self.stale += 1; }
            }
            let s = self.locs[l].stores[i];
            let first = self.locs[l].first;
            let lc = &mut self.locs[l];
            if lc.reads.len() > 24 { lc.reads.remove(0); if self.weak { self.fence = true; } }
            let e = vc[me];
            let idx = first + i as u32;
            match lc.reads.iter_mut().find(|r| r.0 as usize == me && r.1 == e) { Some(r) => r.2 = r.2.max(idx), None => lc.reads.push((me as u8, e, idx)) }
            self.acquire(mo, &s.rel);
            s.val
        }

        fn push(&mut self, l: usize, val: u64, rel: Vc) {
            let me = self.cur;
            let e = self.th[me].vc[me];
            let lc = &mut self.locs[l];
            if lc.stores.len() > 9 { lc.stores.remove(0); lc.first += 1; }
            lc.stores.push(Store { val, tid: me as u8, epoch: e, rel });
            self.th[me].vc[me] += 1;
        }

        fn store(&mut self, addr: usize, size: u8, mo: i32, now: u64, val: u64) {
            self.access(addr, size as usize, true, true);
            let l = self.loc(addr, size);
            self.init(l, now);
            let t = &self.th[self.cur];
            let rel = if mo >= 3 { t.vc } else { t.relf };
            self.push(l, val, rel);
        }

        /// A read-modify-write: always of the newest value
        fn rmw(&mut self, addr: usize, size: u8, mo: i32, now: u64, val: u64) {
            self.access(addr, size as usize, true, true);
            let l = self.loc(addr, size);
            self.init(l, now);
            let mut rel = self.locs[l].stores.last().unwrap().rel;
            self.acquire(mo, &rel);
            let t = &self.th[self.cur];
            let own = if mo >= 3 { t.vc } else { t.relf };
            join(&mut rel, &own);
            self.push(l, val, rel);
        }

        /// A compare-and-swap that failed
        fn cas_failed(&mut self, addr: usize, size: u8, mo: i32, now: u64) {
            self.access(addr, size as usize, false, true);
            let l = self.loc(addr, size);
            self.init(l, now);
            let lc = &mut self.locs[l];
            let (rel, idx) = (lc.stores.last().unwrap().rel, lc.first + lc.stores.len() as u32 - 1);
            let (me, e) = (self.cur, self.th[self.cur].vc[self.cur]);
            match lc.reads.iter_mut().find(|r| r.0 as usize == me && r.1 == e) { Some(r) => r.2 = r.2.max(idx), None => lc.reads.push((me as u8, e, idx)) }
            self.acquire(mo, &rel);
        }

        fn fence(&mut self, mo: i32) {
            let t = &mut self.th[self.cur];
            if matches!(mo, 1 | 2 | 4 | 5) { let a = t.acqp; join(&mut t.vc, &a); }
            if mo >= 3 { t.relf = t.vc; let me = self.cur; self.th[me].vc[me] += 1; }
            // Stale values after sequentially consistent fences aren't modelled
            if mo == 5 { self.fence = true; }
        }

        fn go(&mut self, to: usize) {
            let me = self.cur;
            self.th[me].track = crate::alloc::swap_track(self.th[to].track);
            self.cur = to;
            self.since = 0;
            self.switches += 1;
            self.sig = crate::rng::mix(self.sig ^ (self.points as u64) << 2 ^ to as u64);
            let save = &mut self.th[me].sp as *mut usize;
            let sp = self.th[to].sp;
            unsafe { rcsv_swap(save, sp); }
        }

        fn other(&mut self) -> Option<usize> {
            let mut o = [0; N];
            let mut k = 0;
            for t in 0..self.n { if t != self.cur && !self.th[t].done { o[k] = t; k += 1; } }
            if k == 0 { None } else { Some(o[self.rnd(k as u32) as usize]) }
        }

        /// The turn may pass to another thread here
        fn point(&mut self, eager: bool) {
            self.points += 1;
            self.since += 1;
            if self.points > LIMIT { self.fail("HANG", c(16) | c(14) | crate::conc::happened(), format!("no end after {} atomic operations, although every thread kept getting turns", LIMIT)); }
            let mut sw = self.since > 150 || (self.p > 0 && self.rnd(256) < self.p) || (eager && self.rnd(4) == 0);
            if let Some(&c) = self.changes.last() { if self.points >= c { self.changes.pop(); sw = true; } }
            if sw { if let Some(t) = self.other() { self.go(t); } else { self.since = 0; } }
        }
    }

    extern "C" fn start() {
        {
            let s = sim();
            let me = s.cur;
            let body = s.body.unwrap();
            crate::alloc::swap_track(false);
            unsafe { BUSY = false; (*body)(me); BUSY = true; }
        }
        let s = sim();
        let me = s.cur;
        s.th[me].done = true;
        match s.other() {
            Some(t) => s.go(t),
            None => { unsafe { let m = s.main_sp; rcsv_swap(&mut s.th[me].sp, m); } }
        }
        unreachable!()
    }

    pub const IS: bool = true;

    /// Once, before any program
    pub fn setup() {
        extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; }
        let map = |l: usize| unsafe { mmap(core::ptr::null_mut(), l, 3, 0x22, -1, 0) as usize };
        let th = Th { vc: [0; N], relf: [0; N], acqp: [0; N], sp: 0, done: true, track: false, inlib: false, op: "" };
        let stacks = (0..N).map(|_| map(STACK)).collect();
        let s = Sim { th: [th; N], n: 0, cur: 0, main_sp: 0, locs: vec![], clock: [0; N], fence: false, quiet: false, raced: false, weak: false, sync: false, points: 0, since: 0, changes: vec![], p: 0, rng: 1, sig: 0, body: None, stacks,
            arena: map(ARENA), used: 0, shadow: map(ARENA * core::mem::size_of::<Sh>()) as *mut Sh, total_points: 0, switches: 0, stale: 0, accesses: 0, atomics: 0 };
        unsafe { SIM = Box::into_raw(Box::new(s)); }
    }

    /// Memory for a tracked block, and its release
    pub fn take(size: usize, align: usize) -> Option<usize> {
        if unsafe { SIM.is_null() } { return None; }
        let s = sim();
        let at = (s.arena + s.used + align - 1) & !(align - 1);
        let end = at + size - s.arena;
        if end > ARENA { return None; }
        s.used = end;
        Some(at)
    }
    pub fn inside(addr: usize) -> bool { unsafe { !SIM.is_null() && addr.wrapping_sub(sim().arena) < ARENA } }
    pub fn reset() {
        if unsafe { SIM.is_null() } { return; }
        let s = sim();
        s.used = 0;
    }
    /// A released block won't be looked at any more
    pub fn forget(addr: usize, size: usize) {
        let s = sim();
        unsafe { memset(s.shadow.add(addr - s.arena) as *mut u8, 0, size * core::mem::size_of::<Sh>()); }
    }
    pub fn allocated(addr: usize, size: usize) {
        if !inside(addr) { return; }
        let s = sim();
        let o = addr - s.arena;
        // Only the allocating thread knows of the block: whoever else touches it must have been told
        let mut x = Sh { st: LIVE_BYTE, ..FRESH };
        if unsafe { ON } { x.wt = s.cur as u8; x.we = s.th[s.cur].vc[s.cur]; }
        let mut k = o;
        while k < o + size { unsafe { *s.shadow.add(k) = x; } k += 1; }
    }
    /// Releasing a block conflicts with every access to it
    pub fn released(addr: usize, size: usize) {
        if !inside(addr) { return; }
        let s = sim();
        let o = addr - s.arena;
        if unsafe { ON } { s.access(addr, size, true, false); }
        let mut k = o;
        while k < o + size { unsafe { (*s.shadow.add(k)).st = FREED; } k += 1; }
    }
    pub fn suspend() -> bool { unsafe { let b = BUSY; BUSY = true; !b } }
    pub fn resume(on: bool) { unsafe { if on { BUSY = false; } } }

    pub struct Plan { pub seed: u64, pub n: usize, pub first: usize, pub p: u32, pub changes: Vec<u32>, pub weak: bool, pub sync: bool }

    pub fn run(plan: Plan, body: &dyn Fn(usize)) {
        let s = sim();
        s.n = plan.n;
        s.rng = plan.seed | 1;
        s.p = plan.p;
        s.changes = plan.changes;
        s.changes.sort_unstable_by(|a, b| b.cmp(a));
        s.weak = plan.weak;
        s.sync = plan.sync;
        s.points = 0;
        s.since = 0;
        s.fence = false;
        s.sig = 0;
        s.clock = [0; N];
        s.locs.clear();
        for t in 0..N {
            let top = s.stacks[t] + STACK - 64;
            let sp = top - 8 * 8;
            unsafe { *((sp + 6 * 8) as *mut usize) = start as *const () as usize; }
            let mut vc = [0; N];
            vc[t] = 1;
            s.th[t] = Th { vc, relf: [0; N], acqp: [0; N], sp, done: t >= plan.n, track: false, inlib: false, op: "" };
        }
        s.body = Some(unsafe { core::mem::transmute::<&dyn Fn(usize), *const dyn Fn(usize)>(body) });
        s.cur = plan.first % plan.n;
        let track = crate::alloc::swap_track(false);
        let to = s.th[s.cur].sp;
        unsafe { ON = true; BUSY = true; rcsv_swap(&mut s.main_sp, to); ON = false; BUSY = false; }
        crate::alloc::swap_track(track);
        s.total_points += s.points as u64;
        s.body = None;
    }
    /// For testing the simulation itself: only note that a race was seen
    pub fn catch_races(on: bool) -> bool { let s = sim(); s.quiet = on; core::mem::take(&mut s.raced) }
    pub fn points() -> u32 { sim().points }
    pub fn current() -> usize { if live() { sim().cur } else { N } }
    pub fn sig() -> u64 { sim().sig }
    pub fn totals() -> (u64, u64, u64, u64, u64) { if unsafe { SIM.is_null() } { return (0, 0, 0, 0, 0); } let s = sim(); (s.total_points, s.switches, s.stale, s.accesses, s.atomics) }

    struct Busy;
    impl Busy { fn new() -> Busy { unsafe { BUSY = true; } Busy } }
    impl Drop for Busy { fn drop(&mut self) { unsafe { BUSY = false; } } }

    /// Let others run, outside the library
    pub fn pause() { if live() { let _b = Busy::new(); sim().point(false); } }
    pub fn op(name: &'static str) { if live() { let _b = Busy::new(); let s = sim(); s.th[s.cur].op = name; s.point(false); } }
    pub fn set_inlib(on: bool) -> bool { if live() { let _b = Busy::new(); let s = sim(); core::mem::replace(&mut s.th[s.cur].inlib, on) } else { false } }
    /// A stamp that orders the threads
    pub fn stamp() {
        if !live() { return; }
        let _b = Busy::new();
        let s = sim();
        if !s.sync { return; }
        let me = s.cur;
        let c = s.clock;
        join(&mut s.th[me].vc, &c);
        s.clock = s.th[me].vc;
        s.th[me].vc[me] += 1;
    }

    // ------------------------------------------------- what the compiler calls

    fn modelled(addr: usize) -> bool {
        let s = sim();
        addr.wrapping_sub(s.arena) < ARENA || s.th[s.cur].inlib
    }
    #[inline(never)]
    fn plain(addr: usize, size: usize, write: bool) {
        let _b = Busy::new();
        sim().access(addr, size, write, false);
    }
    #[inline(never)]
    fn before_atomic(addr: usize) -> bool {
        let _b = Busy::new();
        if !modelled(addr) { return false; }
        let s = sim();
        s.atomics += 1;
        s.point(false);
        true
    }

    #[no_mangle]
    pub extern "C" fn __tsan_init() {}
    #[no_mangle]
    pub extern "C" fn __tsan_func_entry(_: *const u8) {}
    #[no_mangle]
    pub extern "C" fn __tsan_func_exit() {}

    macro_rules! plain_hooks { ($($name:ident $size:expr, $w:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(p: usize) { if live() { plain(p, $size, $w); } }
    )* } }
    plain_hooks! {
        __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
        __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
        __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
        __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
        __tsan_read_write1 1, true; __tsan_read_write2 2, true; __tsan_read_write4 4, true; __tsan_read_write8 8, true; __tsan_read_write16 16, true;
        __tsan_unaligned_read_write2 2, true; __tsan_unaligned_read_write4 4, true; __tsan_unaligned_read_write8 8, true; __tsan_unaligned_read_write16 16, true;
    }
    extern "C" {
        fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
        fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
        fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8;
    }
    #[no_mangle]
    pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { if live() { plain(s as usize, n, false); plain(d as usize, n, true); } memcpy(d, s, n) }
    #[no_mangle]
    pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { if live() { plain(s as usize, n, false); plain(d as usize, n, true); } memmove(d, s, n) }
    #[no_mangle]
    pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 { if live() { plain(d as usize, n, true); } memset(d, v, n) }

    #[no_mangle]
    pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
        unsafe { asm!("mfence"); }
        if live() { fence_slow(mo); }
    }
    #[inline(never)]
    fn fence_slow(mo: i32) { let _b = Busy::new(); let s = sim(); if s.th[s.cur].inlib { s.fence(mo); } }
    #[no_mangle]
    pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

    macro_rules! raw_cas { ($name:ident, $t:ty, $class:ident, $a:tt, $ins:literal) => {
        #[inline(always)]
        unsafe fn $name(p: *mut $t, c: $t, v: $t) -> $t {
            let mut a = c;
            asm!($ins, p = in(reg) p, v = in($class) v, inout($a) a);
            a
        }
    } }
    raw_cas!(cas1, u8, reg_byte, "al", "lock cmpxchg byte ptr [{p}], {v}");
    raw_cas!(cas2, u16, reg, "ax", "lock cmpxchg word ptr [{p}], {v:x}");
    raw_cas!(cas4, u32, reg, "eax", "lock cmpxchg dword ptr [{p}], {v:e}");
    raw_cas!(cas8, u64, reg, "rax", "lock cmpxchg qword ptr [{p}], {v:r}");

    macro_rules! rmw_hook { ($t:ty, $size:expr, $name:ident, $cas:ident, $a:ident $b:ident => $f:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut $t, v: $t, mo: i32) -> $t {
            let m = live() && before_atomic(p as usize);
            let mut cur = core::ptr::read_volatile(p);
            let $b = v;
            if m { let $a = cur; after_rmw(p as usize, $size, mo, cur as u64, ($f) as u64); }
            loop {
                let $a = cur;
                let got = $cas(p, cur, $f);
                if got == cur { return cur; }
                cur = got;
            }
        }
    } }
    macro_rules! atomic_hooks { ($t:ty, $size:expr, $rcas:ident, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, mo: i32) -> $t {
            if live() && before_atomic(p as usize) { return after_load(p as usize, $size, mo, core::ptr::read_volatile(p) as u64) as $t; }
            core::ptr::read_volatile(p)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, mo: i32) {
            if live() && before_atomic(p as usize) { after_store(p as usize, $size, mo, core::ptr::read_volatile(p) as u64, v as u64); }
            core::ptr::write_volatile(p, v);
            if mo == 5 { asm!("mfence"); }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, cmp: $t, v: $t, mo: i32, fmo: i32) -> $t {
            if live() && before_atomic(p as usize) {
                let now = core::ptr::read_volatile(p);
                if now == cmp { after_rmw(p as usize, $size, mo, now as u64, v as u64); core::ptr::write_volatile(p, v); } else { after_cas_failed(p as usize, $size, fmo, now as u64); }
                return now;
            }
            $rcas(p, cmp, v)
        }
        rmw_hook!($t, $size, $xchg, $rcas, _a b => b);
        rmw_hook!($t, $size, $add, $rcas, a b => a.wrapping_add(b));
        rmw_hook!($t, $size, $sub, $rcas, a b => a.wrapping_sub(b));
        rmw_hook!($t, $size, $and, $rcas, a b => a & b);
        rmw_hook!($t, $size, $or, $rcas, a b => a | b);
        rmw_hook!($t, $size, $xor, $rcas, a b => a ^ b);
        rmw_hook!($t, $size, $nand, $rcas, a b => !(a & b));
    } }
    atomic_hooks!(u8, 1, cas1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
    atomic_hooks!(u16, 2, cas2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
    atomic_hooks!(u32, 4, cas4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
    atomic_hooks!(u64, 8, cas8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
    #[inline(never)]
    fn after_load(p: usize, size: u8, mo: i32, now: u64) -> u64 { let _b = Busy::new(); sim().load(p, size, mo, now) }
    #[inline(never)]
    fn after_store(p: usize, size: u8, mo: i32, now: u64, v: u64) { let _b = Busy::new(); sim().store(p, size, mo, now, v) }
    #[inline(never)]
    fn after_rmw(p: usize, size: u8, mo: i32, now: u64, v: u64) { let _b = Busy::new(); sim().rmw(p, size, mo, now, v) }
    #[inline(never)]
    fn after_cas_failed(p: usize, size: u8, mo: i32, now: u64) { let _b = Busy::new(); let s = sim(); s.cas_failed(p, size, mo, now); s.point(true); }
}

#[cfg(not(rcsv_sim))]
mod imp {
    pub const IS: bool = false;
    pub fn setup() {}
    pub fn take(_: usize, _: usize) -> Option<usize> { None }
    pub fn inside(_: usize) -> bool { false }
    pub fn reset() {}
    pub fn forget(_: usize, _: usize) {}
    pub fn allocated(_: usize, _: usize) {}
    pub fn released(_: usize, _: usize) {}
    pub fn suspend() -> bool { false }
    pub fn resume(_: bool) {}
    pub struct Plan { pub seed: u64, pub n: usize, pub first: usize, pub p: u32, pub changes: Vec<u32>, pub weak: bool, pub sync: bool }
    pub fn run(_: Plan, _: &dyn Fn(usize)) {}
    pub fn points() -> u32 { 0 }
    pub fn current() -> usize { 0 }
    pub fn sig() -> u64 { 0 }
    pub fn totals() -> (u64, u64, u64, u64, u64) { (0, 0, 0, 0, 0) }
    pub fn pause() {}
    pub fn op(_: &'static str) {}
    pub fn set_inlib(_: bool) -> bool { false }
    pub fn stamp() {}
}

pub use imp::*;
