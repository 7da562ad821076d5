//! Preemption at chosen instructions, natively. Threads take turns (one holds a
//! token); at the start of an operation of the library the holder may set the
//! processor's trap flag, so that a SIGTRAP handler counts the instructions
//! executed and, at a chosen one, hands the token to another thread. That thread
//! then runs inside the window. If the holder makes no step for a while (it
//! spins on something a waiting thread has), a waiting one goes on as well.

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod imp {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

    const MAXT: usize = 4;
    const TF: u64 = 0x100;
    /// Processor cycles without any step of the holder after which others go on
    const PATIENCE: u64 = 400_000;

    static ON: AtomicBool = AtomicBool::new(false);
    static TOKEN: AtomicUsize = AtomicUsize::new(0);
    static NT: AtomicUsize = AtomicUsize::new(0);
    static DONE: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
    static BEAT: AtomicU64 = AtomicU64::new(0);
    static PAUSES: AtomicU64 = AtomicU64::new(0);
    static STEPS: AtomicU64 = AtomicU64::new(0);
    static STEALS: AtomicU64 = AtomicU64::new(0);
    const RING: usize = 256;
    static AT: [AtomicU64; RING] = [const { AtomicU64::new(0) }; RING];
    static ATN: AtomicUsize = AtomicUsize::new(0);
    const KINDS: usize = 32;
    static EST: [AtomicU32; KINDS] = [const { AtomicU32::new(250) }; KINDS];
    static LEST: [AtomicU32; KINDS] = [const { AtomicU32::new(6) }; KINDS];

    #[derive(Clone, Copy, PartialEq)]
    enum Mode { Off, Step, BeforeLock, AfterLock, Learn }
    struct Slot { me: Cell<usize>, mode: Cell<Mode>, left: Cell<u32>, steps: Cell<u32>, locks: Cell<u32>, prev_lock: Cell<bool>, kind: Cell<usize>, again: Cell<u32>, rng: Cell<u64>, stepping: Cell<bool> }
    thread_local! {
        static SLOT: Slot = const { Slot { me: Cell::new(usize::MAX), mode: Cell::new(Mode::Off), left: Cell::new(0), steps: Cell::new(0), locks: Cell::new(0), prev_lock: Cell::new(false), kind: Cell::new(0), again: Cell::new(0), rng: Cell::new(1), stepping: Cell::new(false) } };
    }

    impl Slot {
        fn rnd(&self, n: u32) -> u32 {
            let mut x = self.rng.get();
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            self.rng.set(x);
            ((x >> 32) as u32) % n.max(1)
        }
    }

    #[repr(C)]
    struct Sa { f: usize, mask: [u64; 16], flags: i32, rest: usize }
    extern "C" {
        fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
        fn sched_yield() -> i32;
    }

    fn tsc() -> u64 { unsafe { core::arch::x86_64::_rdtsc() } }
    #[inline(always)]
    fn trap_on() { unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") } }
    #[inline(always)]
    fn trap_off() { unsafe { core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") } }

    extern "C" fn on_trap(_s: i32, _i: *mut u8, u: *mut u8) {
        // ucontext: rip and rflags among the saved registers
        let rip = unsafe { *(u.add(40 + 16 * 8) as *const u64) };
        let efl = unsafe { &mut *(u.add(40 + 17 * 8) as *mut u64) };
        let _ = SLOT.try_with(|s| {
            if s.mode.get() == Mode::Off { *efl &= !TF; return; }
            BEAT.fetch_add(1, Relaxed);
            s.steps.set(s.steps.get() + 1);
            let lock = is_lock(rip);
            let was = s.prev_lock.replace(lock);
            if lock { s.locks.set(s.locks.get() + 1); }
            let hit = match s.mode.get() { Mode::Step => true, Mode::BeforeLock => lock, Mode::AfterLock => was, _ => false };
            if s.mode.get() == Mode::Learn || !hit {
                if s.steps.get() > 4000 { s.mode.set(Mode::Off); *efl &= !TF; }
                return;
            }
            let l = s.left.get();
            if l > 1 { s.left.set(l - 1); return; }
            PAUSES.fetch_add(1, Relaxed);
            AT[ATN.fetch_add(1, Relaxed) % RING].store(rip << 3 | s.me.get() as u64, Relaxed);
            let go_on = s.again.get() > 0;
            let m = s.mode.replace(Mode::Off);
            pass(s);
            if go_on {
                s.again.set(s.again.get() - 1);
                let k = if m == Mode::Step { EST[s.kind.get()].load(Relaxed) / 2 } else { LEST[s.kind.get()].load(Relaxed) / 2 };
                s.left.set(1 + s.rnd(k));
                s.mode.set(m);
            } else {
                *efl &= !TF;
            }
        });
    }

    /// Is the instruction at `rip` an atomic read-modify-write?
    fn is_lock(rip: u64) -> bool {
        unsafe {
            let mut p = rip as *const u8;
            for _ in 0..3 {
                match *p {
                    0xf0 => return true,
                    0x66 | 0x40..=0x4f => p = p.add(1),
                    0x86 | 0x87 => return *p.add(1) >> 6 != 3,
                    _ => return false,
                }
            }
        }
        false
    }

    /// Hand the token to another thread, and wait for it to come back.
    fn pass(s: &Slot) {
        let me = s.me.get();
        let n = NT.load(Relaxed);
        let mut others = [0usize; MAXT];
        let mut k = 0;
        for t in 0..n { if t != me && !DONE[t].load(Relaxed) { others[k] = t; k += 1; } }
        if k == 0 { return; }
        let to = others[s.rnd(k as u32) as usize];
        TOKEN.store(to, SeqCst);
        BEAT.fetch_add(1, Relaxed);
        wait(s);
    }

    fn wait(s: &Slot) {
        let me = s.me.get();
        let mut beat = BEAT.load(Relaxed);
        let mut since = tsc();
        let patience = PATIENCE + (s.rnd(PATIENCE as u32) as u64);
        let mut k = 0u32;
        while TOKEN.load(Acquire) != me {
            std::hint::spin_loop();
            k += 1;
            if k % 64 != 0 { continue; }
            if k % 8192 == 0 { unsafe { sched_yield(); } }
            let b = BEAT.load(Relaxed);
            if b != beat { beat = b; since = tsc(); continue; }
            if tsc().wrapping_sub(since) > patience {
                STEALS.fetch_add(1, Relaxed);
                TOKEN.store(me, SeqCst);
                BEAT.fetch_add(1, Relaxed);
                return;
            }
        }
    }

    pub fn install() {
        let a = Sa { f: on_trap as *const () as usize, mask: [0; 16], flags: 4, rest: 0 };
        unsafe { sigaction(5, &a, std::ptr::null_mut()); }
    }
    /// Before the threads of a program start
    pub fn prepare(threads: usize, first: usize) {
        for d in &DONE { d.store(false, Relaxed); }
        NT.store(threads, Relaxed);
        TOKEN.store(first % threads, Relaxed);
        ATN.store(0, Relaxed);
        ON.store(true, Release);
    }
    pub fn off() { ON.store(false, Release); }
    /// First thing in a thread of the program
    pub fn enter(me: usize, seed: u64) {
        if !ON.load(Relaxed) { return; }
        SLOT.with(|s| { s.me.set(me); s.rng.set(seed | 1); s.mode.set(Mode::Off); s.stepping.set(false); wait(s); });
    }
    pub fn leave() {
        if !ON.load(Relaxed) { return; }
        SLOT.with(|s| {
            let me = s.me.get();
            DONE[me].store(true, SeqCst);
            BEAT.fetch_add(1, Relaxed);
            let n = NT.load(Relaxed);
            if TOKEN.load(SeqCst) == me { if let Some(t) = (0..n).find(|&t| !DONE[t].load(Relaxed)) { TOKEN.store(t, SeqCst); } }
            s.me.set(usize::MAX);
        });
    }
    /// Between operations
    pub fn boundary() { point(2); }
    /// Inside the workload's own use of items: sometimes let others run
    pub fn point(one_in: u32) {
        if !ON.load(Relaxed) { return; }
        SLOT.with(|s| {
            if s.me.get() == usize::MAX { return; }
            BEAT.fetch_add(1, Relaxed);
            // Others went on without the token: wait for the turn again
            if TOKEN.load(Relaxed) != s.me.get() { wait(s); } else if s.rnd(one_in) == 0 { pass(s); }
        });
    }
    /// Decide about the next operation
    pub fn plan(kind: usize) {
        if !ON.load(Relaxed) { return; }
        SLOT.with(|s| {
            if s.me.get() == usize::MAX { return; }
            s.kind.set(kind % KINDS);
            let x = s.rnd(32);
            let e = EST[kind % KINDS].load(Relaxed);
            let m = match x { 0..=7 => Mode::Step, 8..=11 => Mode::BeforeLock, 12..=15 => Mode::AfterLock, 16 => Mode::Learn, _ => Mode::Off };
            let k = match m { Mode::Step => if s.rnd(4) == 0 { e / 4 } else { e }, _ => LEST[kind % KINDS].load(Relaxed) };
            s.left.set(1 + s.rnd(k));
            s.again.set(match s.rnd(6) { 0 | 1 => 1, 2 => 2, _ => 0 });
            s.steps.set(0);
            s.locks.set(0);
            s.prev_lock.set(false);
            s.stepping.set(m != Mode::Off);
            s.mode.set(m);
        });
    }
    /// The planned operation is over
    pub fn done() {
        if !ON.load(Relaxed) { return; }
        trap_off();
        SLOT.with(|s| {
            if !s.stepping.replace(false) { return; }
            STEPS.fetch_add(s.steps.get() as u64, Relaxed);
            if s.mode.replace(Mode::Off) != Mode::Off {
                // Ran to its end: its length is known
                for (e, seen) in [(&EST[s.kind.get()], s.steps.get() + 4), (&LEST[s.kind.get()], s.locks.get() + 1)] {
                    let old = e.load(Relaxed);
                    e.store(if seen > old { seen } else { old - (old - seen) / 16 }, Relaxed);
                }
            }
        });
    }
    /// Around the code that is stepped through
    #[inline(always)]
    pub fn start_code() { if ON.load(Relaxed) && SLOT.with(|s| s.stepping.get() && s.mode.get() != Mode::Off) { trap_on(); } }
    #[inline(always)]
    pub fn stop_code() { if ON.load(Relaxed) { trap_off(); } }
    /// The allocator's own instructions aren't worth stepping through.
    #[inline(always)]
    pub fn suspend() -> bool {
        if !ON.load(Relaxed) { return false; }
        let on = SLOT.try_with(|s| s.stepping.get() && s.mode.get() != Mode::Off).unwrap_or(false);
        if on { trap_off(); }
        on
    }
    #[inline(always)]
    pub fn resume(on: bool) { if on { trap_on(); } }

    /// Where threads were preempted in the last program
    pub fn places(mut f: impl FnMut(u64)) {
        let base = install as *const () as u64;
        for a in AT.iter().take(ATN.load(Relaxed).min(RING)) { let x = a.load(Relaxed); f((x >> 3).wrapping_sub(base) << 3 | (x & 7)); }
    }
    pub fn totals() -> (u64, u64, u64) { (PAUSES.load(Relaxed), STEPS.load(Relaxed), STEALS.load(Relaxed)) }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
mod imp {
    pub fn install() {}
    pub fn prepare(_: usize, _: usize) {}
    pub fn off() {}
    pub fn enter(_: usize, _: u64) {}
    pub fn leave() {}
    pub fn boundary() {}
    pub fn point(_: u32) {}
    pub fn plan(_: usize) {}
    pub fn done() {}
    pub fn start_code() {}
    pub fn stop_code() {}
    pub fn suspend() -> bool { false }
    pub fn resume(_: bool) {}
    pub fn places(_: impl FnMut(u64)) {}
    pub fn totals() -> (u64, u64, u64) { (0, 0, 0) }
}

pub use imp::*;
