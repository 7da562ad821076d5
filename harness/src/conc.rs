//! Concurrent monitor for the Arc family. Small random programs of two or three
//! threads run against the real library. Every operation is bracketed by stamps
//! from one clock; afterwards an offline check decides whether each grant,
//! refusal and upgrade is consistent with the intervals during which the other
//! handles existed. Online, every item carries reader/writer/liveness flags that
//! each access and each drop verifies. Once the threads are done, the
//! remaining handles are checked exactly, as in the sequential monitor.

use crate::alloc::{self, tracking, SHADOW};
use crate::inject;
use crate::sim;
use crate::report;
use crate::rng::{mix, Rng};
use crate::tags::*;
use crate::world::{panic_text, CUR_TAGS, OPCTR};
use rc_slice::arc::WeakSlice;
use rc_slice::{ArcSlice, ArcSliceMut};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

const MAXN: usize = 12;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static STATE: [AtomicU32; MAXN] = [Z; MAXN]; // 0 none, 1 live, 2 dropped
static READERS: [AtomicU32; MAXN] = [Z; MAXN];
static WRITER: [AtomicU32; MAXN] = [Z; MAXN];
static CLOCK: AtomicU64 = AtomicU64::new(1);
static TREES: AtomicU32 = AtomicU32::new(0);
static SYNC: AtomicBool = AtomicBool::new(true);
static INJECT: AtomicBool = AtomicBool::new(false);
static REENT: AtomicBool = AtomicBool::new(false);
static FAILED: AtomicBool = AtomicBool::new(false);
static FAIL: Mutex<Option<Fail>> = Mutex::new(None);

const T_DROP: Tags = c(2) | c(14);
const T_EXCL: Tags = c(7) | c(14) | c(2);
const T_GRANT: Tags = c(7) | c(14);
const T_VIEW: Tags = c(2) | c(4) | c(14);
const T_WEAK: Tags = c(8) | c(14);
const T_ALL: Tags = c(2) | c(7) | c(8) | c(14) | c(16) | c(12);

/// What happened in the program so far that a broken item may be the fault of
static HAPPENED: AtomicU32 = AtomicU32::new(0);

fn report_fail(kind: &'static str, tags: Tags, msg: String) {
    let tags = if matches!(kind, "DROP" | "VIEW" | "EXCL") { tags | HAPPENED.load(Relaxed) as Tags } else { tags | HAPPENED.load(Relaxed) as Tags & (c(12) | c(16)) };
    tracking(false, || {
        let mut g = FAIL.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() { *g = Some(Fail { kind, tags, msg }); }
        FAILED.store(true, Relaxed);
    })
}

/// Handles a thread uses from inside items' destructors, in the order of `plan`
struct Stash { held: Vec<Held>, log: Log, r: Rng, plan: Vec<(Op, u32, u32)>, bombs: u32, armed: bool, ran: u64 }
static STASH: [Mutex<Option<Box<Stash>>>; 4] = [const { Mutex::new(None) }; 4];
thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(3) }; }
fn my_stash() -> std::sync::MutexGuard<'static, Option<Box<Stash>>> {
    STASH[if sim::IS { sim::current() } else { ME.with(|m| m.get()) }].lock().unwrap_or_else(|e| e.into_inner())
}
struct Bomb;

/// User code that an item's destructor runs: operations on other handles, a panic
#[inline(never)]
fn from_destructor() -> bool {
    let on = inject::suspend();
    let bang = tracking(false, || {
        // Taken out meanwhile, so there is one level only
        let s = my_stash().take();
        let Some(mut s) = s else { return false };
        if s.r.chance(2, 3) {
            if let Some((op, a, b)) = s.plan.pop() {
                HAPPENED.fetch_or(c(16) | c(12), Relaxed);
                s.ran += 1;
                let Stash { held, log, r, .. } = &mut *s;
                let res = catch_unwind(AssertUnwindSafe(|| exec(op, a, b, held, &[], &[], log, r)));
                if let Err(p) = res { report_fail("PANIC", T_ALL | op_tags(op), format!("{:?} panicked inside an item's destructor: {}", op, panic_text(p))); }
            }
        }
        let bang = s.armed && s.bombs > 0 && !std::thread::panicking() && s.r.chance(1, 2);
        if bang { s.bombs -= 1; HAPPENED.fetch_or(c(12), Relaxed); }
        *my_stash() = Some(s);
        bang
    });
    // The unwinder isn't stepped through
    inject::resume(on && !bang);
    bang
}

/// Drop something that may hold items whose destructors panic.
#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
fn lib_drop<T>(x: T) {
    let arm = |on: bool| tracking(false, || if let Some(s) = &mut *my_stash() { s.armed = on; });
    arm(true);
    let r = lib(move || catch_unwind(AssertUnwindSafe(move || drop(x))));
    arm(false);
    if let Err(p) = r {
        if !p.is::<Bomb>() { std::panic::resume_unwind(p); }
        tracking(false, || drop(p));
    }
}

fn stamp() -> u64 {
    sim::stamp();
    if SYNC.load(Relaxed) { CLOCK.fetch_add(1, SeqCst) } else { CLOCK.fetch_add(1, Relaxed) }
}

const MAGIC: u32 = 0x1735_c0de;
struct CTok { magic: u32, id: u32, val: u64, inv: u64 }

#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
impl CTok {
    fn new(id: u32) -> Self {
        STATE[id as usize].store(1, Relaxed);
        CTok { magic: MAGIC, id, val: id as u64, inv: !(id as u64) }
    }
    fn valid(&self, id: u32) -> bool { self.magic == MAGIC && self.id == id && STATE[id as usize].load(Relaxed) == 1 }
}
#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
impl Drop for CTok {
    fn drop(&mut self) {
        if self.magic != MAGIC || self.id as usize >= MAXN {
            report_fail("DROP", T_DROP | c(17), "drop ran on memory that holds no live item".into());
            return;
        }
        let id = self.id as usize;
        let lib = sim::set_inlib(false);
        sim::pause();
        let st = STATE[id].swap(2, Relaxed);
        if st != 1 { report_fail("DROP", T_DROP, format!("item {} was dropped twice", id)); }
        if READERS[id].load(Relaxed) != 0 || WRITER[id].load(Relaxed) != 0 {
            report_fail("DROP", T_DROP | T_EXCL, format!("item {} was dropped while another thread was using it through a live handle", id));
        }
        self.magic = 0xdead_dead;
        self.val = 0;
        let bang = REENT.load(Relaxed) && from_destructor();
        sim::set_inlib(lib);
        if bang { tracking(false, || std::panic::resume_unwind(Box::new(Bomb))); }
    }
}

#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
fn read_slice(s: &[CTok], lo: usize, hi: usize, what: &str, r: &mut Rng) -> u64 {
    if s.len() != hi - lo { report_fail("VIEW", T_VIEW, format!("{}: length {}, expected {}", what, s.len(), hi - lo)); return 0; }
    let mut acc = 0;
    for (i, it) in s.iter().enumerate() {
        let id = lo + i;
        READERS[id].fetch_add(1, Relaxed);
        if WRITER[id].load(Relaxed) != 0 { report_fail("EXCL", T_EXCL, format!("item {} read while another thread had mutable access to it", id)); }
        if !it.valid(id as u32) { report_fail("VIEW", T_VIEW, format!("{}: position {} does not hold its live item", what, id)); READERS[id].fetch_sub(1, Relaxed); return 0; }
        let v = it.val;
        if r.chance(1, 4) { jitter(r); }
        if it.inv != !v { report_fail("EXCL", T_EXCL, format!("item {} changed while it was being read", id)); }
        acc ^= v;
        READERS[id].fetch_sub(1, Relaxed);
    }
    acc
}

#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
fn write_slice(s: &mut [CTok], lo: usize, hi: usize, what: &str, r: &mut Rng) {
    if s.len() != hi - lo { report_fail("VIEW", T_VIEW, format!("{}: length {}, expected {}", what, s.len(), hi - lo)); return; }
    for (i, it) in s.iter_mut().enumerate() {
        let id = lo + i;
        if WRITER[id].swap(1, Relaxed) != 0 { report_fail("EXCL", T_EXCL, format!("two threads had mutable access to item {}", id)); }
        if READERS[id].load(Relaxed) != 0 { report_fail("EXCL", T_EXCL, format!("mutable access to item {} while another thread was reading it", id)); }
        if !it.valid(id as u32) { report_fail("VIEW", T_VIEW, format!("{}: position {} does not hold its live item", what, id)); WRITER[id].store(0, Relaxed); return; }
        let v = r.u64();
        it.val = v;
        if r.chance(1, 4) { jitter(r); }
        it.inv = !v;
        if READERS[id].load(Relaxed) != 0 { report_fail("EXCL", T_EXCL, format!("mutable access to item {} while another thread was reading it", id)); }
        WRITER[id].store(0, Relaxed);
    }
}

fn jitter(r: &mut Rng) {
    if cfg!(miri) { return; }
    if sim::IS { sim::pause(); return; }
    if INJECT.load(Relaxed) { inject::point(2); return; }
    for _ in 0..r.below(60) { std::hint::spin_loop(); }
}

enum Obj { S(ArcSlice<CTok>), W(WeakSlice<CTok>), M(ArcSliceMut<CTok>) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { S, W, M }

#[derive(Clone, Debug)]
struct Rec { kind: K, tree: u32, lo: usize, hi: usize, c0: u64, c1: u64, d0: u64, d1: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum EK { GetMut, IntoMut, Upgrade }
#[derive(Clone, Debug)]
struct Ev { k: EK, rec: usize, call: u64, ret: u64, ok: bool, end: u64, made: usize }

#[derive(Default)]
struct Log { recs: Vec<Rec>, evs: Vec<Ev>, counts: BTreeMap<&'static str, u64>, sig: u64 }

impl Log {
    fn add(&mut self, kind: K, tree: u32, lo: usize, hi: usize, c0: u64, c1: u64) -> usize {
        self.recs.push(Rec { kind, tree, lo, hi, c0, c1, d0: u64::MAX, d1: u64::MAX });
        self.recs.len() - 1
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Clone, CloneL, CloneR, SplitL, SplitR, DropS, GetMut, IntoMut, Down, Up, DropW, CloneW, Read, Parts, MOp, SharedRead }
const ALL: &[Op] = &[Op::Clone, Op::CloneL, Op::CloneR, Op::SplitL, Op::SplitR, Op::DropS, Op::GetMut, Op::IntoMut, Op::Down, Op::Up, Op::DropW, Op::CloneW, Op::Read, Op::Parts, Op::MOp, Op::SharedRead];

// The properties an operation that panics without cause speaks against, beyond those all operations serve
fn op_tags(op: Op) -> Tags {
    match op {
        Op::Clone | Op::CloneL | Op::CloneR | Op::SplitL | Op::SplitR => c(4),
        Op::Parts => c(4) | c(5),
        Op::MOp => c(9) | c(10),
        Op::Read | Op::SharedRead => c(4),
        _ => 0,
    }
}

pub struct Prog { inner: Vec<Vec<(Op, u32, u32)>>, bombs: u32, mutable: bool, len: usize, threads: usize, init: Vec<(Op, u32)>, give: Vec<u32>, shared: usize, ops: Vec<Vec<(Op, u32, u32)>>, fin: u64 }

pub fn gen(seed: u64, theme: &str) -> Prog {
    let mut r = Rng::new(seed);
    let themes: &[&str] = &["tree", "getmut", "intomut", "weak", "all", "create", "mut", "reent"];
    let theme = if theme == "mix" { *r.pick(themes) } else { theme };
    use Op::*;
    let mix: &[Op] = match theme {
        "tree" => &[Clone, CloneL, CloneR, CloneL, CloneR, SplitL, SplitR, DropS, DropS, DropS, Read, Parts],
        // Both sides create the same children at the same time
        "create" => &[CloneL, CloneR, SplitL, SplitR, DropS, Parts, Read, IntoMut],
        "getmut" => &[GetMut, GetMut, GetMut, DropS, DropS, Down, Up, DropW, Read, CloneL, CloneR, CloneW],
        "intomut" => &[IntoMut, IntoMut, IntoMut, DropS, Up, Up, Read, CloneL, CloneR, MOp, GetMut],
        // Items' destructors use other handles, and panic
        "reent" => &[DropS, DropS, DropS, DropS, DropW, CloneL, CloneR, SplitL, SplitR, IntoMut, MOp, GetMut, Up, Read],
        // Pieces of one mutable slice in several threads
        "mut" => &[MOp, MOp, MOp, MOp, MOp, CloneL, DropS, GetMut, IntoMut, Read],
        "weak" => &[Up, Up, Up, Down, DropS, DropS, DropW, CloneW, IntoMut, GetMut, Read],
        _ => ALL,
    };
    let threads = if r.chance(2, 3) { 2 } else { 3 };
    let len = *r.pick(&[1usize, 1, 2, 2, 2, 3, 3, 4, 4, 5, 7, 8]);
    let k = r.below(if theme == "reent" { 3 } else { 5 });
    let init_mix: &[Op] = match theme {
        "create" => &[Clone, Clone, Clone],
        "mut" => &[MOp, MOp, MOp, MOp],
        "weak" => &[Clone, CloneL, CloneR, Down, Down, CloneW],
        "reent" => &[CloneL, SplitL, SplitR, SplitL, SplitR, Down, Clone],
        "getmut" | "intomut" => &[Clone, CloneL, CloneR, Down, CloneL, CloneR],
        _ => &[Clone, CloneL, CloneR, SplitL, Down, Clone],
    };
    let mut init: Vec<(Op, u32)> = (0..k + 1).map(|_| (*r.pick(init_mix), r.u64() as u32)).collect();
    if theme != "create" && theme != "mut" && r.chance(1, 3) { init.push((DropS, r.u64() as u32)); }
    let give = (0..16).map(|_| r.u64() as u32 >> 3).collect();
    let shared = if r.chance(1, 4) { 1 + r.below(2) } else { 0 };
    let nops = 1 + r.below(4);
    let least = if theme == "reent" { 2 } else { 1 };
    let ops = (0..threads).map(|_| (0..least + r.below(nops)).map(|_| (*r.pick(mix), r.u64() as u32, r.u64() as u32)).collect()).collect();
    let mutable = theme == "mut";
    let inner = &[DropS, DropS, DropW, CloneL, CloneR, SplitL, IntoMut, MOp, MOp, GetMut, GetMut, Up, Up, Down, Clone, Read];
    let inner = if theme != "reent" { vec![] } else { (0..threads).map(|_| (0..r.below(4)).map(|_| (*r.pick(inner), r.u64() as u32, r.u64() as u32)).collect()).collect() };
    let bombs = if theme == "reent" && r.chance(1, 2) { 1 + r.below(2) as u32 } else { 0 };
    Prog { inner, bombs, mutable, len, threads, init, give, shared, ops, fin: r.u64() }
}

pub fn show(seed: u64, theme: &str) -> String {
    let p = gen(seed, theme);
    format!("len {} threads {} shared {} setup {:?}\n{}", p.len, p.threads, p.shared, p.init.iter().map(|x| x.0).collect::<Vec<_>>(),
        p.ops.iter().enumerate().map(|(i, o)| format!("  thread {}: {:?}", i, o.iter().map(|x| x.0).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n"))
        + &p.inner.iter().enumerate().map(|(i, o)| format!("\n  thread {}, in destructors: {:?}", i, o.iter().rev().map(|x| x.0).collect::<Vec<_>>())).collect::<String>()
        + &if p.bombs > 0 { format!("\n  up to {} destructors per thread panic", p.bombs) } else { String::new() }
}

type Held = (Obj, usize);

fn pick(v: &[Held], a: u32, k: K) -> Option<usize> {
    let n = v.iter().filter(|h| kind(&h.0) == k).count();
    if n == 0 { return None; }
    let j = a as usize % n;
    v.iter().enumerate().filter(|(_, h)| kind(&h.0) == k).nth(j).map(|x| x.0)
}
fn name(o: Op) -> &'static str {
    match o {
        Op::Clone => "clone", Op::CloneL => "clone_left", Op::CloneR => "clone_right", Op::SplitL => "split_off_left", Op::SplitR => "split_off_right",
        Op::DropS => "drop", Op::GetMut => "get_mut", Op::IntoMut => "into_mut", Op::Down => "downgrade", Op::Up => "upgrade", Op::DropW => "drop of a weak handle",
        Op::CloneW => "clone of a weak handle", Op::Read | Op::SharedRead => "read", Op::Parts => "split_into_parts", Op::MOp => "an operation on a mutable slice",
    }
}
fn kind(o: &Obj) -> K { match o { Obj::S(_) => K::S, Obj::W(_) => K::W, Obj::M(_) => K::M } }

#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
fn lib<R>(f: impl FnOnce() -> R) -> R {
    OPCTR.fetch_add(1, Relaxed);
    let r = tracking(true, || {
        inject::start_code();
        sim::set_inlib(true);
        let r = f();
        sim::set_inlib(false);
        inject::stop_code();
        r
    });
    OPCTR.fetch_add(1, Relaxed);
    r
}

/// Run one operation on this thread's handles.
#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
fn exec(op: Op, a: u32, b: u32, held: &mut Vec<Held>, shared: &[Held], srecs: &[Rec], log: &mut Log, r: &mut Rng) {
    // Sometimes go through a handle that all threads share by reference
    if !shared.is_empty() && b % 3 == 0 {
        let (o, i) = &shared[a as usize % shared.len()];
        let rec = srecs[*i].clone();
        match (o, op) {
            (Obj::S(s), Op::Clone | Op::CloneL | Op::CloneR | Op::Down | Op::SharedRead | Op::Read | Op::SplitL) => {
                let c0 = stamp();
                let mid = rec.lo + (rec.hi - rec.lo) / 2;
                let (o, k, lo, hi) = match op {
                    Op::Clone => (Obj::S(lib(|| s.clone())), K::S, rec.lo, rec.hi),
                    Op::CloneL | Op::SplitL => (Obj::S(lib(|| ArcSlice::clone_left(s))), K::S, rec.lo, mid),
                    Op::CloneR => (Obj::S(lib(|| ArcSlice::clone_right(s))), K::S, mid, rec.hi),
                    Op::Down => (Obj::W(lib(|| ArcSlice::downgrade(s))), K::W, rec.lo, rec.hi),
                    _ => { read_slice(s, rec.lo, rec.hi, "shared handle", r); return; }
                };
                let i = log.add(k, rec.tree, lo, hi, c0, stamp());
                held.push((o, i));
                *log.counts.entry("shared-ops").or_insert(0) += 1;
                return;
            }
            (Obj::W(w), Op::Up | Op::CloneW | Op::DropW) => {
                let c0 = stamp();
                if op == Op::Up {
                    let x = lib(|| w.upgrade());
                    let c1 = stamp();
                    if let Some(s) = x {
                        let i = log.add(K::S, rec.tree, rec.lo, rec.hi, c0, c1);
                        held.push((Obj::S(s), i));
                    }
                } else {
                    let x = lib(|| w.clone());
                    let i = log.add(K::W, rec.tree, rec.lo, rec.hi, c0, stamp());
                    held.push((Obj::W(x), i));
                }
                *log.counts.entry("shared-ops").or_insert(0) += 1;
                return;
            }
            _ => {}
        }
    }
    match op {
        Op::Clone | Op::CloneL | Op::CloneR | Op::Down | Op::Read | Op::SharedRead => {
            let Some(i) = pick(held, a, K::S) else { return };
            let rec = log.recs[held[i].1].clone();
            let Obj::S(s) = &held[i].0 else { return };
            let mid = rec.lo + (rec.hi - rec.lo) / 2;
            let c0 = stamp();
            let (o, k, lo, hi) = match op {
                Op::Clone => (Obj::S(lib(|| s.clone())), K::S, rec.lo, rec.hi),
                Op::CloneL => (Obj::S(lib(|| ArcSlice::clone_left(s))), K::S, rec.lo, mid),
                Op::CloneR => (Obj::S(lib(|| ArcSlice::clone_right(s))), K::S, mid, rec.hi),
                Op::Down => (Obj::W(lib(|| ArcSlice::downgrade(s))), K::W, rec.lo, rec.hi),
                _ => { read_slice(s, rec.lo, rec.hi, "handle", r); *log.counts.entry("reads").or_insert(0) += 1; return; }
            };
            let i = log.add(k, rec.tree, lo, hi, c0, stamp());
            if let Obj::S(s) = &o { if b % 2 == 0 { read_slice(s, lo, hi, "new handle", r); } }
            held.push((o, i));
        }
        Op::SplitL | Op::SplitR => {
            let Some(i) = pick(held, a, K::S) else { return };
            let (o, ri) = held.swap_remove(i);
            let rec = log.recs[ri].clone();
            let Obj::S(mut s) = o else { return };
            let mid = rec.lo + (rec.hi - rec.lo) / 2;
            let c0 = stamp();
            let n = lib(|| if op == Op::SplitL { ArcSlice::split_off_left(&mut s) } else { ArcSlice::split_off_right(&mut s) });
            let c1 = stamp();
            // The old handle is gone by now, and was certainly there at the start
            log.recs[ri].d0 = c0;
            log.recs[ri].d1 = c1;
            let (t, u) = if op == Op::SplitL { ((mid, rec.hi), (rec.lo, mid)) } else { ((rec.lo, mid), (mid, rec.hi)) };
            let x = log.add(K::S, rec.tree, t.0, t.1, c0, c1);
            let y = log.add(K::S, rec.tree, u.0, u.1, c0, c1);
            held.push((Obj::S(s), x));
            held.push((Obj::S(n), y));
        }
        Op::Parts => {
            let Some(i) = pick(held, a, K::S) else { return };
            let (o, ri) = held.swap_remove(i);
            let rec = log.recs[ri].clone();
            let Obj::S(s) = o else { return };
            let n = 1usize << (b % 3);
            let c0 = stamp();
            let v: Vec<_> = lib(|| { let p = ArcSlice::split_into_parts(s, n); if b & 8 == 0 { p.collect() } else { let mut v: Vec<_> = p.rev().collect(); v.reverse(); v } });
            let c1 = stamp();
            log.recs[ri].d0 = c0;
            log.recs[ri].d1 = c1;
            let mut ps = Default::default();
            crate::world::parts_of(rec.lo, rec.hi, n, &mut ps);
            if v.len() != ps.len() { report_fail("ITER", T_VIEW | c(5), format!("{} parts yielded, expected {}", v.len(), ps.len())); return; }
            for (s, (lo, hi)) in v.into_iter().zip(ps) {
                read_slice(&s, lo, hi, "part", r);
                let i = log.add(K::S, rec.tree, lo, hi, c0, c1);
                held.push((Obj::S(s), i));
            }
        }
        Op::DropS | Op::DropW => {
            let Some(i) = pick(held, a, if op == Op::DropS { K::S } else { K::W }) else { return };
            let (o, ri) = held.swap_remove(i);
            log.recs[ri].d0 = stamp();
            lib_drop(o);
            log.recs[ri].d1 = stamp();
        }
        Op::GetMut => {
            let Some(i) = pick(held, a, K::S) else { return };
            let ri = held[i].1;
            let rec = log.recs[ri].clone();
            let Obj::S(s) = &mut held[i].0 else { return };
            let call = stamp();
            let x = lib(|| ArcSlice::get_mut(s));
            let ret = stamp();
            let ok = x.is_some();
            if ok { HAPPENED.fetch_or(c(7), Relaxed); }
            let mut end = ret;
            if let Some(m) = x { write_slice(m, rec.lo, rec.hi, "get_mut slice", r); end = stamp(); }
            *log.counts.entry(if ok { "get_mut-some" } else { "get_mut-none" }).or_insert(0) += 1;
            log.sig = mix(log.sig ^ ok as u64 ^ 0x10);
            log.evs.push(Ev { k: EK::GetMut, rec: ri, call, ret, ok, end, made: usize::MAX });
        }
        Op::IntoMut => {
            let Some(i) = pick(held, a, K::S) else { return };
            let (o, ri) = held.swap_remove(i);
            let rec = log.recs[ri].clone();
            let Obj::S(s) = o else { return };
            let call = stamp();
            let x = lib(|| ArcSlice::into_mut(s));
            let ret = stamp();
            log.sig = mix(log.sig ^ x.is_ok() as u64 ^ 0x20);
            *log.counts.entry(if x.is_ok() { "into_mut-ok" } else { "into_mut-err" }).or_insert(0) += 1;
            match x {
                Ok(mut m) => {
                    HAPPENED.fetch_or(c(7) | c(9), Relaxed);
                    log.recs[ri].d0 = call;
                    log.recs[ri].d1 = ret;
                    write_slice(&mut m, rec.lo, rec.hi, "into_mut slice", r);
                    let i = log.add(K::M, 0, rec.lo, rec.hi, call, ret);
                    log.evs.push(Ev { k: EK::IntoMut, rec: ri, call, ret, ok: true, end: ret, made: i });
                    held.push((Obj::M(m), i));
                    if b % 3 != 0 { let j = held.len() - 1; m_op(b >> 4, j, held, log, r); }
                }
                Err(s) => {
                    log.evs.push(Ev { k: EK::IntoMut, rec: ri, call, ret, ok: false, end: ret, made: usize::MAX });
                    held.push((Obj::S(s), ri));
                }
            }
        }
        Op::MOp => { if let Some(i) = pick(held, a, K::M) { m_op(b, i, held, log, r) } }
        Op::CloneW => {
            let Some(i) = pick(held, a, K::W) else { return };
            let rec = log.recs[held[i].1].clone();
            let Obj::W(w) = &held[i].0 else { return };
            let c0 = stamp();
            let x = lib(|| w.clone());
            let i = log.add(K::W, rec.tree, rec.lo, rec.hi, c0, stamp());
            held.push((Obj::W(x), i));
        }
        Op::Up => {
            let Some(i) = pick(held, a, K::W) else { return };
            let ri = held[i].1;
            let rec = log.recs[ri].clone();
            let Obj::W(w) = &held[i].0 else { return };
            let call = stamp();
            let x = lib(|| w.upgrade());
            let ret = stamp();
            log.sig = mix(log.sig ^ x.is_some() as u64 ^ 0x30);
            *log.counts.entry(if x.is_some() { "upgrade-some" } else { "upgrade-none" }).or_insert(0) += 1;
            let mut made = usize::MAX;
            let ok = x.is_some();
            if ok { HAPPENED.fetch_or(c(8), Relaxed); }
            if let Some(s) = x {
                read_slice(&s, rec.lo, rec.hi, "upgraded handle", r);
                made = log.add(K::S, rec.tree, rec.lo, rec.hi, call, ret);
                held.push((Obj::S(s), made));
            }
            log.evs.push(Ev { k: EK::Upgrade, rec: ri, call, ret, ok, end: ret, made });
        }
    }
}

/// Do something with a mutable slice.
#[cfg_attr(rcsv_sim, sanitize(thread = "on"))]
fn m_op(b: u32, i: usize, held: &mut Vec<Held>, log: &mut Log, r: &mut Rng) {
    let (o, ri) = held.swap_remove(i);
    let rec = log.recs[ri].clone();
    let Obj::M(mut m) = o else { return };
    let c0 = stamp();
    match b % 8 {
        0 => {
            let s = lib(|| ArcSliceMut::into_immut(m));
            let c1 = stamp();
            log.recs[ri].d0 = c0;
            log.recs[ri].d1 = c1;
            read_slice(&s, rec.lo, rec.hi, "into_immut slice", r);
            let t = TREES.fetch_add(1, Relaxed) + 1;
            let x = log.add(K::S, t, rec.lo, rec.hi, c0, c1);
            held.push((Obj::S(s), x));
        }
        1 => {
            let n = lib(|| ArcSliceMut::split_off_left(&mut m));
            let c1 = stamp();
            log.recs[ri].d0 = c0;
            log.recs[ri].d1 = c1;
            let mid = rec.lo + (rec.hi - rec.lo) / 2;
            write_slice(&mut m, mid, rec.hi, "mutable right half", r);
            let x = log.add(K::M, 0, mid, rec.hi, c0, c1);
            let y = log.add(K::M, 0, rec.lo, mid, c0, c1);
            held.push((Obj::M(m), x));
            held.push((Obj::M(n), y));
        }
        2 => {
            log.recs[ri].d0 = c0;
            let mut it = lib(|| m.into_iter());
            for k in rec.lo..rec.lo + (b as usize >> 4) % (rec.hi - rec.lo + 1) {
                match lib(|| it.next()) {
                    Some(x) if x.valid(k as u32) => {}
                    Some(x) => { std::mem::forget(x); report_fail("ITER", T_VIEW | c(10), "the consuming iterator yielded the wrong item".into()) }
                    None => report_fail("ITER", T_VIEW | c(10), "the consuming iterator ended early".into()),
                }
            }
            lib_drop(it);
            log.recs[ri].d1 = stamp();
        }
        3 => {
            log.recs[ri].d0 = c0;
            lib_drop(m);
            log.recs[ri].d1 = stamp();
        }
        4 => {
            // Through the parts iterator, and then dropped or kept
            let n = 1usize << (b >> 4) % 3;
            log.recs[ri].d0 = c0;
            let mut ps = Default::default();
            crate::world::parts_of(rec.lo, rec.hi, n, &mut ps);
            let mut p = lib(|| ArcSliceMut::split_into_parts(m, n));
            let mut keep = vec![];
            for k in 0..ps.len() {
                let front = b >> (6 + k) & 1 == 0;
                let (x, (lo, hi)) = if front { (lib(|| p.next()), ps.pop_front().unwrap()) } else { (lib(|| p.next_back()), ps.pop_back().unwrap()) };
                let Some(mut x) = x else { report_fail("ITER", T_VIEW | c(5) | c(9), "the mutable parts iterator ended early".into()); return };
                write_slice(&mut x, lo, hi, "mutable part", r);
                if b >> (10 + k) & 1 == 0 { keep.push((x, lo, hi)); } else { lib_drop(x); }
            }
            lib(move || drop(p));
            let c1 = stamp();
            log.recs[ri].d1 = c1;
            for (x, lo, hi) in keep { let j = log.add(K::M, 0, lo, hi, c0, c1); held.push((Obj::M(x), j)); }
        }
        5 => {
            let n = lib(|| ArcSliceMut::split_off_right(&mut m));
            let c1 = stamp();
            log.recs[ri].d0 = c0;
            log.recs[ri].d1 = c1;
            let mid = rec.lo + (rec.hi - rec.lo) / 2;
            write_slice(&mut m, rec.lo, mid, "mutable left half", r);
            let x = log.add(K::M, 0, rec.lo, mid, c0, c1);
            let y = log.add(K::M, 0, mid, rec.hi, c0, c1);
            held.push((Obj::M(m), x));
            held.push((Obj::M(n), y));
        }
        _ => {
            write_slice(&mut m, rec.lo, rec.hi, "mutable slice", r);
            held.push((Obj::M(m), ri));
        }
    }
}

fn overlaps(a: &Rec, b: &Rec) -> bool { a.lo.max(b.lo) < a.hi.min(b.hi) }
fn within(a: &Rec, b: &Rec) -> bool { a.lo >= b.lo && a.hi <= b.hi }

/// The offline check over the recorded history.
fn check_history(logs: &[&Log], sync: bool) -> Option<(&'static str, Tags, String)> {
    let all: Vec<(usize, usize, &Rec)> = logs.iter().enumerate().flat_map(|(t, l)| l.recs.iter().enumerate().map(move |(i, r)| (t, i, r))).collect();
    // Two handles that certainly existed at the same time
    let together = |a: &Rec, from: u64, to: u64| a.c1.max(from) < a.d0.min(to);
    // Exclusive handles exclude everything else; different trees never share items
    for (x, &(_, _, a)) in all.iter().enumerate() {
        for &(_, _, b) in &all[x + 1..] {
            if a.kind == K::W || b.kind == K::W || !overlaps(a, b) { continue; }
            if (a.kind == K::M || b.kind == K::M || a.tree != b.tree) && together(a, b.c1, b.d0) {
                return Some(("EXCL", T_EXCL, format!("a handle with exclusive ownership coexisted with another owner of the same items: {:?} and {:?}", a, b)));
            }
        }
    }
    for (t, l) in logs.iter().enumerate() {
        for e in &l.evs {
            let me = &l.recs[e.rec];
            let others = || all.iter().filter(|&&(ot, oi, _)| !(ot == t && (oi == e.rec || oi == e.made)));
            let possible = |a: &Rec| a.c0 < e.ret && a.d1 > e.call;
            match e.k {
                EK::GetMut if e.ok => {
                    for &(_, _, o) in others() {
                        if !overlaps(me, o) { continue; }
                        let bad = match o.kind { K::S | K::M => true, K::W => o.tree == me.tree && within(o, me) };
                        if bad && together(o, e.ret, e.end) {
                            return Some(("GRANT", T_GRANT, format!("mutable access granted through {:?} at {}..{} although {:?} existed", me, e.ret, e.end, o)));
                        }
                    }
                }
                EK::GetMut | EK::IntoMut if !e.ok => {
                    if !sync || me.lo == me.hi { continue; }
                    let why = others().any(|&(_, _, o)| possible(o) && match o.kind {
                        K::S => overlaps(me, o) || (o.lo == o.hi && o.lo >= me.lo && o.lo <= me.hi),
                        K::W => e.k == EK::GetMut && o.tree == me.tree && (overlaps(me, o) || (o.lo == o.hi && o.lo >= me.lo && o.lo <= me.hi)),
                        // Conversions to and from M leave traces until they return
                        K::M => overlaps(me, o),
                    });
                    if !why { return Some(("GRANT", T_GRANT, format!("{:?} refused through {:?} at {}..{} although no other handle existed", e.k, me, e.call, e.ret))); }
                }
                EK::Upgrade if e.ok => {
                    if me.lo == me.hi { continue; }
                    // Every item must have had an owner in the same tree
                    let mut cov = vec![false; me.hi - me.lo];
                    for &(_, _, o) in others() {
                        if o.kind == K::S && o.tree == me.tree && possible(o) { for x in o.lo.max(me.lo)..o.hi.min(me.hi) { cov[x - me.lo] = true; } }
                    }
                    if cov.iter().any(|x| !x) { return Some(("UPGRADE", T_WEAK, format!("{:?} upgraded at {}..{} although its items had no owner", me, e.call, e.ret))); }
                }
                EK::Upgrade => {
                    if !sync || me.lo == me.hi { continue; }
                    for &(_, _, o) in others() {
                        if o.kind == K::S && o.tree == me.tree && within(me, o) && o.c1 < e.call && o.d0 > e.ret {
                            return Some(("UPGRADE", T_WEAK, format!("{:?} failed to upgrade at {}..{} although {:?} kept its items alive throughout", me, e.call, e.ret, o)));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    None
}

/// Sequential checks on what is left when all threads are done.
fn quiesce(mut held: Vec<(Obj, Rec)>, n: usize, killed: &[(u32, usize, usize)], fin: u64, counts: &mut BTreeMap<&'static str, u64>) {
    let mut r = Rng::new(fin);
    for (o, rec) in &held {
        match o {
            Obj::S(s) => { read_slice(s, rec.lo, rec.hi, "remaining handle", &mut r); }
            Obj::M(m) => { read_slice(m, rec.lo, rec.hi, "remaining mutable handle", &mut r); }
            _ => {}
        }
    }
    let is_killed = |w: &Rec| killed.iter().any(|&(t, lo, hi)| t == w.tree && lo.max(w.lo) < hi.min(w.hi));
    let drops_ok = |held: &[(Obj, Rec)]| {
        for id in 0..n {
            let owned = held.iter().any(|(o, rec)| !matches!(o, Obj::W(_)) && rec.lo <= id && id < rec.hi);
            let st = STATE[id].load(Relaxed);
            if owned && st != 1 { report_fail("DROP", T_DROP, format!("item {} was dropped while still owned", id)); }
            if !owned && st == 1 { report_fail("DROP", T_DROP, format!("item {} was not dropped with its last owner", id)); }
        }
    };
    drops_ok(&held);
    while !held.is_empty() && !FAILED.load(Relaxed) {
        let i = r.below(held.len());
        let (mut o, rec) = held.swap_remove(i);
        let way = r.below(4);
        match &mut o {
            Obj::S(s) if way < 3 && rec.lo < rec.hi => {
                let strong = held.iter().any(|(o, x)| !matches!(o, Obj::W(_)) && overlaps(x, &rec));
                let empty = held.iter().any(|(_, x)| x.lo == x.hi && x.lo >= rec.lo && x.lo <= rec.hi);
                let weak = held.iter().any(|(o, x)| matches!(o, Obj::W(_)) && x.tree == rec.tree && !is_killed(x) && within(x, &rec) && overlaps(x, &rec));
                let maybe_weak = held.iter().any(|(o, x)| matches!(o, Obj::W(_)) && x.tree == rec.tree && overlaps(x, &rec));
                let g = lib(|| ArcSlice::get_mut(s).is_some());
                *counts.entry("final-get_mut").or_insert(0) += 1;
                if g && (strong || weak) { report_fail("GRANT", T_GRANT, format!("after all threads ended, mutable access to {}..{} was granted although {} handle refers to it", rec.lo, rec.hi, if strong { "another strong" } else { "a weak" })); }
                if !g && !strong && !maybe_weak && !empty { report_fail("GRANT", T_GRANT, format!("after all threads ended, mutable access to {}..{} was refused although no other handle refers to it", rec.lo, rec.hi)); }
                if way == 1 {
                    let Obj::S(s) = o else { unreachable!() };
                    match lib(|| ArcSlice::into_mut(s)) {
                        Ok(m) => {
                            if strong { report_fail("GRANT", T_GRANT, "after all threads ended, exclusive ownership was granted although another strong handle overlaps".into()); std::mem::forget(m); return; }
                            read_slice(&m, rec.lo, rec.hi, "final into_mut slice", &mut r);
                            // Weak handles into it must be dead now
                            for (o, x) in &held { if let Obj::W(w) = o { if x.tree == rec.tree && overlaps(x, &rec) { if let Some(s) = lib(|| w.upgrade()) { std::mem::forget(s); report_fail("UPGRADE", T_WEAK, "upgraded a weak handle to items that are exclusively owned".into()); std::mem::forget(m); return; } } } }
                            o = Obj::M(m);
                        }
                        Err(s) => {
                            if !strong && !empty { report_fail("GRANT", T_GRANT, "after all threads ended, exclusive ownership was refused although no other strong handle overlaps".into()); }
                            o = Obj::S(s);
                        }
                    }
                }
            }
            Obj::W(w) if rec.lo < rec.hi => {
                let x = lib(|| w.upgrade());
                *counts.entry("final-upgrade").or_insert(0) += 1;
                let certain = held.iter().any(|(o, x)| matches!(o, Obj::S(_)) && x.tree == rec.tree && within(&rec, x));
                let possible = (rec.lo..rec.hi).all(|p| held.iter().any(|(o, x)| matches!(o, Obj::S(_)) && x.tree == rec.tree && x.lo <= p && p < x.hi));
                match x {
                    Some(s) => {
                        if !possible { report_fail("UPGRADE", T_WEAK, format!("after all threads ended, upgraded {:?} whose items have no owner in the tree", rec)); std::mem::forget(s); return; }
                        read_slice(&s, rec.lo, rec.hi, "finally upgraded handle", &mut r);
                        lib(move || drop(s));
                    }
                    None => if certain { report_fail("UPGRADE", T_WEAK, format!("after all threads ended, failed to upgrade {:?} although its items are alive", rec)); },
                }
            }
            _ => {}
        }
        if FAILED.load(Relaxed) { std::mem::forget(o); break; }
        lib(move || drop(o));
        drops_ok(&held);
    }
    if FAILED.load(Relaxed) { std::mem::forget(held); return; }
    drop(held);
    if SHADOW {
        if alloc::live_tracked() != 0 { report_fail("LEAK", c(3), format!("{} heap blocks are still allocated after every handle is gone", alloc::live_tracked())); }
        alloc::flush();
        let e = alloc::take_errs();
        if e != 0 { report_fail("MEM", c(3) | c(14) | c(17), alloc::err_text(e)); }
    }
}

/// A barrier that synchronises by spinning, so that threads leave it together.
struct Spin { n: usize, arrived: AtomicUsize, gen: AtomicUsize }
impl Spin {
    fn wait(&self) {
        let g = self.gen.load(Acquire);
        if self.arrived.fetch_add(1, AcqRel) + 1 == self.n {
            self.arrived.store(0, Relaxed);
            self.gen.fetch_add(1, Release);
        } else {
            let mut k = 0u32;
            while self.gen.load(Acquire) == g {
                k += 1;
                if cfg!(miri) || k > 3000 { std::thread::yield_now(); } else { std::hint::spin_loop(); }
            }
        }
    }
}

#[derive(Default)]
pub struct CStats { programs: u64, counts: BTreeMap<&'static str, u64>, sigs: HashSet<u64>, shapes: HashSet<u64>, events: u64, overlapping: u64, places: HashSet<u64> }

struct Built { prog: Prog, shared: Vec<Held>, srecs: Vec<Rec>, give: Vec<Mutex<Option<Vec<(Obj, Rec)>>>> }

fn build(seed: u64, theme: &str) -> Built {
    let prog = gen(seed, theme);
    CLOCK.store(1, SeqCst);
    TREES.store(1, SeqCst);
    HAPPENED.store(if prog.mutable { c(9) } else { 0 }, Relaxed);
    for i in 0..MAXN { STATE[i].store(0, Relaxed); READERS[i].store(0, Relaxed); WRITER[i].store(0, Relaxed); }
    if SHADOW { alloc::reset_live(); alloc::take_errs(); }
    let mut log = Log::default();
    let mut r = Rng::new(seed ^ 77);
    let n = prog.len;
    let root = tracking(true, || { let v: Vec<CTok> = (0..n).map(|i| CTok::new(i as u32)).collect(); if prog.mutable { Obj::M(ArcSliceMut::from_vec(v)) } else { Obj::S(ArcSlice::from_vec(v)) } });
    let i = if prog.mutable { log.add(K::M, 0, 0, n, 0, 0) } else { log.add(K::S, 1, 0, n, 0, 0) };
    let mut held = vec![(root, i)];
    for &(op, a) in &prog.init {
        if op == Op::DropS && held.len() < 3 { continue; }
        // Only splits, to have several pieces to hand out
        if prog.mutable { if let Some(i) = pick(&held, a, K::M) { m_op(if a & 16 == 0 { 1 } else { 5 }, i, &mut held, &mut log, &mut r); } continue; }
        exec(op, a, 1, &mut held, &[], &[], &mut log, &mut r);
    }
    let mut give: Vec<Vec<(Obj, Rec)>> = (0..prog.threads).map(|_| vec![]).collect();
    let mut shared = vec![];
    let mut srecs = vec![];
    for (j, (o, i)) in held.into_iter().enumerate() {
        let mut rec = log.recs[i].clone();
        rec.c0 = 0;
        rec.c1 = 0;
        if srecs.len() < prog.shared && j > 0 && kind(&o) != K::M { shared.push((o, srecs.len())); srecs.push(rec); continue; }
        give[prog.give[j % 16] as usize % prog.threads].push((o, rec));
    }
    REENT.store(!prog.inner.is_empty(), SeqCst);
    CLOCK.store(1, SeqCst);
    Built { prog, shared, srecs, give: give.into_iter().map(|g| Mutex::new(Some(g))).collect() }
}

type Out = Vec<(Log, Vec<(Obj, Rec)>)>;
fn thread_body(b: &Built, t: usize, seed: u64) -> Out {
    let mine = b.give[t].lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
    let mut log = Log::default();
    let mut r = Rng::new(seed ^ mix(t as u64 + 1));
    let mut held: Vec<Held> = vec![];
    let mut stash = b.prog.inner.get(t).map(|plan| Box::new(Stash { held: vec![], log: Log::default(), r: Rng::new(seed ^ mix(t as u64 + 11)), plan: plan.clone(), bombs: b.prog.bombs, armed: false, ran: 0 }));
    for (o, rec) in mine {
        let (l, h) = match &mut stash { Some(s) if r.chance(2, 5) => (&mut s.log, &mut s.held), _ => (&mut log, &mut held) };
        l.recs.push(rec);
        h.push((o, l.recs.len() - 1));
    }
    if let Some(s) = stash { ME.with(|m| m.set(t)); *my_stash() = Some(s); }
    let mut pace = r.clone();
    let ops = b.prog.ops[t].clone();
    let slow = pace.chance(1, 3);
    inject::enter(t, seed ^ mix(t as u64 + 77));
    (|| {
        for (op, a, bb) in ops {
            if FAILED.load(Relaxed) { break; }
            if sim::IS { sim::op(name(op)); } else if INJECT.load(Relaxed) { inject::boundary(); inject::plan(op as usize); } else if slow || pace.chance(1, 2) { jitter(&mut pace); }
            let res = catch_unwind(AssertUnwindSafe(|| exec(op, a, bb, &mut held, &b.shared, &b.srecs, &mut log, &mut r)));
            inject::done();
            if let Err(p) = res {
                report_fail("PANIC", T_ALL | op_tags(op), format!("{:?} panicked: {}", op, panic_text(p)));
                break;
            }
        }
    })();
    inject::leave();
    let mut out = vec![];
    if !b.prog.inner.is_empty() {
        if let Some(s) = my_stash().take() {
            let s = *s;
            if s.ran > 0 { *log.counts.entry("ops-in-destructors").or_insert(0) += s.ran; }
            if s.bombs < b.prog.bombs { *log.counts.entry("panicking-destructors").or_insert(0) += (b.prog.bombs - s.bombs) as u64; }
            out.push((s.log, s.held));
        }
    }
    out.insert(0, (log, held));
    out.into_iter().map(|(log, held)| { let left = held.into_iter().map(|(o, i)| (o, log.recs[i].clone())).collect(); (log, left) }).collect()
}

fn wrap_up(b: Built, seed: u64, outs: Out, st: &mut CStats, sync: bool) {
    if FAILED.load(Relaxed) { std::mem::forget(outs); std::mem::forget(b); return; }
    let mut slog = Log::default();
    slog.recs = b.srecs.clone();
    let mut logs: Vec<&Log> = outs.iter().map(|o| &o.0).collect();
    logs.push(&slog);
    if let Some((k, t, m)) = check_history(&logs, sync) {
        report_fail(k, t, m);
        std::mem::forget(outs);
        std::mem::forget(b);
        return;
    }
    let mut sig = seed;
    let mut killed = vec![];
    // Order in which the threads' events fell, as a measure of interleavings seen
    let mut order: Vec<(u64, usize)> = vec![];
    for (t, (l, _)) in outs.iter().enumerate() {
        for r in &l.recs { for s in [r.c0, r.c1, r.d0, r.d1] { if s != u64::MAX && s > 0 { order.push((s, t)); } } }
        for e in &l.evs {
            order.push((e.call, t));
            order.push((e.ret, t));
            if e.k == EK::IntoMut && e.ok { let r = &l.recs[e.rec]; killed.push((r.tree, r.lo, r.hi)); }
        }
        for (k, n) in &l.counts { *st.counts.entry(k).or_insert(0) += n; }
        sig = mix(sig ^ l.sig);
        st.events += l.evs.len() as u64;
    }
    order.sort_unstable();
    order.dedup();
    let mut switches = 0;
    for w in order.windows(2) { sig = mix(sig ^ w[1].1 as u64); if w[0].1 != w[1].1 { switches += 1; } }
    if switches > b.prog.threads { st.overlapping += 1; }
    if !sim::IS && st.sigs.len() < 200_000 { st.sigs.insert(sig); }
    if st.shapes.len() < 3_000_000 { st.shapes.insert(mix(seed)); }
    st.programs += 1;
    let mut left: Vec<(Obj, Rec)> = outs.into_iter().flat_map(|o| o.1).collect();
    left.extend(b.shared.into_iter().map(|(o, i)| (o, b.srecs[i].clone())));
    let (n, fin) = (b.prog.len, b.prog.fin);
    drop(b.give);
    REENT.store(false, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| quiesce(left, n, &killed, fin, &mut st.counts)));
    if let Err(p) = r { report_fail("PANIC", T_ALL, format!("after all threads ended: {}", panic_text(p))); }
}

fn finish(theme: &str, seed: u64, st: &CStats) {
    let f = FAIL.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(f) = f {
        report::fail(&f, "conc", "arc", theme, seed, &show(seed, theme));
        stats(st);
        std::process::exit(3);
    }
}

fn stats(st: &CStats) {
    let parts: Vec<String> = st.counts.iter().map(|(k, n)| format!("{}:{}", report::esc(k), n)).collect();
    report::sigs("conc", &st.sigs);
    report::sigs("place", &st.places.iter().map(|x| x >> 3).collect());
    let (pauses, steps, steals) = inject::totals();
    let (points, switches, stale, accesses, atomics) = sim::totals();
    report::line(&format!("@STATS {{\"engine\":\"conc\",\"sim_points\":{},\"sim_switches\":{},\"stale_loads\":{},\"accesses_checked\":{},\"atomics_modelled\":{},\"preemptions\":{},\"instructions_stepped\":{},\"holder_blocked\":{},\"programs\":{},\"fallible_ops\":{},\"interleaved\":{},\"sigs\":{},\"distinct_programs\":{},\"counts\":{{{}}}}}",
        points, switches, stale, accesses, atomics, pauses, steps, steals, st.programs, st.events, st.overlapping, st.sigs.len(), st.shapes.len(), parts.join(",")));
}

fn set_tags() { CUR_TAGS.store(T_ALL as u64, Relaxed); }

/// Native stress: threads persist across programs and start each together.
/// Each program is run `reps` times, since every run interleaves differently.
pub fn stress(theme: &str, seed0: u64, count: u64, reps: u64, secs: f64, inj: bool, exact: bool) {
    set_tags();
    if inj { inject::install(); INJECT.store(true, SeqCst); }
    let mut st = CStats::default();
    let nthreads = 3;
    let t0 = crate::now();
    let cur: Mutex<Option<(std::sync::Arc<Built>, u64)>> = Mutex::new(None);
    let bar = Spin { n: nthreads, arrived: AtomicUsize::new(0), gen: AtomicUsize::new(0) };
    let outs: Vec<Mutex<Option<Out>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
    let stop = AtomicBool::new(false);
    let mut seed = 0;
    std::thread::scope(|sc| {
        for t in 1..nthreads {
            let (cur, bar, outs, stop) = (&cur, &bar, &outs, &stop);
            sc.spawn(move || loop {
                bar.wait();
                if stop.load(Acquire) { break; }
                let (b, s) = { let g = cur.lock().unwrap(); let x = g.as_ref().unwrap(); (x.0.clone(), x.1) };
                bar.wait();
                if t < b.prog.threads { let o = thread_body(&b, t, s); *outs[t].lock().unwrap() = Some(o); }
                drop(b);
                bar.wait();
            });
        }
        'outer: for i in 0..count {
            seed = if exact { seed0 } else { mix(seed0.wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d)) };
            if secs > 0.0 && crate::now() - t0 > secs { break; }
            report::progress(seed);
            for rep in 0..reps {
                let b = std::sync::Arc::new(build(seed, theme));
                let s = seed ^ mix(rep) ^ if exact { mix(i) } else { 0 };
                if inj { inject::prepare(b.prog.threads, s as usize >> 8); }
                *cur.lock().unwrap() = Some((b.clone(), s));
                bar.wait();
                bar.wait();
                let o = thread_body(&b, 0, s);
                *outs[0].lock().unwrap() = Some(o);
                bar.wait();
                if inj { inject::off(); let p = &mut st.places; inject::places(|x| { if p.len() < 100_000 { p.insert(x); } }); }
                *cur.lock().unwrap() = None;
                let v: Vec<_> = outs.iter().take(b.prog.threads).flat_map(|m| m.lock().unwrap().take().unwrap()).collect();
                let Ok(b) = std::sync::Arc::try_unwrap(b) else { unreachable!() };
                wrap_up(b, seed, v, &mut st, true);
                OPCTR.fetch_add(1, Relaxed);
                if FAILED.load(Relaxed) { break 'outer; }
            }
        }
        stop.store(true, Release);
        bar.wait();
    });
    finish(theme, seed, &st);
    stats(&st);
}

static SIM_AT: Mutex<(String, u64)> = Mutex::new((String::new(), 0));
pub fn happened() -> Tags { HAPPENED.load(Relaxed) as Tags }
/// The simulation saw a failure: nothing can go on after it.
pub fn sim_fail(kind: &'static str, tags: Tags, msg: String) -> ! {
    let g = SIM_AT.lock().unwrap_or_else(|e| e.into_inner());
    report::fail(&Fail { kind, tags, msg }, "conc", "arc", &g.0, g.1, &show(g.1, &g.0));
    std::process::exit(3);
}

/// Simulated threads: each program under `reps` schedules.
pub fn simulate(theme: &str, seed0: u64, count: u64, reps: u64, secs: f64, exact: bool) {
    set_tags();
    if !sim::IS { eprintln!("not a simulation build"); std::process::exit(64); }
    sim::setup();
    let mut st = CStats::default();
    let t0 = crate::now();
    SIM_AT.lock().unwrap().0 = theme.into();
    let mut seed = 0;
    'outer: for i in 0..count {
        if i % 16 == 0 && secs > 0.0 && crate::now() - t0 > secs { break; }
        seed = if exact { seed0 } else { mix(seed0.wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d)) };
        report::progress(seed);
        SIM_AT.lock().unwrap().1 = seed;
        let mut length = 60;
        for rep in 0..reps {
            let mut r = Rng::new(seed ^ mix(rep + 5));
            let b = build(seed, theme);
            let sync = rep % 2 == 0;
            SYNC.store(sync, Relaxed);
            // Few preemptions at arbitrary points, or many
            let (p, changes) = match rep % 8 {
                0 => (128, vec![]),
                1 => (40, vec![]),
                2 | 3 => (0, vec![1 + r.below(length) as u32]),
                4 | 5 => (0, (0..2).map(|_| 1 + r.below(length) as u32).collect()),
                6 => (0, (0..3).map(|_| 1 + r.below(length) as u32).collect()),
                _ => (8, (0..r.below(3)).map(|_| 1 + r.below(length) as u32).collect()),
            };
            let n = b.prog.threads;
            let outs: std::cell::RefCell<Vec<Option<Out>>> = std::cell::RefCell::new((0..n).map(|_| None).collect());
            sim::run(sim::Plan { seed: seed ^ mix(rep + 9), n, first: r.below(n), p, changes, weak: r.chance(2, 3), sync }, &|t| { let o = thread_body(&b, t, seed); outs.borrow_mut()[t] = Some(o); });
            if rep < 2 { length = (sim::points() as usize).max(4); }
            let sg = mix(sim::sig() ^ seed);
            if st.sigs.len() < 1_000_000 { st.sigs.insert(sg); }
            let outs = outs.into_inner().into_iter().flat_map(|o| o.unwrap()).collect();
            wrap_up(b, seed, outs, &mut st, sync);
            OPCTR.fetch_add(1, Relaxed);
            if FAILED.load(Relaxed) { break 'outer; }
        }
    }
    finish(theme, seed, &st);
    stats(&st);
}

/// For the interpreter: fresh threads for each program.
pub fn few(theme: &str, seed0: u64, count: u64, secs: f64, exact: bool) {
    set_tags();
    let mut st = CStats::default();
    let t0 = crate::now();
    for i in 0..count {
        if secs > 0.0 && crate::now() - t0 > secs { break; }
        let seed = if exact { seed0 } else { mix(seed0.wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d)) };
        report::progress(seed);
        // With relaxed stamps the monitor adds no synchronisation that could hide a race
        let sync = mix(seed) % 4 == 0;
        SYNC.store(sync, SeqCst);
        let b = build(seed, theme);
        let bar = Spin { n: b.prog.threads, arrived: AtomicUsize::new(0), gen: AtomicUsize::new(0) };
        let mut outs = vec![];
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..b.prog.threads).map(|t| { let (b, bar) = (&b, &bar); sc.spawn(move || { bar.wait(); thread_body(b, t, seed) }) }).collect();
            for h in hs { if let Ok(o) = h.join() { outs.extend(o); } }
        });
        wrap_up(b, seed, outs, &mut st, sync);
        finish(theme, seed, &st);
    }
    stats(&st);
}
