//! Does the simulation's memory model allow and forbid what it should? Small
//! programs with known outcomes; run before its verdicts are relied upon.

#![cfg(rcsv_sim)]
use crate::alloc::{self, tracking};
use crate::sim;
use std::cell::{RefCell, UnsafeCell};
use std::collections::BTreeSet;
use std::sync::atomic::{fence, AtomicU64, Ordering::{self, *}};

#[repr(align(64))]
struct Mem { x: AtomicU64, y: AtomicU64, d: UnsafeCell<u64> }

/// All outcomes seen over many schedules; None if a data race was found
fn explore(n: usize, body: &dyn Fn(usize, &Mem) -> u64) -> Option<BTreeSet<Vec<u64>>> {
    let mut seen = BTreeSet::new();
    for k in 0..4000u64 {
        alloc::reset_live();
        let m = tracking(true, || Box::new(Mem { x: AtomicU64::new(0), y: AtomicU64::new(0), d: UnsafeCell::new(0) }));
        let out = RefCell::new(vec![0; n]);
        let p = [128, 40, 0, 0][k as usize % 4];
        sim::catch_races(true);
        sim::run(sim::Plan { seed: crate::rng::mix(k), n, first: k as usize % n, p, changes: vec![1 + (k % 9) as u32], weak: true, sync: false }, &|t| { sim::set_inlib(true); let r = body(t, &m); sim::set_inlib(false); out.borrow_mut()[t] = r; });
        let raced = sim::catch_races(false);
        drop(m);
        alloc::flush();
        if raced { return None; }
        seen.insert(out.into_inner());
    }
    Some(seen)
}

#[sanitize(thread = "on")]
fn mp(st: Ordering, ld: Ordering) -> impl Fn(usize, &Mem) -> u64 {
    move |t, m| if t == 0 { m.x.store(1, Relaxed); m.y.store(1, st); 0 } else { let a = m.y.load(ld); let b = m.x.load(Relaxed); a * 10 + b }
}
#[sanitize(thread = "on")]
#[inline(never)]
fn write_plain(m: &Mem, v: u64) { unsafe { m.d.get().write_volatile(v) } }
#[sanitize(thread = "on")]
#[inline(never)]
fn read_plain(m: &Mem) -> u64 { unsafe { m.d.get().read_volatile() } }

fn expect(name: &str, got: Option<BTreeSet<Vec<u64>>>, want: Option<&[&[u64]]>) {
    let want: Option<BTreeSet<Vec<u64>>> = want.map(|w| w.iter().map(|x| x.to_vec()).collect());
    if got != want { eprintln!("litmus test {}: outcomes {:?}, expected {:?}", name, got, want); std::process::exit(70); }
}

pub fn run() {
    sim::setup();
    let all: &[&[u64]] = &[&[0, 0], &[0, 1], &[0, 10], &[0, 11]];
    let mp_ok: &[&[u64]] = &[&[0, 0], &[0, 1], &[0, 11]];
    expect("MP relaxed", explore(2, &mp(Relaxed, Relaxed)), Some(all));
    expect("MP release+relaxed", explore(2, &mp(Release, Relaxed)), Some(all));
    expect("MP relaxed+acquire", explore(2, &mp(Relaxed, Acquire)), Some(all));
    expect("MP release+acquire", explore(2, &mp(Release, Acquire)), Some(mp_ok));
    expect("MP fences", explore(2, &|t, m| if t == 0 { m.x.store(1, Relaxed); fence(Release); m.y.store(1, Relaxed); 0 } else { let a = m.y.load(Relaxed); fence(Acquire); a * 10 + m.x.load(Relaxed) }), Some(mp_ok));
    expect("SB", explore(2, &|t, m| if t == 0 { m.x.store(1, Release); m.y.load(Acquire) } else { m.y.store(1, Release); m.x.load(Acquire) }), Some(&[&[0, 0], &[0, 1], &[1, 0], &[1, 1]]));
    expect("SB seqcst", explore(2, &|t, m| if t == 0 { m.x.store(1, SeqCst); m.y.load(SeqCst) } else { m.y.store(1, SeqCst); m.x.load(SeqCst) }), Some(&[&[0, 1], &[1, 0], &[1, 1]]));
    expect("coherence", explore(2, &|t, m| if t == 0 { m.x.store(1, Relaxed); m.x.store(2, Relaxed); 0 } else { let a = m.x.load(Relaxed); let b = m.x.load(Relaxed); (a > b) as u64 }), Some(&[&[0, 0]]));
    expect("counting", explore(3, &|_, m| { m.x.fetch_add(1, Relaxed); 0 }).map(|_| BTreeSet::new()), Some(&[]));
    // Plain data handed over
    let hand = |st: Ordering, ld: Ordering| explore(2, &move |t, m| { if t == 0 { write_plain(m, 7); m.y.store(1, st); } else if m.y.load(ld) == 1 { return read_plain(m); } 0 });
    expect("handover release+acquire", hand(Release, Acquire), Some(&[&[0, 0], &[0, 7]]));
    expect("handover relaxed", hand(Relaxed, Acquire), None);
    expect("handover relaxed load", hand(Release, Relaxed), None);
    expect("no handover", explore(2, &|t, m| { if t == 0 { write_plain(m, 7) } else { read_plain(m); } 0 }), None);
    // Reference counting: whoever gives up last may write
    let count = |o: Ordering, f: bool| explore(3, &move |_, m| { read_plain(m); if m.x.fetch_add(1, o) == 2 { if f { fence(Acquire); } write_plain(m, 1); } 0 });
    expect("last release, acquire fence", count(Release, true), Some(&[&[0, 0, 0]]));
    expect("last acq_rel", count(AcqRel, false), Some(&[&[0, 0, 0]]));
    expect("last release, no fence", count(Release, false), None);
    expect("last relaxed, acquire fence", count(Relaxed, true), None);
    // A lock by compare-and-swap
    let lock = |a: Ordering, r: Ordering| explore(2, &move |_, m| { while m.x.compare_exchange(0, 1, a, Relaxed).is_err() {} write_plain(m, 3); m.x.store(0, r); 0 });
    expect("lock", lock(Acquire, Release), Some(&[&[0, 0]]));
    expect("lock without acquire", lock(Relaxed, Release), None);
    expect("lock without release", lock(Acquire, Relaxed), None);
    // A release sequence goes through another thread's read-modify-write, but not its store
    let rs = |rmw: bool| explore(3, &move |t, m| { match t { 0 => { write_plain(m, 7); m.y.store(1, Release); } 1 => { if m.y.load(Relaxed) == 1 { if rmw { m.y.fetch_add(1, Relaxed); } else { m.y.store(2, Relaxed); } } } _ => if m.y.load(Acquire) == 2 { read_plain(m); } } 0 });
    expect("release sequence", rs(true), Some(&[&[0, 0, 0]]));
    expect("broken release sequence", rs(false), None);
    println!("litmus tests passed");
}
