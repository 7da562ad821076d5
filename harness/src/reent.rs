//! Re-entrant monitor: items whose destructor calls back into the library on
//! handles of the same buffers, and items that own handles of other buffers.
//! At every quiet point, and inside every destructor before it acts, each handle
//! the program holds must show live items only, and no item may be visible both
//! through an exclusive handle and through another one. In the end every item
//! must have been dropped once and all memory be released.

use crate::alloc::{self, tracking, SHADOW};
use crate::fam::{ArcF, Fam, RcF};
use crate::report;
use crate::rng::{mix, Rng};
use crate::tags::*;
use crate::world::{panic_text, CUR_TAGS, OPCTR};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

const MAGIC: u32 = 0x1735_c0de;

struct RI<F: Fam> { magic: u32, id: u32, own: Option<Box<dyn Any>>, _f: std::marker::PhantomData<F> }

enum H<F: Fam> {
    S(F::S<RI<F>>), W(F::W<RI<F>>), P(F::P<RI<F>>), M(F::M<RI<F>>), I(F::I<RI<F>>), Q(F::MP<RI<F>>), O(RI<F>),
}

#[derive(Default)]
struct Env {
    state: Vec<u8>, // 1 live, 2 dropped
    buf_of: Vec<u32>,
    pos_of: Vec<u32>,
    /// Buffer that items cloned now go to
    clone_buf: u32,
    stash: Vec<Box<dyn Any>>,
    /// Set while the stash's handles must not be touched
    busy: bool,
    fail: Option<Fail>,
    budget: u32,
    bufs: u32,
    counts: BTreeMap<&'static str, u64>,
    sig: u64,
    trace: Option<String>,
}

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
    static RNG: RefCell<Rng> = RefCell::new(Rng::new(1));
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static ARC: Cell<bool> = const { Cell::new(false) };
}

fn env<R>(f: impl FnOnce(&mut Env) -> R) -> R { tracking(false, || ENV.with(|e| f(&mut e.borrow_mut()))) }
fn rnd(n: usize) -> usize { RNG.with(|r| r.borrow_mut().below(n)) }
fn chance(a: usize, b: usize) -> bool { rnd(b) < a }

fn base_tags() -> Tags { if ARC.with(|a| a.get()) { c(2) } else { c(1) } }
fn bad(kind: &'static str, extra: Tags, msg: String) {
    let tags = base_tags() | extra | c(16);
    env(|e| if e.fail.is_none() { e.fail = Some(Fail { kind, tags, msg: format!("{} (destructors of items were calling into the library)", msg) }) });
}
fn failed() -> bool { env(|e| e.fail.is_some()) }
fn note(s: impl FnOnce() -> String) { tracking(false, || { if env(|e| e.trace.is_some()) { let s = s(); let d = DEPTH.with(|d| d.get()); env(|e| { let t = e.trace.as_mut().unwrap(); for _ in 0..d { t.push_str("  "); } t.push_str(&s); t.push('\n'); }) } }) }

impl<F: Fam> RI<F> {
    fn new(buf: u32, pos: u32, own: Option<Box<dyn Any>>) -> Self {
        let id = env(|e| { e.state.push(1); e.buf_of.push(buf); e.pos_of.push(pos); (e.state.len() - 1) as u32 });
        RI { magic: MAGIC, id, own, _f: std::marker::PhantomData }
    }
    fn live(&self) -> bool { self.magic == MAGIC && env(|e| e.state.get(self.id as usize) == Some(&1)) }
}

/// Call the library from inside an item's code.
fn reenter<F: Fam>(key: &'static str) {
    if std::thread::panicking() || failed() { return; }
    let d = DEPTH.with(|d| d.get());
    if d >= 5 { return; }
    DEPTH.with(|x| x.set(d + 1));
    let n = if chance(1, 2) { 0 } else { 1 + rnd(3) };
    for _ in 0..n {
        let go = env(|e| { if e.budget == 0 { false } else { e.budget -= 1; true } });
        if !go || failed() { break; }
        env(|e| *e.counts.entry(key).or_insert(0) += 1);
        act::<F>();
        check_stash::<F>();
    }
    DEPTH.with(|x| x.set(d));
}

impl<F: Fam> Clone for RI<F> {
    fn clone(&self) -> Self {
        let (buf, pos) = env(|e| (e.clone_buf, e.pos_of[self.id as usize]));
        if !self.live() { bad("VIEW", c(9) | c(17), "an item was cloned that was dropped or never existed".into()); }
        reenter::<F>("ops-in-clone");
        tracking(false, || RI::new(buf, pos, None))
    }
}

impl<F: Fam> PartialEq for RI<F> {
    fn eq(&self, o: &Self) -> bool {
        reenter::<F>("ops-in-eq");
        if !self.live() || !o.live() { bad("VIEW", c(11) | c(17), "items were compared that were dropped or never existed".into()); }
        self.id == o.id
    }
}

impl<F: Fam> Drop for RI<F> {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            bad("DROP", c(17), "drop ran on memory that holds no live item".into());
            std::mem::forget(self.own.take());
            return;
        }
        self.magic = 0xdead_dead;
        let id = self.id;
        let first = env(|e| { let s = std::mem::replace(&mut e.state[id as usize], 2); *e.counts.entry("drops").or_insert(0) += 1; s == 1 });
        if !first { bad("DROP", 0, format!("item {} was dropped twice", id)); std::mem::forget(self.own.take()); return; }
        note(|| format!("drop item {}", id));
        reenter::<F>("ops-in-drop");
    }
}

fn check_items<F: Fam>(s: &[RI<F>], excl: bool, seen: &mut HashMap<u32, bool>, what: &str) {
    let mut prev: Option<(u32, u32)> = None;
    for it in s {
        if !it.live() {
            let t = if ARC.with(|a| a.get()) { c(2) } else { c(1) };
            bad("VIEW", t | c(17) | c(8), format!("a live {} shows an item that was dropped or never existed", what));
            return;
        }
        let (b, pos) = env(|e| (e.buf_of[it.id as usize], e.pos_of[it.id as usize]));
        if let Some((pi, pb)) = prev {
            if pos != pi + 1 || b != pb { bad("VIEW", c(4), format!("items of a {} are out of place", what)); return; }
        }
        prev = Some((pos, b));
        if let Some(&e0) = seen.get(&it.id) {
            if e0 || excl { bad("EXCL", group(G::Grant, F::ARC) | c(9) | c(17), format!("item {} is reachable through an exclusive handle and another one", it.id)); return; }
        }
        if excl || !seen.contains_key(&it.id) { seen.insert(it.id, excl); }
    }
}

fn check_stash<F: Fam>() {
    if failed() { return; }
    // Take the handles out so that nothing runs while they are borrowed
    let stash = env(|e| std::mem::take(&mut e.stash));
    tracking(false, || {
        let mut seen = HashMap::new();
        for b in &stash {
            match b.downcast_ref::<H<F>>().unwrap() {
                H::S(s) => check_items::<F>(s, false, &mut seen, "immutable slice"),
                H::P(p) => check_items::<F>(F::p_as_slice(p), false, &mut seen, "parts iterator"),
                H::M(m) => check_items::<F>(m, true, &mut seen, "mutable slice"),
                H::I(i) => check_items::<F>(F::i_as_slice(i), true, &mut seen, "item iterator"),
                H::Q(q) => check_items::<F>(F::mp_as_slice(q), true, &mut seen, "mutable parts iterator"),
                H::O(o) => check_items::<F>(std::slice::from_ref(o), true, &mut seen, "moved-out item"),
                H::W(_) => {}
            }
        }
        env(|e| { *e.counts.entry("view-checks").or_insert(0) += 1; e.stash = stash; });
    });
}

fn put<F: Fam>(h: H<F>) { tracking(false, || { let b: Box<dyn Any> = Box::new(h); env(|e| e.stash.push(b)); }) }
fn unbox<F: Fam>(b: Box<dyn Any>) -> H<F> { tracking(false, || *b.downcast::<H<F>>().ok().unwrap()) }
fn pull<F: Fam>() -> Option<H<F>> {
    let n = env(|e| e.stash.len());
    if n == 0 { return None; }
    let i = rnd(n);
    Some(unbox(env(|e| e.stash.swap_remove(i))))
}

fn lib<R>(f: impl FnOnce() -> R) -> R {
    OPCTR.fetch_add(1, Relaxed);
    let r = tracking(true, f);
    OPCTR.fetch_add(1, Relaxed);
    r
}

fn build<F: Fam>() {
    let n = [1usize, 1, 2, 2, 3, 4, 4, 5, 7, 8][rnd(10)];
    let buf = env(|e| { e.bufs += 1; e.bufs });
    let owning = chance(1, 2);
    let mut owns: Vec<Option<Box<dyn Any>>> = vec![];
    for _ in 0..n {
        // Handles that exist now can't lead to the new buffer, so no cycles
        let o = if owning && chance(1, 3) { pull::<F>() } else { None };
        owns.push(tracking(false, || o.map(|h| Box::new(Nested::<F>(Some(h))) as Box<dyn Any>)));
    }
    let v: Vec<RI<F>> = tracking(true, || { let mut v = Vec::with_capacity(n); for (i, o) in owns.into_iter().enumerate() { let it = RI::new(buf, i as u32, o); v.push(it); } v });
    note(|| format!("build buffer {} of {} items{}", buf, n, if owning { ", some owning handles" } else { "" }));
    if chance(1, 6) {
        let s = lib(|| F::s_collect(v.into_iter().inspect(|_| reenter::<F>("ops-in-iterator"))));
        put(H::<F>::S(s));
    } else if chance(1, 4) { let m = lib(|| F::m_from_vec(v)); put(H::<F>::M(m)); } else { let s = lib(|| F::s_from_vec(v)); put(H::<F>::S(s)); }
}

/// A handle owned by an item: once the item is dropped, so is the handle.
struct Nested<F: Fam>(Option<H<F>>);
impl<F: Fam> Drop for Nested<F> {
    fn drop(&mut self) {
        env(|e| *e.counts.entry("nested-drops").or_insert(0) += 1);
        let h = self.0.take();
        tracking(true, || drop(h));
    }
}

/// One library operation on a random handle.
fn act<F: Fam>() {
    if env(|e| e.stash.len()) > 24 { if let Some(h) = pull::<F>() { note(|| "drop handle".into()); lib(move || drop(h)); } return; }
    let Some(h) = pull::<F>() else { return };
    let k = rnd(13);
    let name: &'static str;
    match h {
        H::S(mut s) => match k {
            0 => { name = "clone"; let r = lib(|| s.clone()); put(H::<F>::S(s)); put(H::<F>::S(r)); }
            1 => { name = "clone_left"; let r = lib(|| F::clone_left(&s)); put(H::<F>::S(s)); put(H::<F>::S(r)); }
            2 => { name = "clone_right"; let r = lib(|| F::clone_right(&s)); put(H::<F>::S(s)); put(H::<F>::S(r)); }
            3 => { name = "split_off_left"; let r = lib(|| F::split_left(&mut s)); put(H::<F>::S(s)); put(H::<F>::S(r)); }
            4 => { name = "split_off_right"; let r = lib(|| F::split_right(&mut s)); put(H::<F>::S(s)); put(H::<F>::S(r)); }
            5 => {
                name = "get_mut";
                // A cell of stashed handles can't be reached while this borrow lives
                let mut msg = false;
                {
                    let r = lib(|| F::get_mut(&mut s));
                    if let Some(x) = r { msg = true; tracking(false, || { let mut seen = others::<F>(); check_items::<F>(x, true, &mut seen, "mutable borrow"); }); }
                }
                env(|e| *e.counts.entry(if msg { "get_mut-some" } else { "get_mut-none" }).or_insert(0) += 1);
                put(H::<F>::S(s));
            }
            6 => { name = "into_mut"; match lib(|| F::into_mut(s)) { Ok(m) => put(H::<F>::M(m)), Err(s) => put(H::<F>::S(s)) } }
            7 => { name = "downgrade"; let w = lib(|| F::downgrade(&s)); put(H::<F>::S(s)); put(H::<F>::W(w)); }
            8 => { name = "split_into_parts"; let n = 1 << rnd(4); let p = lib(|| F::parts(s, n)); put(H::<F>::P(p)); }
            9 => {
                name = "compare";
                let mut t = None;
                if let Some(o) = pull::<F>() { if let H::S(x) = o { t = Some(x); } else { put(o); } }
                let x = t.unwrap_or_else(|| s.clone());
                let want = s.len() == x.len() && s.iter().zip(x.iter()).all(|(a, b)| a.id == b.id);
                let got = lib(|| F::s_eq(&s, &x));
                if got != want { bad("EQ", c(11), format!("comparing two slices gave {}", got)); }
                put(H::<F>::S(s));
                put(H::<F>::S(x));
            }
            _ => { name = "drop slice"; note(|| format!("drop slice at items {:?}", s.first().map(|i| i.id))); lib(move || drop(s)); }
        },
        H::W(w) => match k {
            0..=6 => {
                name = "upgrade";
                let r = lib(|| F::upgrade(&w));
                env(|e| *e.counts.entry(if r.is_some() { "upgrade-some" } else { "upgrade-none" }).or_insert(0) += 1);
                put(H::<F>::W(w));
                if let Some(s) = r {
                    tracking(false, || check_items::<F>(&s, false, &mut HashMap::new(), "upgraded slice"));
                    put(H::<F>::S(s));
                }
            }
            7 => { name = "clone weak"; let r = lib(|| w.clone()); put(H::<F>::W(w)); put(H::<F>::W(r)); }
            _ => { name = "drop weak"; lib(move || drop(w)); }
        },
        H::P(mut p) => match k {
            0..=3 => { name = "parts next"; let r = lib(|| p.next()); put(H::<F>::P(p)); if let Some(s) = r { put(H::<F>::S(s)); } }
            4..=6 => { name = "parts next_back"; let r = lib(|| p.next_back()); put(H::<F>::P(p)); if let Some(s) = r { put(H::<F>::S(s)); } }
            7 => { name = "parts clone"; let r = lib(|| p.clone()); put(H::<F>::P(p)); put(H::<F>::P(r)); }
            _ => { name = "drop parts"; lib(move || drop(p)); }
        },
        H::M(mut m) => match k {
            0 => { name = "mut split_off_left"; let r = lib(|| F::m_split_left(&mut m)); put(H::<F>::M(m)); put(H::<F>::M(r)); }
            1 => { name = "mut split_off_right"; let r = lib(|| F::m_split_right(&mut m)); put(H::<F>::M(m)); put(H::<F>::M(r)); }
            2..=5 => { name = "into_immut"; let s = lib(|| F::into_immut(m)); put(H::<F>::S(s)); }
            6 => { name = "into_iter"; let i = lib(|| m.into_iter()); put(H::<F>::I(i)); }
            7 => { name = "mut split_into_parts"; let n = 1 << rnd(4); let q = lib(|| F::m_parts(m, n)); put(H::<F>::Q(q)); }
            8 | 9 => {
                name = "mut clone";
                let old = env(|e| { e.bufs += 1; std::mem::replace(&mut e.clone_buf, e.bufs) });
                let r = lib(|| F::m_clone(&m));
                env(|e| e.clone_buf = old);
                if r.len() != m.len() { bad("CLONE", c(9), format!("the clone of a mutable slice of {} items has {}", m.len(), r.len())); }
                put(H::<F>::M(m));
                put(H::<F>::M(r));
            }
            _ => { name = "drop mut"; lib(move || drop(m)); }
        },
        H::I(mut i) => match k {
            0..=2 => { name = "iter next"; let r = lib(|| i.next()); put(H::<F>::I(i)); if let Some(o) = r { if chance(1, 2) { put(H::<F>::O(o)) } else { lib(move || drop(o)) } } }
            3..=5 => { name = "iter next_back"; let r = lib(|| i.next_back()); put(H::<F>::I(i)); if let Some(o) = r { if chance(1, 2) { put(H::<F>::O(o)) } else { lib(move || drop(o)) } } }
            6 => { name = "iter split_off_from"; let at = rnd(i.len() + 1); let r = lib(|| F::i_split_from(&mut i, at)); put(H::<F>::I(i)); put(H::<F>::I(r)); }
            7 => { name = "iter split_off_to"; let at = rnd(i.len() + 1); let r = lib(|| F::i_split_to(&mut i, at)); put(H::<F>::I(i)); put(H::<F>::I(r)); }
            _ => { name = "drop iter"; lib(move || drop(i)); }
        },
        H::Q(mut q) => match k {
            0..=3 => { name = "mut parts next"; let r = lib(|| q.next()); put(H::<F>::Q(q)); if let Some(m) = r { put(H::<F>::M(m)); } }
            4..=7 => { name = "mut parts next_back"; let r = lib(|| q.next_back()); put(H::<F>::Q(q)); if let Some(m) = r { put(H::<F>::M(m)); } }
            _ => { name = "drop mut parts"; lib(move || drop(q)); }
        },
        H::O(o) => { name = "drop item"; lib(move || drop(o)); }
    }
    note(|| name.to_string());
    env(|e| { *e.counts.entry(name).or_insert(0) += 1; e.sig = mix(e.sig ^ mix(name.len() as u64 * 31 + name.as_bytes()[name.len() - 1] as u64 + ((name.as_bytes()[0] as u64) << 20)) ^ DEPTH.with(|d| d.get()) as u64); });
}

/// Items reachable through the stash.
fn others<F: Fam>() -> HashMap<u32, bool> {
    let mut seen = HashMap::new();
    env(|e| {
        for b in &e.stash {
            let (s, x): (&[RI<F>], bool) = match b.downcast_ref::<H<F>>().unwrap() {
                H::S(s) => (s, false), H::P(p) => (F::p_as_slice(p), false), H::M(m) => (m, true), H::I(i) => (F::i_as_slice(i), true),
                H::Q(q) => (F::mp_as_slice(q), true), H::O(o) => (std::slice::from_ref(o), true), H::W(_) => continue,
            };
            for it in s { seen.insert(it.id, x); }
        }
    });
    seen
}

pub struct RStats { programs: u64, nontrivial: u64, sigs: HashSet<u64>, counts: BTreeMap<&'static str, u64> }

fn program<F: Fam>(seed: u64, max_ops: usize) {
    ARC.with(|a| a.set(F::ARC));
    CUR_TAGS.store((base_tags() | c(16) | c(12)) as u64, Relaxed);
    let trace = std::env::var("RCSV_TRACE").is_ok();
    env(|e| { *e = Env { budget: 60, ..Env::default() }; if trace { e.trace = Some(String::new()); } });
    RNG.with(|r| *r.borrow_mut() = Rng::new(seed));
    DEPTH.with(|d| d.set(0));
    if SHADOW { alloc::reset_live(); alloc::take_errs(); }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let n = 3 + rnd(max_ops);
        for i in 0..n {
            if failed() { return; }
            if i == 0 || chance(1, 10) { build::<F>(); } else { act::<F>(); }
            check_stash::<F>();
            quiet_errs();
        }
        // Wind down in a random order; destructors may still add handles
        let mut guard = 0;
        while env(|e| !e.stash.is_empty()) {
            guard += 1;
            if failed() { return; }
            if guard > 4000 { env(|e| e.budget = 0); }
            if let Some(h) = pull::<F>() { lib(move || drop(h)); }
            check_stash::<F>();
            quiet_errs();
        }
    }));
    if let Err(p) = r { bad("PANIC", c(12), format!("a call with valid arguments panicked: {}", panic_text(p))); }
    if failed() { let s = env(|e| std::mem::take(&mut e.stash)); std::mem::forget(s); if SHADOW { alloc::take_errs(); } return; }
    let left = env(|e| e.state.iter().filter(|&&s| s == 1).count());
    if left > 0 { bad("DROP", 0, format!("{} items were never dropped although every handle is gone", left)); return; }
    if SHADOW {
        let n = alloc::live_tracked();
        if n != 0 { bad("LEAK", c(3), format!("{} heap blocks are still allocated although every handle is gone", n)); }
        alloc::flush();
        quiet_errs();
    }
}

fn quiet_errs() {
    if SHADOW { let e = alloc::take_errs(); if e != 0 { bad("MEM", c(3) | c(17), alloc::err_text(e)); } }
}

// The stash's own boxes are made with tracking off, so they aren't counted.

fn go<F: Fam>(seed0: u64, count: u64, max_ops: usize, secs: f64, exact: bool, st: &mut RStats) {
    let t0 = crate::now();
    for i in 0..count {
        if secs > 0.0 && crate::now() - t0 > secs { break; }
        let seed = if exact { seed0 } else { mix(seed0.wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d)) };
        report::progress(seed);
        program::<F>(seed, max_ops);
        let (f, sig, counts, tr) = env(|e| (e.fail.take(), e.sig, std::mem::take(&mut e.counts), e.trace.take()));
        if let Some(t) = tr { println!("{}", t); }
        if counts.get("ops-in-drop").copied().unwrap_or(0) > 0 || counts.get("nested-drops").copied().unwrap_or(0) > 0 { st.nontrivial += 1; if st.sigs.len() < 200_000 { st.sigs.insert(sig); } }
        for (k, n) in counts { *st.counts.entry(k).or_insert(0) += n; }
        st.programs += 1;
        if let Some(f) = f {
            report::fail(&f, "reent", F::NAME, "", seed, &max_ops.to_string());
            stats(st);
            std::process::exit(3);
        }
    }
}

fn stats(st: &RStats) {
    let parts: Vec<String> = st.counts.iter().map(|(k, n)| format!("{}:{}", report::esc(k), n)).collect();
    report::sigs("reent", &st.sigs);
    report::line(&format!("@STATS {{\"engine\":\"reent\",\"histories\":{},\"nontrivial\":{},\"sigs\":{},\"counts\":{{{}}}}}", st.programs, st.nontrivial, st.sigs.len(), parts.join(",")));
}

pub fn run(fam: &str, seed: u64, count: u64, max_ops: usize, secs: f64, exact: bool) {
    let mut st = RStats { programs: 0, nontrivial: 0, sigs: HashSet::new(), counts: BTreeMap::new() };
    if fam == "rc" { go::<RcF>(seed, count, max_ops, secs, exact, &mut st) } else { go::<ArcF>(seed, count, max_ops, secs, exact, &mut st) }
    stats(&st);
}
