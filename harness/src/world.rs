//! Sequential monitor: runs a tape of operations against the real library and
//! against a small reference model side by side, and compares after every
//! operation the result, the item drops that happened, the contents and
//! addresses seen through live handles, and the state of the backing memory.

use crate::alloc::{self, tracking, SHADOW};
use crate::fam::Fam;
use crate::items::{self, ledger, Item, ARM_CLONE, ARM_DROP, FIRED, St};
use crate::rng::mix;
use crate::tags::*;
use std::collections::{HashSet, VecDeque};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Op = [u32; 4];
pub type Tape = Vec<Op>;

macro_rules! ops {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u32)]
        pub enum O { $($name),* }
        pub const OPS: &[O] = &[$(O::$name),*];
        pub const OP_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
ops!(
    NewS, NewM, CloneS, CloneLeft, CloneRight, SplitL, SplitR, SParts, PNext, PNextBack, PClone, PMisc, PConsume,
    GetMut, IntoMut, Downgrade, WNew, WClone, Upgrade, DropAny, DropS, DropW, MSplitL, MSplitR, MIntoImmut, MWrite,
    MIntoIter, MParts, MClone, INext, INextBack, ISplitFrom, ISplitTo, IWrite, IMisc, IConsume, MPNext, MPNextBack,
    MPWrite, MPConsume, Invalid, ArmDrop, ArmClone, ArmCollect, Nth,
);

/// Bumped around each library call; read by the watchdog
pub static OPCTR: AtomicU64 = AtomicU64::new(0);
/// (op number << 8) | tags are kept here for the watchdog
pub static CUR_TAGS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy)]
struct Cel { id: u32, val: u32, present: bool }

struct Buf {
    base: usize,
    cells: Vec<Cel>,
    cover: Vec<u16>,
    /// Has a backing block
    block: bool,
}

#[derive(Clone)]
struct SM { buf: usize, lo: usize, hi: usize, tree: u32, nohold: bool, up: bool }
#[derive(Clone)]
struct WM { buf: usize, lo: usize, hi: usize, tree: u32, killed: bool, never: bool }
#[derive(Clone)]
struct PM { buf: usize, tree: u32, parts: VecDeque<(usize, usize)>, up: bool }
#[derive(Clone)]
struct MM { buf: usize, lo: usize, hi: usize, nohold: bool }
#[derive(Clone)]
struct MPM { buf: usize, parts: VecDeque<(usize, usize)> }

enum H<F: Fam, T: Item> {
    S(F::S<T>, SM),
    W(F::W<T>, WM),
    P(F::P<T>, PM),
    M(F::M<T>, MM),
    I(F::I<T>, MM),
    MP(F::MP<T>, MPM),
    /// An item moved out of an iterator
    Own(T, u32, u32),
}

#[derive(Default)]
pub struct Stats {
    pub ops: Vec<u64>,
    pub outcomes: std::collections::BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub sigs: HashSet<u64>,
    pub histories: u64,
    pub nontrivial: u64,
    pub checks: u64,
    pub drops: u64,
}

impl Stats {
    pub fn count(&mut self, k: &'static str) { *self.outcomes.entry(k).or_insert(0) += 1; }
}

pub struct World<'a, F: Fam, T: Item> {
    h: Vec<H<F, T>>,
    bufs: Vec<Buf>,
    trees: u32,
    vals: u32,
    expect: Vec<u32>,
    armed: bool,
    pub trace: Option<String>,
    pub st: &'a mut Stats,
    sig: u64,
    pub max_len: usize,
    pub max_handles: usize,
}

pub fn parts_of(lo: usize, hi: usize, n: usize, out: &mut VecDeque<(usize, usize)>) {
    if n == 1 { out.push_back((lo, hi)); return; }
    let mid = lo + (hi - lo) / 2;
    parts_of(lo, mid, n / 2, out);
    parts_of(mid, hi, n / 2, out);
}

fn span(p: &VecDeque<(usize, usize)>) -> (usize, usize) {
    match (p.front(), p.back()) { (Some(a), Some(b)) => (a.0, b.1), _ => (0, 0) }
}

fn overlaps(a: (usize, usize), b: (usize, usize)) -> bool { a.0.max(b.0) < a.1.min(b.1) }
fn within(a: (usize, usize), b: (usize, usize)) -> bool { a.0 >= b.0 && a.1 <= b.1 }

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "?".into() }
}

const LENS: &[usize] = &[0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 9, 10, 12, 13, 15, 16, 17, 20, 23, 31, 32, 33, 64, 100];

impl<'a, F: Fam, T: Item> World<'a, F, T> {
    pub fn new(st: &'a mut Stats) -> Self {
        items::reset();
        if st.ops.is_empty() { st.ops = vec![0; OPS.len()]; }
        World { h: vec![], bufs: vec![], trees: 0, vals: 0, expect: vec![], armed: false,
                trace: None, st, sig: 0, max_len: 64, max_handles: 20 }
    }

    fn note(&mut self, s: std::fmt::Arguments<'_>) {
        if let Some(t) = &mut self.trace { let _ = t.write_fmt(s); t.push('\n'); }
    }

    fn sgn(&mut self, x: u64) { self.sig = mix(self.sig ^ x); }

    fn zt(&self) -> Tags { if T::ZST { c(13) } else { 0 } }
    fn gt(&self, g: G) -> Tags { group(g, F::ARC) | self.zt() }
    fn drop_tag(&self) -> Tags { (if F::ARC { c(2) } else { c(1) }) | self.zt() }

    /// Call into the library.
    fn call<R>(&mut self, g: G, f: impl FnOnce() -> R) -> Res<R> {
        let tags = self.gt(g);
        match self.call_catch(g, f) {
            Ok(r) => Ok(r),
            Err(p) => fail("PANIC", tags | c(12), format!("a call with valid arguments panicked: {}", panic_text(p))),
        }
    }

    fn call_catch<R>(&mut self, g: G, f: impl FnOnce() -> R) -> std::thread::Result<R> {
        CUR_TAGS.store((self.gt(g) | c(16)) as u64, Ordering::Relaxed);
        OPCTR.fetch_add(1, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| tracking(true, f)));
        OPCTR.fetch_add(1, Ordering::Relaxed);
        r
    }

    // ---- model bookkeeping ----

    fn cov_add(&mut self, buf: usize, lo: usize, hi: usize) {
        for c in &mut self.bufs[buf].cover[lo..hi] { *c += 1; }
    }
    fn cov_sub(&mut self, buf: usize, lo: usize, hi: usize) {
        let b = &mut self.bufs[buf];
        for i in lo..hi {
            b.cover[i] -= 1;
            if b.cover[i] == 0 && b.cells[i].present {
                b.cells[i].present = false;
                if T::TRACK { self.expect.push(b.cells[i].id); }
            }
        }
    }

    fn take(&mut self, i: usize) -> H<F, T> { self.h.swap_remove(i) }

    fn pick(&self, a: u32, f: impl Fn(&H<F, T>) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.h.len()).filter(|&i| f(&self.h[i])).collect();
        if v.is_empty() { None } else { Some(v[a as usize % v.len()]) }
    }
    fn pick_s(&self, a: u32) -> Option<usize> { self.pick(a, |h| matches!(h, H::S(..))) }
    fn pick_w(&self, a: u32) -> Option<usize> { self.pick(a, |h| matches!(h, H::W(..))) }
    fn pick_p(&self, a: u32) -> Option<usize> { self.pick(a, |h| matches!(h, H::P(..))) }
    fn pick_m(&self, a: u32) -> Option<usize> { self.pick(a, |h| matches!(h, H::M(..))) }
    fn pick_i(&self, a: u32) -> Option<usize> { self.pick(a, |h| matches!(h, H::I(..))) }
    fn pick_mp(&self, a: u32) -> Option<usize> { self.pick(a, |h| matches!(h, H::MP(..))) }

    /// Other strong handles overlapping this range. The tags say what kind of
    /// handle is in the way.
    fn strong_conflict(&self, buf: usize, r: (usize, usize)) -> (bool, bool) {
        let (mut any, mut up) = (false, false);
        for h in &self.h {
            match h {
                H::S(_, m) if m.buf == buf && overlaps((m.lo, m.hi), r) => { any = true; up |= m.up; }
                H::P(_, m) if m.buf == buf && overlaps(span(&m.parts), r) => { any = true; up |= m.up; }
                _ => {}
            }
        }
        (any, up)
    }

    /// Is there a handle to an empty subslice that may descend from this range?
    /// Those own no item, so both a grant and a refusal are right.
    fn empty_in_way(&self, tree: u32, r: (usize, usize), weak: bool) -> bool {
        let e = |lo: usize, hi: usize| lo == hi && lo >= r.0 && lo <= r.1;
        self.h.iter().any(|h| match h {
            H::S(_, m) => m.tree == tree && e(m.lo, m.hi),
            H::P(_, m) => m.tree == tree && m.parts.iter().any(|p| e(p.0, p.1)),
            H::W(_, m) => weak && m.tree == tree && !m.never && e(m.lo, m.hi),
            _ => false,
        })
    }

    /// Is the referent of a weak handle (certainly, possibly) kept alive by the
    /// present strong handles?
    fn alive(&self, w: &WM) -> (bool, bool) {
        if w.never || w.killed { return (false, false); }
        if w.lo == w.hi { return (false, true); }
        let mut cov = vec![false; w.hi - w.lo];
        for h in &self.h {
            let (r, whole) = match h {
                H::S(_, m) if m.buf == w.buf && m.tree == w.tree => ((m.lo, m.hi), true),
                H::P(_, m) if m.buf == w.buf && m.tree == w.tree => {
                    if m.parts.iter().any(|&p| within((w.lo, w.hi), p)) { return (true, true); }
                    (span(&m.parts), false)
                }
                _ => continue,
            };
            if whole && within((w.lo, w.hi), r) { return (true, true); }
            for x in r.0.max(w.lo)..r.1.min(w.hi) { cov[x - w.lo] = true; }
        }
        (false, cov.iter().all(|&x| x))
    }

    fn new_items(&mut self, n: usize, cap: usize) -> (Vec<T>, Vec<Cel>) {
        let mut v = tracking(true, || Vec::with_capacity(cap.max(n)));
        let mut cells = Vec::with_capacity(n);
        for _ in 0..n {
            self.vals += 1;
            let v0 = self.vals;
            let it = tracking(true, || T::make(v0));
            cells.push(Cel { id: it.id(), val: self.vals, present: true });
            v.push(it);
        }
        (v, cells)
    }

    fn add_buf(&mut self, base: usize, cells: Vec<Cel>) -> usize {
        let n = cells.len();
        self.bufs.push(Buf { base, cover: vec![0; n], cells, block: n > 0 && !T::ZST });
        self.bufs.len() - 1
    }

    // ---- observation ----

    fn check_slice(&self, s: &[T], buf: usize, lo: usize, hi: usize, g: G, what: &str) -> Res {
        let b = &self.bufs[buf];
        let tags = self.gt(g);
        if s.len() != hi - lo {
            return fail("VIEW", tags, format!("{}: length is {}, expected {}", what, s.len(), hi - lo));
        }
        if s.is_empty() { return Ok(()); }
        if T::ZST {
            if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                return fail("VIEW", tags, format!("{}: misaligned slice", what));
            }
            if !T::TRACK { return Ok(()); }
        } else {
            let want = b.base + lo * std::mem::size_of::<T>();
            if s.as_ptr() as usize != want {
                return fail("VIEW", tags, format!("{}: starts at byte offset {} of its buffer, expected {}", what,
                    s.as_ptr() as isize - b.base as isize, lo * std::mem::size_of::<T>()));
            }
        }
        for (i, it) in s.iter().enumerate() {
            let c = &b.cells[lo + i];
            if !c.present { return fail("VIEW", tags, format!("harness: item {} not present in the model", lo + i)); }
            if !it.matches(c.id, c.val) {
                return fail("VIEW", tags, format!("{}: item {} is not the expected live item (id {} value {}): {:?}", what, lo + i, c.id, c.val,
                    if T::IDS { it.id() as i64 } else { -1 }));
            }
        }
        Ok(())
    }

    fn check_handle(&self, h: &H<F, T>) -> Res {
        match h {
            H::S(s, m) => self.check_slice(s, m.buf, m.lo, m.hi, G::S, "immutable slice"),
            H::W(..) => Ok(()),
            H::P(p, m) => {
                let (lo, hi) = span(&m.parts);
                self.check_slice(F::p_as_slice(p), m.buf, lo, hi, G::P, "remaining parts")?;
                self.check_len(p.len(), p.size_hint(), m.parts.len(), G::P)
            }
            H::M(s, m) => self.check_slice(s, m.buf, m.lo, m.hi, G::M, "mutable slice"),
            H::I(i, m) => {
                self.check_slice(F::i_as_slice(i), m.buf, m.lo, m.hi, G::I, "remaining items")?;
                self.check_len(i.len(), i.size_hint(), m.hi - m.lo, G::I)
            }
            H::MP(p, m) => {
                let (lo, hi) = span(&m.parts);
                self.check_slice(F::mp_as_slice(p), m.buf, lo, hi, G::MP, "remaining mutable parts")?;
                self.check_len(p.len(), p.size_hint(), m.parts.len(), G::MP)
            }
            H::Own(t, id, val) => {
                if t.matches(*id, *val) { Ok(()) } else { fail("VIEW", self.gt(G::I), "an item moved out of an iterator changed".into()) }
            }
        }
    }

    fn check_len(&self, len: usize, hint: (usize, Option<usize>), want: usize, g: G) -> Res {
        if len != want || hint != (want, Some(want)) {
            return fail("LEN", self.gt(g), format!("iterator reports len {} and size hint {:?} with {} left", len, hint, want));
        }
        Ok(())
    }

    fn check_views(&mut self, g: G) -> Res {
        self.st.checks += 1;
        OPCTR.fetch_add(1, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| {
            for h in &self.h { self.check_handle(h)?; }
            Ok(())
        }));
        match r {
            Ok(r) => r.map_err(|mut f: Fail| { f.tags |= self.gt(g); f }),
            Err(p) => fail("PANIC", self.gt(g) | c(12), format!("reading through a handle panicked: {}", panic_text(p))),
        }
    }

    /// Compare what happened to items and memory with the model.
    fn settle(&mut self, g: G) -> Res {
        let panicked = self.armed && FIRED.with(|f| f.replace(false));
        self.armed = false;
        let (mut drops, errs) = ledger(|l| (std::mem::take(&mut l.drops), std::mem::take(&mut l.errs)));
        self.st.drops += drops.len() as u64;
        let mut exp = std::mem::take(&mut self.expect);
        let mut tags = self.drop_tag() | (self.gt(g) & !c(4));
        if panicked { tags |= c(12); }
        if let Some(e) = errs.first() {
            return fail("DROP", tags | c(17), e.clone());
        }
        if T::TRACK {
            drops.sort_unstable();
            exp.sort_unstable();
            if drops != exp {
                let early: Vec<_> = if T::IDS { drops.iter().filter(|d| !exp.contains(d)).collect() } else { vec![] };
                let late: Vec<_> = if T::IDS { exp.iter().filter(|d| !drops.contains(d)).collect() } else { vec![] };
                return fail("DROP", tags, format!("{} items were dropped, {} should have been; dropped while still owned: {:?}; not dropped with their last owner: {:?}",
                    drops.len(), exp.len(), early, late));
            }
        }
        self.check_mem()?;
        Ok(())
    }

    fn check_mem(&mut self) -> Res {
        if !SHADOW { return Ok(()); }
        let e = alloc::take_errs();
        if e != 0 { return fail("MEM", c(3) | c(17) | self.zt(), alloc::err_text(e)); }
        for (bi, b) in self.bufs.iter().enumerate() {
            if !b.block { continue; }
            let (mut must, mut may) = (false, false);
            for h in &self.h {
                let (buf, nonempty, nohold) = match h {
                    H::S(_, m) => (m.buf, m.lo < m.hi, m.nohold),
                    H::P(_, m) => { let s = span(&m.parts); (m.buf, s.0 < s.1, false) }
                    H::M(_, m) => (m.buf, m.lo < m.hi, m.nohold),
                    H::I(_, m) => (m.buf, m.lo < m.hi, m.nohold),
                    H::MP(_, m) => { let s = span(&m.parts); (m.buf, s.0 < s.1, false) }
                    _ => continue,
                };
                if buf != bi { continue; }
                if nonempty { must = true; may = true; }
                if !nohold { may = true; }
            }
            let live = alloc::is_live(b.base);
            if must && !live {
                return fail("MEM", c(3) | c(17), "the backing memory was released while a handle still refers to items in it".into());
            }
            if !may && live {
                return fail("LEAK", c(3), "the backing memory was not released with the last handle".into());
            }
        }
        Ok(())
    }

    fn push_new_s(&mut self, s: F::S<T>, buf: usize, lo: usize, hi: usize, tree: u32, nohold: bool, up: bool) {
        self.cov_add(buf, lo, hi);
        let nohold = nohold && lo == hi;
        self.h.push(H::S(s, SM { buf, lo, hi, tree, nohold, up }));
    }

    fn new_tree(&mut self) -> u32 { self.trees += 1; self.trees }

    /// Write through a mutable slice, in both worlds.
    fn mutate(&mut self, s: &mut [T], buf: usize, lo: usize, a: u32, b: u32) {
        let n = s.len();
        if n == 0 { return; }
        let (x, y) = (b as usize % n, (b >> 8) as usize % n);
        match a % 6 {
            0 => { self.vals += 1; let v = self.vals; s[x].bump(v); self.bufs[buf].cells[lo + x].val = v; }
            1 => self.replace(s, buf, lo, x),
            2 => { s.swap(x, y); self.bufs[buf].cells.swap(lo + x, lo + y); }
            3 => { s.reverse(); self.bufs[buf].cells[lo..lo + n].reverse(); }
            4 => { s.rotate_left(x); self.bufs[buf].cells[lo..lo + n].rotate_left(x); }
            _ => for i in 0..n.min(16) { self.replace(s, buf, lo, i); },
        }
    }
    fn replace(&mut self, s: &mut [T], buf: usize, lo: usize, x: usize) {
        self.vals += 1;
        let v = self.vals;
        let it = tracking(true, || T::make(v));
        let c = &mut self.bufs[buf].cells[lo + x];
        if T::TRACK { self.expect.push(c.id); }
        *c = Cel { id: it.id(), val: v, present: true };
        s[x] = it;
    }

    fn release_model(&mut self, h: &H<F, T>) {
        match h {
            H::S(_, m) => self.cov_sub(m.buf, m.lo, m.hi),
            H::P(_, m) => for &(l, r) in &m.parts { self.cov_sub(m.buf, l, r) },
            H::M(_, m) | H::I(_, m) => self.cov_sub(m.buf, m.lo, m.hi),
            H::MP(_, m) => for &(l, r) in &m.parts { self.cov_sub(m.buf, l, r) },
            H::Own(_, id, _) => if T::TRACK { self.expect.push(*id) },
            H::W(..) => {}
        }
    }

    fn gof(h: &H<F, T>) -> G {
        match h { H::S(..) => G::S, H::W(..) => G::Weak, H::P(..) => G::P, H::M(..) => G::M, H::I(..) => G::I, H::MP(..) => G::MP, H::Own(..) => G::Own }
    }

    fn drop_handle(&mut self, i: usize) -> Res<G> {
        let h = self.take(i);
        let g = Self::gof(&h);
        self.release_model(&h);
        self.call(g, move || drop(h))?;
        Ok(g)
    }

    /// A fresh buffer: returns it in whichever container the constructor needs.
    fn construct(&mut self, a: u32, b: u32, c_: u32, mutable: bool) -> Res {
        let mut n = LENS[a as usize % LENS.len()];
        if n > self.max_len { n %= self.max_len + 1; }
        let variant = b % 7;
        let spare = if variant == 1 || variant == 3 { (c_ % 9) as usize } else { 0 };
        let (v, cells) = self.new_items(n, n + spare);
        let addr = if spare == 0 && v.capacity() == v.len() { Some(v.as_ptr() as usize) } else { None };
        let mut exact = addr;
        enum E<F: Fam, T: Item> { S(F::S<T>), M(F::M<T>) }
        let e: E<F, T> = if mutable {
            E::M(self.call(G::New, || match variant {
                0 | 1 => F::m_from_vec(v),
                2 => F::m_from_box(v.into_boxed_slice()),
                3 => F::m_from_vec2(v),
                4 => F::m_from_box2(v.into_boxed_slice()),
                5 => F::m_collect(v.into_iter()),
                _ => { let mut it = v.into_iter(); F::m_collect(std::iter::from_fn(move || it.next())) }
            })?)
        } else {
            E::S(self.call(G::New, || match variant {
                0 | 1 => F::s_from_vec(v),
                2 => F::s_from_box(v.into_boxed_slice()),
                3 => F::s_from_vec2(v),
                4 => F::s_from_box2(v.into_boxed_slice()),
                5 => F::s_collect(v.into_iter()),
                _ => { let mut it = v.into_iter(); F::s_collect(std::iter::from_fn(move || it.next())) }
            })?)
        };
        if variant >= 5 { exact = None; }
        let base = match &e { E::S(s) => s.as_ptr() as usize, E::M(m) => m.as_ptr() as usize };
        if let Some(x) = exact {
            if n > 0 && !T::ZST && x != base {
                return fail("VIEW", self.gt(G::New), "constructing from a vector or box without spare capacity moved the items".into());
            }
        }
        let len = match &e { E::S(s) => s.len(), E::M(m) => m.len() };
        if len != n { return fail("VIEW", self.gt(G::New), format!("constructed slice has length {}, expected {}", len, n)); }
        let buf = self.add_buf(base, cells);
        match e {
            E::S(s) => { let t = self.new_tree(); self.push_new_s(s, buf, 0, n, t, false, false); }
            E::M(m) => { self.cov_add(buf, 0, n); self.h.push(H::M(m, MM { buf, lo: 0, hi: n, nohold: false })); }
        }
        let i = self.h.len() - 1;
        self.check_handle(&self.h[i]).map_err(|mut f| { f.tags |= self.gt(G::New); f })?;
        self.note(format_args!("  len {} variant {}", n, variant));
        Ok(())
    }

    fn num_parts(a: u32) -> usize {
        const N: &[usize] = &[1, 2, 2, 4, 4, 8, 8, 16, 16, 32, 64, 128, 1024];
        N[a as usize % N.len()]
    }

    pub fn step(&mut self, op: Op) -> Res {
        let [o, a, b, c_] = op;
        let mut o = OPS[o as usize % OPS.len()];
        if self.h.len() > self.max_handles && (c_ % 3) != 0 { o = O::DropAny; }
        // Mostly work on few buffers rather than many
        if matches!(o, O::NewS | O::NewM) && self.bufs.len() > self.max_handles % 4 && !self.h.is_empty() {
            o = if c_ % 2 == 0 { if self.pick_s(0).is_some() { O::CloneLeft } else { O::MSplitL } } else if self.pick_m(0).is_some() { O::MSplitR } else { O::CloneRight };
        }
        let before = self.st.ops[o as usize];
        let label = OP_NAMES[o as usize];
        if self.trace.is_some() { let s = self.describe(); self.note(format_args!("{} {} {} {}   [{}]", label, a, b, c_, s)); }
        let g = self.exec(o, a, b, c_)?;
        if let Some(g) = g {
            self.st.ops[o as usize] = before + 1;
            self.sgn(o as u64);
            self.settle(g)?;
            self.check_views(g)?;
            let s = self.state_sig();
            self.sgn(s);
            if self.st.states.len() < 200_000 { self.st.states.insert(s); }
        }
        Ok(())
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for h in &self.h {
            let _ = match h {
                H::S(_, m) => write!(s, " S{}.{}[{}..{}]", m.buf, m.tree, m.lo, m.hi),
                H::W(_, m) => write!(s, " W{}.{}[{}..{}]{}", m.buf, m.tree, m.lo, m.hi, if m.killed || m.never { "x" } else { "" }),
                H::P(_, m) => { let x = span(&m.parts); write!(s, " P{}.{}[{}..{}/{}]", m.buf, m.tree, x.0, x.1, m.parts.len()) }
                H::M(_, m) => write!(s, " M{}[{}..{}]", m.buf, m.lo, m.hi),
                H::I(_, m) => write!(s, " I{}[{}..{}]", m.buf, m.lo, m.hi),
                H::MP(_, m) => { let x = span(&m.parts); write!(s, " Q{}[{}..{}/{}]", m.buf, x.0, x.1, m.parts.len()) }
                H::Own(..) => write!(s, " o"),
            };
        }
        s
    }

    fn state_sig(&self) -> u64 {
        let mut acc = 0u64;
        for h in &self.h {
            let (k, b, l, r, x) = match h {
                H::S(_, m) => (1, m.buf, m.lo, m.hi, 0),
                H::W(_, m) => (2, m.buf, m.lo, m.hi, m.killed as usize),
                H::P(_, m) => { let s = span(&m.parts); (3, m.buf, s.0, s.1, m.parts.len()) }
                H::M(_, m) => (4, m.buf, m.lo, m.hi, 0),
                H::I(_, m) => (5, m.buf, m.lo, m.hi, 0),
                H::MP(_, m) => { let s = span(&m.parts); (6, m.buf, s.0, s.1, m.parts.len()) }
                H::Own(..) => (7, 0, 0, 0, 0),
            };
            let n = self.bufs.get(b).map_or(0, |b| b.cells.len());
            acc = acc.wrapping_add(mix(mix(mix(mix(k as u64) ^ n as u64) ^ ((l as u64) << 32 | r as u64)) ^ x as u64));
        }
        mix(acc)
    }

    /// None: not applicable in this state.
    fn exec(&mut self, o: O, a: u32, b: u32, c_: u32) -> Res<Option<G>> {
        Ok(Some(match o {
            O::NewS => { self.construct(a, b, c_, false)?; G::New }
            O::NewM => { self.construct(a, b, c_, true)?; G::New }
            O::CloneS => {
                let Some(i) = self.pick_s(a) else { return Ok(None) };
                let h = self.take(i);
                let H::S(s, m) = h else { unreachable!() };
                let r = self.call(G::S, || s.clone())?;
                self.h.push(H::S(s, m.clone()));
                self.push_new_s(r, m.buf, m.lo, m.hi, m.tree, m.nohold, false);
                G::S
            }
            O::CloneLeft | O::CloneRight => {
                let Some(i) = self.pick_s(a) else { return Ok(None) };
                let left = o == O::CloneLeft;
                let H::S(s, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::S, || if left { F::clone_left(&s) } else { F::clone_right(&s) })?;
                let mid = m.lo + (m.hi - m.lo) / 2;
                let (lo, hi) = if left { (m.lo, mid) } else { (mid, m.hi) };
                let nohold = m.lo < m.hi || m.nohold;
                self.h.push(H::S(s, m.clone()));
                self.push_new_s(r, m.buf, lo, hi, m.tree, nohold, false);
                G::S
            }
            O::SplitL | O::SplitR => {
                let Some(i) = self.pick_s(a) else { return Ok(None) };
                let left = o == O::SplitL;
                let H::S(mut s, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::S, || if left { F::split_left(&mut s) } else { F::split_right(&mut s) })?;
                let mid = m.lo + (m.hi - m.lo) / 2;
                let nohold = m.lo < m.hi || m.nohold;
                let (this, new) = if left { ((mid, m.hi), (m.lo, mid)) } else { ((m.lo, mid), (mid, m.hi)) };
                self.push_new_s(s, m.buf, this.0, this.1, m.tree, nohold, false);
                self.push_new_s(r, m.buf, new.0, new.1, m.tree, nohold, false);
                self.cov_sub(m.buf, m.lo, m.hi);
                G::S
            }
            O::SParts => {
                let Some(i) = self.pick_s(a) else { return Ok(None) };
                let n = Self::num_parts(b);
                let H::S(s, m) = self.take(i) else { unreachable!() };
                let p = self.call(G::P, || F::parts(s, n))?;
                let mut parts = VecDeque::new();
                parts_of(m.lo, m.hi, n, &mut parts);
                self.h.push(H::P(p, PM { buf: m.buf, tree: m.tree, parts, up: m.up }));
                G::P
            }
            O::PNext | O::PNextBack => {
                let Some(i) = self.pick_p(a) else { return Ok(None) };
                let front = o == O::PNext;
                let reps = 1 + if c_ % 4 == 0 { b as usize % 5 } else { 0 };
                for _ in 0..reps {
                    let i = if reps == 1 { i } else { match self.pick_p(a) { Some(i) => i, None => break } };
                    let H::P(mut p, mut m) = self.take(i) else { unreachable!() };
                    let r = self.call(G::P, || if front { p.next() } else { p.next_back() })?;
                    let want = if front { m.parts.pop_front() } else { m.parts.pop_back() };
                    let (buf, tree, up) = (m.buf, m.tree, m.up);
                    self.h.push(H::P(p, m));
                    match (r, want) {
                        (None, None) => { self.st.count("parts-exhausted"); }
                        (Some(s), Some((lo, hi))) => {
                            self.h.push(H::S(s, SM { buf, lo, hi, tree, nohold: false, up }));
                            let i = self.h.len() - 1;
                            self.check_handle(&self.h[i]).map_err(|mut f| { f.tags |= self.gt(G::P); f })?;
                        }
                        (x, y) => return fail("ITER", self.gt(G::P), format!("parts iterator yielded {}, expected {:?}", x.map_or("nothing".into(), |s| format!("a slice of {}", s.len())), y)),
                    }
                    // Keep the population small
                    if self.h.len() > self.max_handles {
                        let j = self.h.len() - 1;
                        self.settle(G::P)?;
                        self.drop_handle(j)?;
                    }
                }
                G::P
            }
            O::PClone => {
                let Some(i) = self.pick_p(a) else { return Ok(None) };
                let H::P(p, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::P, || p.clone())?;
                for &(lo, hi) in &m.parts { self.cov_add(m.buf, lo, hi); }
                self.h.push(H::P(p, m.clone()));
                self.h.push(H::P(r, PM { up: false, ..m }));
                G::P
            }
            O::PMisc => {
                let Some(i) = self.pick_p(a) else { return Ok(None) };
                let H::P(p, m) = &self.h[i] else { unreachable!() };
                let (lo, hi) = span(&m.parts);
                let d = catch_unwind(AssertUnwindSafe(|| F::p_debug(p)));
                let want = format!("{:?}", &F::p_as_slice(p));
                match d {
                    Ok(d) => if !d.contains(&want) { return fail("DEBUG", self.gt(G::P) | c(11), format!("Debug output {} doesn't show the {} remaining items", d, hi - lo)); },
                    Err(e) => return fail("PANIC", self.gt(G::P) | c(12), panic_text(e)),
                }
                G::P
            }
            O::PConsume => {
                let Some(i) = self.pick_p(a) else { return Ok(None) };
                let H::P(p, m) = self.take(i) else { unreachable!() };
                let n = m.parts.len();
                match b % 4 {
                    0 => {
                        for &(l, r) in &m.parts { self.cov_sub(m.buf, l, r); }
                        let k = self.call(G::P, || p.count())?;
                        if k != n { return fail("ITER", self.gt(G::P), format!("count() is {}, expected {}", k, n)); }
                    }
                    1 => {
                        let want = m.parts.back().copied();
                        if let Some((l, r)) = want { self.cov_add(m.buf, l, r); }
                        for &(l, r) in &m.parts { self.cov_sub(m.buf, l, r); }
                        let r = self.call(G::P, || if b >> 2 & 1 == 0 { p.last() } else { p.reduce(|_, y| y) })?;
                        self.yielded_s(r, want, &m)?;
                    }
                    k => {
                        // Collect all, forwards or backwards
                        let how = b >> 2 << 1 | (k & 1);
                        let v: Vec<_> = self.call(G::P, || every(p, how))?;
                        if v.len() != n { return fail("ITER", self.gt(G::P), format!("{} parts yielded, expected {}", v.len(), n)); }
                        let mut parts: Vec<_> = m.parts.iter().copied().collect();
                        if how & 1 == 1 { parts.reverse(); }
                        for (s, &(lo, hi)) in v.iter().zip(&parts) {
                            self.check_slice(s, m.buf, lo, hi, G::P, "part")?;
                        }
                        let mut v: Vec<_> = v.into_iter().zip(parts).collect();
                        while v.len() > 6 {
                            let j = (mix(c_ as u64 ^ v.len() as u64) % v.len() as u64) as usize;
                            let (s, (lo, hi)) = v.swap_remove(j);
                            self.cov_sub(m.buf, lo, hi);
                            self.call(G::S, move || drop(s))?;
                        }
                        for (s, (lo, hi)) in v {
                            self.h.push(H::S(s, SM { buf: m.buf, lo, hi, tree: m.tree, nohold: false, up: false }));
                        }
                    }
                }
                G::P
            }
            O::GetMut => {
                let Some(i) = self.pick_s(a) else { return Ok(None) };
                let H::S(mut s, m) = self.take(i) else { unreachable!() };
                let (conflict, up) = self.strong_conflict(m.buf, (m.lo, m.hi));
                let (mut wk, mut maybe) = (false, m.lo == m.hi);
                for h in &self.h {
                    if let H::W(_, w) = h {
                        if w.never || w.killed || w.buf != m.buf || w.tree != m.tree || !overlaps((w.lo, w.hi), (m.lo, m.hi)) { continue; }
                        if within((w.lo, w.hi), (m.lo, m.hi)) { wk = true; } else if !conflict && self.alive(w).1 { maybe = true; }
                    }
                }
                let sp: *mut F::S<T> = &mut s;
                let r = self.call(G::Grant, || F::get_mut(unsafe { &mut *sp }).map(|x| x as *mut [T]))?;
                let t = self.gt(G::Grant);
                match r {
                    Some(x) => {
                        if conflict && !maybe { return fail("GRANT", t | if up { c(8) } else { 0 }, format!("mutable access to [{}..{}] granted although another strong handle overlaps it", m.lo, m.hi)); }
                        if wk && !maybe { return fail("GRANT", t, format!("mutable access to [{}..{}] granted although a weak handle refers to it", m.lo, m.hi)); }
                        self.st.count("get_mut-some");
                        let x = unsafe { &mut *x };
                        self.check_slice(x, m.buf, m.lo, m.hi, G::Grant, "get_mut slice")?;
                        let (bu, lo) = (m.buf, m.lo);
                        self.mutate(x, bu, lo, b, c_);
                    }
                    None => {
                        if !conflict && !wk && !maybe && !self.empty_in_way(m.tree, (m.lo, m.hi), true) { return fail("GRANT", t, format!("mutable access to [{}..{}] refused although no other handle refers to it", m.lo, m.hi)); }
                        self.st.count(if conflict { "get_mut-none-strong" } else { "get_mut-none-weak" });
                    }
                }
                self.h.push(H::S(s, m));
                G::Grant
            }
            O::IntoMut => {
                let Some(i) = self.pick_s(a) else { return Ok(None) };
                let H::S(s, m) = self.take(i) else { unreachable!() };
                let (conflict, up) = self.strong_conflict(m.buf, (m.lo, m.hi));
                let maybe = m.lo == m.hi;
                let r = self.call(G::Grant, || if b % 2 == 0 { F::into_mut(s) } else { F::try_from(s) })?;
                let t = self.gt(G::Grant);
                match r {
                    Ok(x) => {
                        if conflict && !maybe { std::mem::forget(x); return fail("GRANT", t | if up { c(8) } else { 0 }, format!("exclusive ownership of [{}..{}] granted although another strong handle overlaps it", m.lo, m.hi)); }
                        self.st.count("into_mut-ok");
                        self.check_slice(&x, m.buf, m.lo, m.hi, G::Grant, "into_mut slice")?;
                        for h in &mut self.h {
                            if let H::W(_, w) = h {
                                if w.buf == m.buf && w.tree == m.tree && overlaps((w.lo, w.hi), (m.lo, m.hi)) { w.killed = true; }
                            }
                        }
                        self.h.push(H::M(x, MM { buf: m.buf, lo: m.lo, hi: m.hi, nohold: m.nohold }));
                    }
                    Err(s) => {
                        if !conflict && !maybe && !self.empty_in_way(m.tree, (m.lo, m.hi), false) { return fail("GRANT", t, format!("exclusive ownership of [{}..{}] refused although no other strong handle overlaps it", m.lo, m.hi)); }
                        self.st.count("into_mut-err");
                        self.check_slice(&s, m.buf, m.lo, m.hi, G::Grant, "slice handed back")?;
                        self.h.push(H::S(s, m));
                    }
                }
                G::Grant
            }
            O::Downgrade => {
                let Some(i) = self.pick_s(a) else { return Ok(None) };
                let H::S(s, m) = self.take(i) else { unreachable!() };
                let w = self.call(G::Weak, || F::downgrade(&s))?;
                self.h.push(H::W(w, WM { buf: m.buf, lo: m.lo, hi: m.hi, tree: m.tree, killed: false, never: false }));
                self.h.push(H::S(s, m));
                G::Weak
            }
            O::WNew => {
                let w = self.call(G::Weak, || F::w_new())?;
                self.h.push(H::W(w, WM { buf: usize::MAX, lo: 0, hi: 0, tree: 0, killed: false, never: true }));
                G::Weak
            }
            O::WClone => {
                let Some(i) = self.pick_w(a) else { return Ok(None) };
                let H::W(w, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::Weak, || w.clone())?;
                self.h.push(H::W(w, m.clone()));
                self.h.push(H::W(r, m));
                G::Weak
            }
            O::Upgrade => {
                let Some(i) = self.pick_w(a) else { return Ok(None) };
                let H::W(w, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::Weak, || F::upgrade(&w))?;
                let (certain, possible) = self.alive(&m);
                match r {
                    Some(s) => {
                        if !possible { std::mem::forget(s); return fail("UPGRADE", self.gt(G::Weak), format!("upgraded a weak handle to [{}..{}] whose items are gone or exclusively owned", m.lo, m.hi)); }
                        self.st.count(if certain { "upgrade-some" } else { "upgrade-some-lenient" });
                        self.check_slice(&s, m.buf, m.lo, m.hi, G::Weak, "upgraded slice")?;
                        self.push_new_s(s, m.buf, m.lo, m.hi, m.tree, false, true);
                    }
                    None => {
                        if certain { return fail("UPGRADE", self.gt(G::Weak), format!("failed to upgrade a weak handle to [{}..{}] that a strong handle keeps alive", m.lo, m.hi)); }
                        self.st.count(if possible { "upgrade-none-lenient" } else { "upgrade-none" });
                    }
                }
                self.h.push(H::W(w, m));
                G::Weak
            }
            O::DropAny => {
                if self.h.is_empty() { return Ok(None); }
                let i = a as usize % self.h.len();
                self.drop_handle(i)?
            }
            O::DropS => { let Some(i) = self.pick_s(a) else { return Ok(None) }; self.drop_handle(i)? }
            O::DropW => { let Some(i) = self.pick_w(a) else { return Ok(None) }; self.drop_handle(i)? }
            O::MSplitL | O::MSplitR => {
                let Some(i) = self.pick_m(a) else { return Ok(None) };
                let left = o == O::MSplitL;
                let H::M(mut s, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::M, || if left { F::m_split_left(&mut s) } else { F::m_split_right(&mut s) })?;
                let mid = m.lo + (m.hi - m.lo) / 2;
                let (this, new) = if left { ((mid, m.hi), (m.lo, mid)) } else { ((m.lo, mid), (mid, m.hi)) };
                self.h.push(H::M(s, MM { buf: m.buf, lo: this.0, hi: this.1, nohold: false }));
                self.h.push(H::M(r, MM { buf: m.buf, lo: new.0, hi: new.1, nohold: false }));
                G::M
            }
            O::MIntoImmut => {
                let Some(i) = self.pick_m(a) else { return Ok(None) };
                let H::M(s, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::M, || if b % 2 == 0 { F::into_immut(s) } else { F::s_from_m(s) })?;
                let tree = self.new_tree();
                self.h.push(H::S(r, SM { buf: m.buf, lo: m.lo, hi: m.hi, tree, nohold: m.nohold, up: false }));
                G::M
            }
            O::MWrite => {
                let Some(i) = self.pick_m(a) else { return Ok(None) };
                let H::M(mut s, m) = self.take(i) else { unreachable!() };
                let p = &mut s as *mut F::M<T>;
                let x: *mut [T] = self.call(G::M, || { let s = unsafe { &mut *p }; (match c_ % 4 { 0 => &mut s[..], 1 => F::m_as_mut(s), 2 => F::m_borrow_mut(s), _ => &mut **s }) as *mut [T] })?;
                let x = unsafe { &mut *x };
                self.check_slice(x, m.buf, m.lo, m.hi, G::M, "mutable deref")?;
                self.mutate(x, m.buf, m.lo, b, c_);
                self.h.push(H::M(s, m));
                G::M
            }
            O::MIntoIter => {
                let Some(i) = self.pick_m(a) else { return Ok(None) };
                let H::M(s, m) = self.take(i) else { unreachable!() };
                let r = self.call(G::I, || s.into_iter())?;
                self.h.push(H::I(r, m));
                G::I
            }
            O::MParts => {
                let Some(i) = self.pick_m(a) else { return Ok(None) };
                let n = Self::num_parts(b);
                let H::M(s, m) = self.take(i) else { unreachable!() };
                let p = self.call(G::MP, || F::m_parts(s, n))?;
                let mut parts = VecDeque::new();
                parts_of(m.lo, m.hi, n, &mut parts);
                self.h.push(H::MP(p, MPM { buf: m.buf, parts }));
                G::MP
            }
            O::MClone => {
                let Some(i) = self.pick_m(a) else { return Ok(None) };
                let H::M(s, m) = self.take(i) else { unreachable!() };
                let fresh = ledger(|l| l.state.len()) as u32;
                let r = self.call(G::M, || F::m_clone(&s))?;
                let n = m.hi - m.lo;
                let t = self.gt(G::M);
                if r.len() != n { return fail("CLONE", t, format!("the clone has length {}, expected {}", r.len(), n)); }
                if n > 0 && !T::ZST && r.as_ptr() == s.as_ptr() { std::mem::forget(r); return fail("CLONE", t, "cloning a mutable slice shares the original's memory".into()); }
                let mut cells = vec![];
                let mut seen = vec![];
                for (i, it) in r.iter().enumerate() {
                    let src = self.bufs[m.buf].cells[m.lo + i];
                    let id = it.id();
                    if T::IDS && (id < fresh || id == u32::MAX || T::origin(id) != src.id || seen.contains(&id)) {
                        return fail("CLONE", t, format!("item {} of the clone isn't a clone of item {} of the original", i, i));
                    }
                    if T::IDS && seen.last().is_some_and(|&l| l > id) { return fail("CLONE", t, format!("item {} of the original was cloned before item {}", i, i - 1)); }
                    if T::IDS { seen.push(id); }
                    cells.push(Cel { id, val: src.val, present: true });
                }
                let buf = self.add_buf(r.as_ptr() as usize, cells);
                self.cov_add(buf, 0, n);
                self.h.push(H::M(s, m));
                self.h.push(H::M(r, MM { buf, lo: 0, hi: n, nohold: false }));
                G::M
            }
            O::INext | O::INextBack => {
                let reps = 1 + if c_ % 4 == 0 { b as usize % 6 } else { 0 };
                let mut any = false;
                for _ in 0..reps {
                    let Some(i) = self.pick_i(a) else { break };
                    any = true;
                    let front = o == O::INext;
                    let H::I(mut s, mut m) = self.take(i) else { unreachable!() };
                    let r = self.call(G::I, || if front { s.next() } else { s.next_back() })?;
                    let pos = if m.lo == m.hi { None } else if front { m.lo += 1; Some(m.lo - 1) } else { m.hi -= 1; Some(m.hi) };
                    if m.lo == m.hi { m.nohold = true; self.st.count("iter-exhausted"); }
                    let buf = m.buf;
                    self.h.push(H::I(s, m));
                    self.yielded_item(r, pos, buf, b)?;
                }
                if !any { return Ok(None); }
                G::I
            }
            O::Nth => {
                let sel = c_ >> 9;
                if let Some(i) = if sel % 4 == 0 { None } else { self.pick_i(a) } {
                    let H::I(mut s, mut m) = self.take(i) else { unreachable!() };
                    let k = b as usize % (m.hi - m.lo + 2);
                    let front = c_ % 2 == 0;
                    let r = self.call(G::I, || kth(&mut s, k, front, c_ >> 1))?;
                    let n = m.hi - m.lo;
                    let skip = k.min(n);
                    let (sl, sh) = if front { (m.lo, m.lo + skip) } else { (m.hi - skip, m.hi) };
                    self.cov_sub(m.buf, sl, sh);
                    if front { m.lo += skip } else { m.hi -= skip }
                    let pos = if m.lo == m.hi { None } else if front { m.lo += 1; Some(m.lo - 1) } else { m.hi -= 1; Some(m.hi) };
                    let buf = m.buf;
                    self.h.push(H::I(s, m));
                    self.yielded_item(r, pos, buf, b)?;
                    G::I
                } else if let Some(i) = if sel % 4 == 1 { None } else { self.pick_p(a) } {
                    let H::P(mut p, mut m) = self.take(i) else { unreachable!() };
                    let k = b as usize % (m.parts.len() + 2);
                    let front = c_ % 2 == 0;
                    let r = self.call(G::P, || kth(&mut p, k, front, c_ >> 1))?;
                    let mut gone = vec![];
                    for _ in 0..k { if let Some(x) = if front { m.parts.pop_front() } else { m.parts.pop_back() } { gone.push(x); } }
                    let want = if front { m.parts.pop_front() } else { m.parts.pop_back() };
                    for (l, r) in gone { self.cov_sub(m.buf, l, r); }
                    self.yielded_s(r, want, &m)?;
                    self.h.push(H::P(p, m));
                    G::P
                } else if let Some(i) = self.pick_mp(a) {
                    let H::MP(mut p, mut m) = self.take(i) else { unreachable!() };
                    let k = b as usize % (m.parts.len() + 2);
                    let front = c_ % 2 == 0;
                    self.st.count("mut-parts-nth");
                    let r = self.call(G::MP, || kth(&mut p, k, front, c_ >> 1))?;
                    for _ in 0..k { if let Some((l, r)) = if front { m.parts.pop_front() } else { m.parts.pop_back() } { self.cov_sub(m.buf, l, r); } }
                    let want = if front { m.parts.pop_front() } else { m.parts.pop_back() };
                    let buf = m.buf;
                    self.h.push(H::MP(p, m));
                    match (r, want) {
                        (None, None) => {}
                        (Some(s), Some((lo, hi))) => {
                            self.h.push(H::M(s, MM { buf, lo, hi, nohold: false }));
                            let i = self.h.len() - 1;
                            self.check_handle(&self.h[i]).map_err(|mut f| { f.tags |= self.gt(G::MP); f })?;
                        }
                        (x, y) => { let l = x.map(|s| s.len()); return fail("ITER", self.gt(G::MP), format!("mutable parts iterator yielded {:?}, expected {:?}", l, y)) }
                    }
                    G::MP
                } else { return Ok(None) }
            }
            O::ISplitFrom | O::ISplitTo => {
                let Some(i) = self.pick_i(a) else { return Ok(None) };
                let H::I(mut s, m) = self.take(i) else { unreachable!() };
                let at = b as usize % (m.hi - m.lo + 1);
                let from = o == O::ISplitFrom;
                let r = self.call(G::I, || if from { F::i_split_from(&mut s, at) } else { F::i_split_to(&mut s, at) })?;
                let p = m.lo + at;
                let (this, new) = if from { ((m.lo, p), (p, m.hi)) } else { ((p, m.hi), (m.lo, p)) };
                self.h.push(H::I(s, MM { buf: m.buf, lo: this.0, hi: this.1, nohold: m.nohold && m.lo == m.hi }));
                self.h.push(H::I(r, MM { buf: m.buf, lo: new.0, hi: new.1, nohold: m.nohold && m.lo == m.hi }));
                G::I
            }
            O::IWrite => {
                let Some(i) = self.pick_i(a) else { return Ok(None) };
                let H::I(mut s, m) = self.take(i) else { unreachable!() };
                let p = &mut s as *mut F::I<T>;
                let x = self.call(G::I, || F::i_as_mut_slice(unsafe { &mut *p }) as *mut [T])?;
                let x = unsafe { &mut *x };
                self.check_slice(x, m.buf, m.lo, m.hi, G::I, "as_mut_slice")?;
                self.mutate(x, m.buf, m.lo, b, c_);
                self.h.push(H::I(s, m));
                G::I
            }
            O::IMisc => {
                let Some(i) = self.pick(a, |h| matches!(h, H::I(..) | H::MP(..))) else { return Ok(None) };
                let h = &self.h[i];
                let g = Self::gof(h);
                let d = catch_unwind(AssertUnwindSafe(|| match h { H::I(s, _) => F::i_debug(s), H::MP(s, _) => F::mp_debug(s), _ => unreachable!() }));
                let want = match h { H::I(s, _) => format!("{:?}", F::i_as_slice(s)), H::MP(s, _) => format!("{:?}", F::mp_as_slice(s)), _ => unreachable!() };
                match d {
                    Ok(d) => if !d.contains(&want) { return fail("DEBUG", self.gt(g) | c(11), format!("Debug output {} doesn't show the remaining items {}", d, want)); },
                    Err(e) => return fail("PANIC", self.gt(g) | c(12), panic_text(e)),
                }
                g
            }
            O::IConsume => {
                let Some(i) = self.pick_i(a) else { return Ok(None) };
                let H::I(s, m) = self.take(i) else { unreachable!() };
                let n = m.hi - m.lo;
                match b % 4 {
                    0 => {
                        self.cov_sub(m.buf, m.lo, m.hi);
                        let k = self.call(G::I, || s.count())?;
                        if k != n { return fail("ITER", self.gt(G::I), format!("count() is {}, expected {}", k, n)); }
                    }
                    1 => {
                        let pos = if n == 0 { None } else { Some(m.hi - 1) };
                        if n > 0 { self.cov_sub(m.buf, m.lo, m.hi - 1); }
                        let r = self.call(G::I, || if b >> 2 & 1 == 0 { s.last() } else { s.reduce(|_, y| y) })?;
                        self.yielded_item(r, pos, m.buf, b >> 3)?;
                    }
                    k => {
                        let how = b >> 2 << 1 | (k & 1);
                        let mut v: Vec<T> = self.call(G::I, || every(s, how))?;
                        if how & 1 == 1 { v.reverse(); }
                        if v.len() != n { return fail("ITER", self.gt(G::I), format!("{} items yielded, expected {}", v.len(), n)); }
                        for (i, it) in v.iter().enumerate() {
                            let c_ = self.bufs[m.buf].cells[m.lo + i];
                            if !it.matches(c_.id, c_.val) { return fail("ITER", self.gt(G::I), format!("the item yielded at position {} is not the expected one", i)); }
                        }
                        self.cov_sub(m.buf, m.lo, m.hi);
                        drop(v);
                    }
                }
                G::I
            }
            O::MPNext | O::MPNextBack => {
                let reps = 1 + if c_ % 4 == 0 { b as usize % 5 } else { 0 };
                let mut any = false;
                for _ in 0..reps {
                    let Some(i) = self.pick_mp(a) else { break };
                    any = true;
                    let front = o == O::MPNext;
                    let H::MP(mut p, mut m) = self.take(i) else { unreachable!() };
                    let r = self.call(G::MP, || if front { p.next() } else { p.next_back() })?;
                    let want = if front { m.parts.pop_front() } else { m.parts.pop_back() };
                    let buf = m.buf;
                    self.h.push(H::MP(p, m));
                    match (r, want) {
                        (None, None) => self.st.count("mut-parts-exhausted"),
                        (Some(s), Some((lo, hi))) => {
                            self.h.push(H::M(s, MM { buf, lo, hi, nohold: false }));
                            let i = self.h.len() - 1;
                            self.check_handle(&self.h[i]).map_err(|mut f| { f.tags |= self.gt(G::MP); f })?;
                        }
                        (x, y) => { let l = x.map(|s| s.len()); return fail("ITER", self.gt(G::MP), format!("mutable parts iterator yielded {:?}, expected {:?}", l, y)) }
                    }
                    if self.h.len() > self.max_handles {
                        let j = self.h.len() - 1;
                        self.settle(G::MP)?;
                        self.drop_handle(j)?;
                    }
                }
                if !any { return Ok(None); }
                G::MP
            }
            O::MPWrite => {
                let Some(i) = self.pick_mp(a) else { return Ok(None) };
                let H::MP(mut s, m) = self.take(i) else { unreachable!() };
                let (lo, hi) = span(&m.parts);
                let p = &mut s as *mut F::MP<T>;
                let x = self.call(G::MP, || F::mp_as_mut_slice(unsafe { &mut *p }) as *mut [T])?;
                let x = unsafe { &mut *x };
                self.check_slice(x, m.buf, lo, hi, G::MP, "as_mut_slice")?;
                self.mutate(x, m.buf, lo, b, c_);
                self.h.push(H::MP(s, m));
                G::MP
            }
            O::MPConsume => {
                let Some(i) = self.pick_mp(a) else { return Ok(None) };
                let H::MP(p, m) = self.take(i) else { unreachable!() };
                let n = m.parts.len();
                match b % 3 {
                    0 => {
                        for &(l, r) in &m.parts { self.cov_sub(m.buf, l, r); }
                        let k = self.call(G::MP, || p.count())?;
                        if k != n { return fail("ITER", self.gt(G::MP), format!("count() is {}, expected {}", k, n)); }
                    }
                    k => {
                        let how = b / 3 * 2 | (k & 1) as u32;
                        let v: Vec<_> = self.call(G::MP, || every(p, how))?;
                        if v.len() != n { return fail("ITER", self.gt(G::MP), format!("{} parts yielded, expected {}", v.len(), n)); }
                        let mut parts: Vec<_> = m.parts.iter().copied().collect();
                        if how & 1 == 1 { parts.reverse(); }
                        for (s, &(lo, hi)) in v.iter().zip(&parts) { self.check_slice(s, m.buf, lo, hi, G::MP, "part")?; }
                        let mut v: Vec<_> = v.into_iter().zip(parts).collect();
                        while v.len() > 6 {
                            let j = (mix(c_ as u64 ^ v.len() as u64) % v.len() as u64) as usize;
                            let (s, (lo, hi)) = v.swap_remove(j);
                            self.cov_sub(m.buf, lo, hi);
                            self.call(G::M, move || drop(s))?;
                        }
                        for (s, (lo, hi)) in v { self.h.push(H::M(s, MM { buf: m.buf, lo, hi, nohold: false })); }
                    }
                }
                G::MP
            }
            O::Invalid => {
                let Some(i) = self.pick(a, |h| matches!(h, H::S(..) | H::M(..) | H::I(..))) else { return Ok(None) };
                const BAD: &[usize] = &[0, 3, 5, 6, 7, 9, 12, 24, 1023, usize::MAX, (1 << 63) + 1, 3 << 62];
                let n = BAD[b as usize % BAD.len()];
                let h = self.take(i);
                match h {
                    H::S(s, m) => {
                        self.cov_sub(m.buf, m.lo, m.hi);
                        self.note(format_args!("  split_into_parts({}) on S", n));
                        if self.call_catch(G::Invalid, || F::parts(s, n)).is_ok() {
                            return fail("NOPANIC", self.gt(G::Invalid) | c(5), format!("split_into_parts({}) did not panic", n));
                        }
                    }
                    H::M(s, m) => {
                        self.cov_sub(m.buf, m.lo, m.hi);
                        self.note(format_args!("  split_into_parts({}) on M", n));
                        if self.call_catch(G::Invalid, || F::m_parts(s, n)).is_ok() {
                            return fail("NOPANIC", self.gt(G::Invalid) | c(5), format!("split_into_parts({}) did not panic", n));
                        }
                    }
                    H::I(mut s, m) => {
                        let len = m.hi - m.lo;
                        let at = match b % 4 { 0 => len + 1, 1 => len + 2 + (c_ as usize % 50), 2 => usize::MAX, _ => usize::MAX / 2 + 1 + c_ as usize };
                        let from = c_ % 2 == 0;
                        self.note(format_args!("  split_off({}) on I, from={}", at, from));
                        let r = self.call_catch(G::Invalid, || if from { F::i_split_from(&mut s, at) } else { F::i_split_to(&mut s, at) });
                        if let Ok(x) = r {
                            std::mem::forget(x);
                            return fail("NOPANIC", self.gt(G::Invalid) | c(10), format!("splitting an iterator with {} items at {} did not panic", len, at));
                        }
                        self.h.push(H::I(s, m));
                    }
                    _ => unreachable!(),
                }
                self.st.count("invalid-panics");
                G::Invalid
            }
            O::ArmDrop => {
                if !T::TRACK { return Ok(None); }
                let Some(i) = self.pick(a, |h| !matches!(h, H::W(..))) else { return Ok(None) };
                let h = self.take(i);
                let g = Self::gof(&h);
                self.release_model(&h);
                let k = self.expect.len();
                let arm = if k == 0 { 1 } else { 1 + b % k as u32 };
                ARM_DROP.with(|x| x.set(arm));
                self.armed = true;
                // Different ways of dropping the rest
                let way = c_ % 3;
                let r = self.call_catch(G::Invalid, move || match h {
                    H::I(it, _) if way == 1 => { let _ = it.count(); }
                    H::I(it, _) if way == 2 => { for x in it { drop(x); } }
                    H::P(it, _) if way == 1 => { let _ = it.count(); }
                    H::P(it, _) if way == 2 => { for x in it { drop(x); } }
                    H::MP(it, _) if way == 1 => { let _ = it.count(); }
                    H::MP(it, _) if way == 2 => { for x in it { drop(x); } }
                    h => drop(h),
                });
                ARM_DROP.with(|x| x.set(0));
                let fired = FIRED.with(|f| f.get());
                if fired != r.is_err() { return fail("PANIC", self.gt(g) | c(12), "a panic in an item's drop was swallowed, or another was raised".into()); }
                if fired { self.st.count("drop-panics"); }
                if fired { G::Invalid } else { g }
            }
            O::ArmClone => {
                if T::IDS || T::TRACK {} else { return Ok(None); }
                let Some(i) = self.pick(a, |h| matches!(h, H::M(_, m) if m.lo < m.hi)) else { return Ok(None) };
                let H::M(s, m) = self.take(i) else { unreachable!() };
                let k = 1 + b % (m.hi - m.lo) as u32;
                let fresh = ledger(|l| l.state.len());
                ARM_CLONE.with(|x| x.set(k));
                let r = self.call_catch(G::Invalid, || F::m_clone(&s));
                ARM_CLONE.with(|x| x.set(0));
                FIRED.with(|f| f.set(false));
                if r.is_ok() { return fail("PANIC", self.gt(G::M) | c(12), "a panic in an item's clone was swallowed".into()); }
                if T::IDS { let n = ledger(|l| l.state.len()); for id in fresh..n { self.expect.push(id as u32); } }
                else { for _ in 1..k { self.expect.push(0); } }
                self.h.push(H::M(s, m));
                self.st.count("clone-panics");
                G::Invalid
            }
            O::ArmCollect => {
                let n = a as usize % 12;
                let (v, cells) = self.new_items(n, n);
                let k = if n == 0 { 0 } else { b as usize % n };
                let mut it = v.into_iter();
                let mut i = 0;
                let iter = std::iter::from_fn(move || { if i == k { panic!("armed iterator panic"); } i += 1; it.next() });
                let r = if c_ % 2 == 0 { self.call_catch(G::Invalid, || { let _s = F::s_collect(iter); }) } else { self.call_catch(G::Invalid, || { let _m = F::m_collect(iter); }) };
                if r.is_ok() { return fail("PANIC", self.gt(G::New) | c(12), "a panic in the source iterator was swallowed".into()); }
                if T::TRACK { for c_ in &cells { self.expect.push(c_.id); } }
                self.st.count("collect-panics");
                G::Invalid
            }
        }))
    }

    fn yielded_s(&mut self, r: Option<F::S<T>>, want: Option<(usize, usize)>, m: &PM) -> Res {
        match (r, want) {
            (None, None) => Ok(()),
            (Some(s), Some((lo, hi))) => {
                self.h.push(H::S(s, SM { buf: m.buf, lo, hi, tree: m.tree, nohold: false, up: m.up }));
                let i = self.h.len() - 1;
                self.check_handle(&self.h[i]).map_err(|mut f| { f.tags |= self.gt(G::P); f })
            }
            (x, y) => { let l = x.map(|s| s.len()); fail("ITER", self.gt(G::P), format!("parts iterator yielded {:?}, expected {:?}", l, y)) }
        }
    }

    fn yielded_item(&mut self, r: Option<T>, pos: Option<usize>, buf: usize, keep: u32) -> Res {
        match (r, pos) {
            (None, None) => Ok(()),
            (Some(it), Some(p)) => {
                let cl = self.bufs[buf].cells[p];
                if !it.matches(cl.id, cl.val) {
                    std::mem::forget(it);
                    return fail("ITER", self.gt(G::I), format!("iterator yielded a different item than the one at position {}", p));
                }
                self.bufs[buf].cells[p].present = false;
                self.cov_sub(buf, p, p + 1);
                if keep % 3 == 0 && self.h.len() < self.max_handles { self.h.push(H::Own(it, cl.id, cl.val)); }
                else { if T::TRACK { self.expect.push(cl.id); } drop(it); }
                Ok(())
            }
            (x, y) => {
                let some = x.is_some();
                std::mem::forget(x);
                fail("ITER", self.gt(G::I), format!("iterator yielded {}, expected position {:?}", if some { "an item" } else { "nothing" }, y))
            }
        }
    }

    /// Drop everything, in an order derived from `order`, and look for leaks.
    pub fn finish(&mut self, order: u64) -> Res {
        let weak_first = order % 3 == 0;
        let mut x = order;
        while !self.h.is_empty() {
            x = mix(x);
            let i = if weak_first { self.pick_w(x as u32) } else if order % 3 == 1 { self.pick(x as u32, |h| !matches!(h, H::W(..))) } else { None };
            let i = i.unwrap_or(x as usize % self.h.len());
            if self.trace.is_some() { let s = self.describe(); self.note(format_args!("finish: drop {}   [{}]", i, s)); }
            let g = self.drop_handle(i)?;
            self.settle(g)?;
            if x % 4 == 0 { self.check_views(g)?; }
        }
        if T::ZST && T::TRACK {
            let n = ledger(|l| l.zst_live);
            if n != 0 { return fail("DROP", self.drop_tag(), format!("{} zero-sized items were never dropped", n)); }
        }
        if SHADOW {
            if alloc::live_tracked() != 0 {
                let n = alloc::live_tracked();
                return fail("LEAK", c(3) | self.zt(), format!("{} heap blocks are still allocated after every handle is gone", n));
            }
            alloc::flush();
            let e = alloc::take_errs();
            if e != 0 { return fail("MEM", c(3) | c(17) | self.zt(), alloc::err_text(e)); }
            alloc::reset_live();
        }
        self.st.histories += 1;
        let s = self.sig;
        if self.st.sigs.len() < 200_000 { self.st.sigs.insert(s); }
        Ok(())
    }

    pub fn abandon(self) { std::mem::forget(self.h); }
}

/// Skip `k` elements and give out the next one, by one of the ways iterators offer.
fn kth<I: DoubleEndedIterator>(it: &mut I, k: usize, front: bool, how: u32) -> Option<I::Item> {
    let mut i = 0;
    match (how % 6, front) {
        (0, true) => it.nth(k),
        (0, false) => it.nth_back(k),
        (1, true) => it.find(|_| { i += 1; i > k }),
        (1, false) => it.rfind(|_| { i += 1; i > k }),
        (2, true) => it.try_fold(0, |n, x| if n == k { Err(x) } else { Ok(n + 1) }).err(),
        (2, false) => it.try_rfold(0, |n, x| if n == k { Err(x) } else { Ok(n + 1) }).err(),
        (3, true) => it.skip(k).next(),
        (3, false) => it.rev().skip(k).next(),
        (4, true) => it.find_map(|x| { i += 1; if i > k { Some(x) } else { None } }),
        (4, false) => it.rev().find_map(|x| { i += 1; if i > k { Some(x) } else { None } }),
        (_, f) => {
            // In two steps
            if k > 0 { drop(if f { it.nth(k - 1) } else { it.nth_back(k - 1) }?); }
            if f { it.nth(0) } else { it.nth_back(0) }
        }
    }
}

/// All elements, backwards if `how` is odd.
fn every<I: DoubleEndedIterator>(mut it: I, how: u32) -> Vec<I::Item> {
    let back = how & 1 == 1;
    let mut v = vec![];
    match how >> 1 & 7 {
        0 => if back { v = it.rfold(v, |mut v, x| { v.push(x); v }) } else { v = it.fold(v, |mut v, x| { v.push(x); v }) },
        1 => if back { it.rev().for_each(|x| v.push(x)) } else { it.for_each(|x| v.push(x)) },
        2 => if back { let _ = it.try_rfold((), |_, x| { v.push(x); Some(()) }); } else { let _ = it.try_for_each(|x| { v.push(x); Some(()) }); },
        3 => while let Some(x) = if back { it.nth_back(0) } else { it.nth(0) } { v.push(x) },
        4 => if back { v.extend(it.rev().peekable()) } else { v.extend(it.peekable()) },
        5 => if back { v.extend(it.rev().step_by(1)) } else { v.extend(it.step_by(1)) },
        _ => v = if back { it.rev().collect() } else { it.collect() },
    }
    v
}
