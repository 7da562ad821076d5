//! Extreme sizes: slices of up to usize::MAX zero-sized items, up to 2^63 parts,
//! large buffers of small items. Positions are modelled with u128 arithmetic.

use crate::alloc::{self, tracking, SHADOW};
use crate::fam::{ArcF, Fam, RcF};
use crate::report;
use crate::rng::{mix, Rng};
use crate::tags::*;
use crate::world::{panic_text, CUR_TAGS, OPCTR};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

pub trait Big: Clone + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn buffer(n: usize) -> Vec<Self>;
    fn ok(&self, pos: u128) -> bool;
    fn max() -> usize;
}

fn zst_vec<T>(n: usize) -> Vec<T> {
    assert_eq!(std::mem::size_of::<T>(), 0);
    let mut v = Vec::new();
    // A vector of zero-sized items has room for usize::MAX of them, and these have no bytes to initialise
    unsafe { v.set_len(n) };
    v
}

impl Big for () {
    const NAME: &'static str = "unit";
    fn buffer(n: usize) -> Vec<()> { zst_vec(n) }
    fn ok(&self, _: u128) -> bool { true }
    fn max() -> usize { usize::MAX }
}
#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
pub struct AZ;
impl Big for AZ {
    const NAME: &'static str = "align64";
    fn buffer(n: usize) -> Vec<AZ> { zst_vec(n) }
    fn ok(&self, _: u128) -> bool { self as *const AZ as usize % 64 == 0 }
    fn max() -> usize { usize::MAX }
}
impl Big for u8 {
    const NAME: &'static str = "u8";
    fn buffer(n: usize) -> Vec<u8> { (0..n).map(|i| (i ^ (i >> 8) ^ (i >> 16)) as u8).collect() }
    fn ok(&self, p: u128) -> bool { let i = p as usize; *self == (i ^ (i >> 8) ^ (i >> 16)) as u8 }
    fn max() -> usize { if cfg!(miri) { 3000 } else { 1 << 18 } }
}

type R2 = (u128, u128);
enum H<F: Fam, T: Big> {
    S(F::S<T>, R2), P(F::P<T>, Pm), M(F::M<T>, R2), I(F::I<T>, R2), Q(F::MP<T>, Pm), W(F::W<T>, R2),
}

/// The remaining parts of an even binary division of `r` into 2^k parts.
#[derive(Clone, Debug)]
struct Pm { r: R2, k: u32, front: u128, back: u128 }
impl Pm {
    fn part(&self, i: u128) -> R2 {
        let (mut lo, mut hi) = self.r;
        for b in (0..self.k).rev() {
            let mid = lo + (hi - lo) / 2;
            if i >> b & 1 == 0 { hi = mid } else { lo = mid }
        }
        (lo, hi)
    }
    fn len(&self) -> u128 { self.back - self.front }
    fn span(&self) -> R2 { if self.len() == 0 { (0, 0) } else { (self.part(self.front).0, self.part(self.back - 1).1) } }
}

struct Cx<'a, F: Fam, T: Big> { h: Vec<H<F, T>>, base: usize, r: Rng, tr: Option<String>, counts: &'a mut BTreeMap<&'static str, u64>, sig: u64 }

fn mid(r: R2) -> u128 { r.0 + (r.1 - r.0) / 2 }

impl<'a, F: Fam, T: Big> Cx<'a, F, T> {
    fn tags(&self, g: G) -> Tags { group(g, F::ARC) | c(13) }
    fn call<R>(&self, g: G, f: impl FnOnce() -> R) -> Res<R> {
        CUR_TAGS.store((self.tags(g) | c(16)) as u64, Relaxed);
        OPCTR.fetch_add(1, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| tracking(true, f)));
        OPCTR.fetch_add(1, Relaxed);
        match r { Ok(x) => Ok(x), Err(p) => fail("PANIC", self.tags(g) | c(12), format!("a call with valid arguments panicked: {}", panic_text(p))) }
    }
    fn view(&self, s: &[T], r: R2, g: G, what: &str) -> Res {
        if s.len() as u128 != r.1 - r.0 { return fail("VIEW", self.tags(g), format!("{}: length {}, expected {}", what, s.len(), r.1 - r.0)); }
        let sz = std::mem::size_of::<T>();
        if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 { return fail("VIEW", self.tags(g), format!("{}: misaligned", what)); }
        if s.is_empty() { return Ok(()); }
        if sz > 0 && s.as_ptr() as usize != self.base + r.0 as usize * sz { return fail("VIEW", self.tags(g), format!("{}: not at position {} of its buffer", what, r.0)); }
        for i in [0, s.len() / 3, s.len() / 2, s.len() - 1] {
            if !s[i].ok(r.0 + i as u128) { return fail("VIEW", self.tags(g), format!("{}: wrong item at {}", what, i)); }
        }
        Ok(())
    }
    fn len(&self, len: usize, hint: (usize, Option<usize>), want: u128, g: G) -> Res {
        if len as u128 != want || hint != (want as usize, Some(want as usize)) { return fail("LEN", self.tags(g), format!("iterator reports len {} and size hint {:?} with {} left", len, hint, want)); }
        Ok(())
    }
    fn check(&self) -> Res {
        for h in &self.h {
            match h {
                H::S(s, r) => self.view(s, *r, G::S, "slice")?,
                H::M(s, r) => self.view(s, *r, G::M, "mutable slice")?,
                H::I(i, r) => { self.view(F::i_as_slice(i), *r, G::I, "remaining items")?; self.len(i.len(), i.size_hint(), r.1 - r.0, G::I)?; }
                H::P(p, m) => { self.view(F::p_as_slice(p), m.span(), G::P, "remaining parts")?; self.len(p.len(), p.size_hint(), m.len(), G::P)?; }
                H::Q(p, m) => { self.view(F::mp_as_slice(p), m.span(), G::MP, "remaining mutable parts")?; self.len(p.len(), p.size_hint(), m.len(), G::MP)?; }
                H::W(..) => {}
            }
        }
        Ok(())
    }
    fn overlap(&self, r: R2) -> bool {
        self.h.iter().any(|h| { let x = match h { H::S(_, x) | H::M(_, x) | H::I(_, x) => *x, H::P(_, m) | H::Q(_, m) => m.span(), H::W(..) => return false }; x.0.max(r.0) < x.1.min(r.1) })
    }
    fn weak(&self, r: R2) -> bool { self.h.iter().any(|h| matches!(h, H::W(_, x) if x.0.max(r.0) < x.1.min(r.1))) }
    fn empties(&self) -> bool { self.h.iter().any(|h| match h { H::S(_, x) | H::W(_, x) => x.0 == x.1, H::P(_, m) => m.len() > 0 && m.r.1 - m.r.0 < 1u128 << m.k, _ => false }) }

    fn step(&mut self) -> Res<bool> {
        if self.h.is_empty() { return Ok(false); }
        let i = self.r.below(self.h.len());
        let h = self.h.swap_remove(i);
        let k = if self.h.len() > 14 { 99 } else if self.h.len() < 2 { self.r.below(9) } else { self.r.below(13) };
        let name: &'static str;
        match h {
            H::S(mut s, r) => match k {
                0 => { name = "clone_left"; let x = self.call(G::S, || F::clone_left(&s))?; self.h.push(H::S(s, r)); self.h.push(H::S(x, (r.0, mid(r)))); }
                1 => { name = "clone_right"; let x = self.call(G::S, || F::clone_right(&s))?; self.h.push(H::S(s, r)); self.h.push(H::S(x, (mid(r), r.1))); }
                2 => { name = "split_off_left"; let x = self.call(G::S, || F::split_left(&mut s))?; self.h.push(H::S(s, (mid(r), r.1))); self.h.push(H::S(x, (r.0, mid(r)))); }
                3 => { name = "split_off_right"; let x = self.call(G::S, || F::split_right(&mut s))?; self.h.push(H::S(s, (r.0, mid(r)))); self.h.push(H::S(x, (mid(r), r.1))); }
                4 => { name = "clone"; let x = self.call(G::S, || s.clone())?; self.h.push(H::S(s, r)); self.h.push(H::S(x, r)); }
                5 | 6 => {
                    name = "split_into_parts";
                    let k = if self.r.chance(1, 2) { self.r.below(64) } else { self.r.below(12) } as u32;
                    let p = self.call(G::P, || F::parts(s, 1usize << k))?;
                    self.h.push(H::P(p, Pm { r, k, front: 0, back: 1u128 << k }));
                }
                7 => {
                    name = "get_mut";
                    let (ov, em, wk) = (self.overlap(r), self.empties() || r.0 == r.1, self.weak(r));
                    let b = self.base;
                    let x = self.call(G::Grant, || F::get_mut(&mut s).map(|m| (m.len() as u128, m.as_ptr() as usize)))?;
                    if x.is_some() && ov && r.0 < r.1 { return fail("GRANT", self.tags(G::Grant), "get_mut granted access although another handle refers to these items".into()); }
                    if x.is_none() && !ov && !wk && !em { return fail("GRANT", self.tags(G::Grant), "get_mut refused although no other handle refers to these items".into()); }
                    if let Some((l, a)) = x { if l != r.1 - r.0 || (std::mem::size_of::<T>() > 0 && l > 0 && a != b + r.0 as usize) { return fail("VIEW", self.tags(G::Grant), "get_mut returned a different slice".into()); } }
                    self.h.push(H::S(s, r));
                }
                8 | 9 => {
                    name = "into_mut";
                    let (ov, em) = (self.overlap(r), self.empties() || r.0 == r.1);
                    let x = self.call(G::Grant, || F::into_mut(s))?;
                    match x {
                        Ok(m) => { if ov { return fail("GRANT", self.tags(G::Grant), "into_mut succeeded although another handle refers to these items".into()); } self.kill(r); self.h.push(H::M(m, r)); }
                        Err(s) => { if !ov && !em { return fail("GRANT", self.tags(G::Grant), "into_mut refused although no other handle refers to these items".into()); } self.h.push(H::S(s, r)); }
                    }
                }
                10 => { name = "downgrade"; let w = self.call(G::Weak, || F::downgrade(&s))?; self.h.push(H::S(s, r)); self.h.push(H::W(w, r)); }
                _ => { name = "drop slice"; self.call(G::S, move || drop(s))?; }
            },
            H::W(w, r) => match k {
                0..=5 => {
                    name = "upgrade";
                    let x = self.call(G::Weak, || F::upgrade(&w))?;
                    if let Some(s) = x { self.view(&s, r, G::Weak, "upgraded slice")?; self.h.push(H::S(s, r)); }
                    self.h.push(H::W(w, r));
                }
                _ => { name = "drop weak"; self.call(G::Weak, move || drop(w))?; }
            },
            H::P(mut p, mut m) => match k {
                0..=6 => {
                    let front = k < 3;
                    name = if front { "parts next" } else { "parts next_back" };
                    let x = self.call(G::P, || if front { p.next() } else { p.next_back() })?;
                    let want = if m.len() == 0 { None } else if front { m.front += 1; Some(m.part(m.front - 1)) } else { m.back -= 1; Some(m.part(m.back)) };
                    match (x, want) {
                        (Some(s), Some(r)) => { self.view(&s, r, G::P, "part")?; self.h.push(H::S(s, r)); }
                        (None, None) => {}
                        (x, y) => return fail("ITER", self.tags(G::P), format!("part yielded: {}, expected {:?}", x.is_some(), y)),
                    }
                    self.h.push(H::P(p, m));
                }
                7 | 8 => { name = "parts clone"; let x = self.call(G::P, || p.clone())?; self.h.push(H::P(p, m.clone())); self.h.push(H::P(x, m)); }
                9 if m.len() < 1 << 20 => { name = "parts count"; let n = self.call(G::P, || p.count())?; if n as u128 != m.len() { return fail("ITER", self.tags(G::P), format!("count() is {} with {} parts left", n, m.len())); } }
                _ => { name = "drop parts"; self.call(G::P, move || drop(p))?; }
            },
            H::M(mut s, r) => match k {
                0 | 1 => { name = "mut split_off_left"; let x = self.call(G::M, || F::m_split_left(&mut s))?; self.h.push(H::M(s, (mid(r), r.1))); self.h.push(H::M(x, (r.0, mid(r)))); }
                2 | 3 => { name = "mut split_off_right"; let x = self.call(G::M, || F::m_split_right(&mut s))?; self.h.push(H::M(s, (r.0, mid(r)))); self.h.push(H::M(x, (mid(r), r.1))); }
                4 | 5 => { name = "into_iter"; let x = self.call(G::I, || s.into_iter())?; self.h.push(H::I(x, r)); }
                6 | 7 => {
                    name = "mut split_into_parts";
                    let k = if self.r.chance(1, 2) { self.r.below(64) } else { self.r.below(12) } as u32;
                    let p = self.call(G::MP, || F::m_parts(s, 1usize << k))?;
                    self.h.push(H::Q(p, Pm { r, k, front: 0, back: 1u128 << k }));
                }
                8 | 9 => { name = "into_immut"; let x = self.call(G::M, || F::into_immut(s))?; self.h.push(H::S(x, r)); }
                _ => { name = "drop mut"; self.call(G::M, move || drop(s))?; }
            },
            H::I(mut it, r) => match k {
                0..=3 => {
                    let front = k < 2;
                    name = if front { "iter next" } else { "iter next_back" };
                    let x = self.call(G::I, || if front { it.next() } else { it.next_back() })?;
                    if x.is_some() != (r.0 < r.1) { return fail("ITER", self.tags(G::I), format!("item yielded: {}, with {} left", x.is_some(), r.1 - r.0)); }
                    if let Some(x) = x {
                        let p = if front { r.0 } else { r.1 - 1 };
                        if std::mem::size_of::<T>() > 0 && !x.ok(p) { return fail("ITER", self.tags(G::I), format!("wrong item yielded at {}", p)); }
                        self.h.push(H::I(it, if front { (r.0 + 1, r.1) } else { (r.0, r.1 - 1) }));
                    } else { self.h.push(H::I(it, (0, 0))); }
                }
                4..=7 => {
                    let to = k < 6;
                    name = if to { "split_off_to" } else { "split_off_from" };
                    let n = (r.1 - r.0) as usize;
                    let at = match self.r.below(5) { 0 => 0, 1 => n, 2 => n / 2, 3 => n.saturating_sub(1), _ => if n == 0 { 0 } else { self.r.u64() as usize % n } };
                    let x = self.call(G::I, || if to { F::i_split_to(&mut it, at) } else { F::i_split_from(&mut it, at) })?;
                    let p = r.0 + at as u128;
                    if to { self.h.push(H::I(it, (p, r.1))); self.h.push(H::I(x, (r.0, p))); } else { self.h.push(H::I(it, (r.0, p))); self.h.push(H::I(x, (p, r.1))); }
                }
                8 if r.1 - r.0 < 1 << 20 => { name = "iter count"; let n = self.call(G::I, || it.count())?; if n as u128 != r.1 - r.0 { return fail("ITER", self.tags(G::I), format!("count() is {} with {} items left", n, r.1 - r.0)); } }
                _ => { name = "drop iter"; self.call(G::I, move || drop(it))?; }
            },
            H::Q(mut p, mut m) => match k {
                0..=7 => {
                    let front = k < 4;
                    name = if front { "mut parts next" } else { "mut parts next_back" };
                    let x = self.call(G::MP, || if front { p.next() } else { p.next_back() })?;
                    let want = if m.len() == 0 { None } else if front { m.front += 1; Some(m.part(m.front - 1)) } else { m.back -= 1; Some(m.part(m.back)) };
                    match (x, want) {
                        (Some(s), Some(r)) => { self.view(&s, r, G::MP, "mutable part")?; self.h.push(H::M(s, r)); }
                        (None, None) => {}
                        (x, y) => return fail("ITER", self.tags(G::MP), format!("mutable part yielded: {}, expected {:?}", x.is_some(), y)),
                    }
                    self.h.push(H::Q(p, m));
                }
                8 if m.len() < 1 << 20 => { name = "mut parts count"; let n = self.call(G::MP, || p.count())?; if n as u128 != m.len() { return fail("ITER", self.tags(G::MP), format!("count() is {} with {} parts left", n, m.len())); } }
                _ => { name = "drop mut parts"; self.call(G::MP, move || drop(p))?; }
            },
        }
        *self.counts.entry(name).or_insert(0) += 1;
        self.sig = mix(self.sig ^ name.len() as u64 ^ ((name.as_bytes()[name.len() - 1] as u64) << 8) ^ ((name.as_bytes()[0] as u64) << 16));
        if let Some(t) = &mut self.tr { t.push_str(name); t.push('\n'); }
        self.check()?;
        Ok(true)
    }

    /// A granted into_mut leaves no weak handle able to reach these items.
    fn kill(&mut self, r: R2) {
        let mut i = 0;
        while i < self.h.len() {
            // No longer modelled, so drop them
            if matches!(&self.h[i], H::W(_, x) if x.0.max(r.0) < x.1.min(r.1) || x.0 == x.1) { self.h.swap_remove(i); } else { i += 1; }
        }
    }
}

fn size<T: Big>(r: &mut Rng) -> usize {
    let m = T::max();
    if std::mem::size_of::<T>() > 0 { return 1 + r.below(m); }
    let d = r.below(6);
    match r.below(8) {
        0 => usize::MAX - d,
        1 => (isize::MAX as usize).wrapping_add(d),
        2 => isize::MAX as usize - d,
        3 => (1usize << 32) + d,
        4 => u32::MAX as usize - d,
        5 => (1usize << r.below(64)) + d,
        6 => d,
        _ => r.u64() as usize,
    }
}

fn program<F: Fam, T: Big>(seed: u64, counts: &mut BTreeMap<&'static str, u64>, max_ops: usize, trace: bool) -> (Res, u64, u64) {
    if SHADOW { alloc::reset_live(); alloc::take_errs(); }
    let mut r = Rng::new(seed);
    let n = size::<T>(&mut r);
    let mutable = r.chance(1, 2);
    let boxed = r.chance(1, 2);
    let ops = 5 + r.below(max_ops);
    let mut cx = Cx::<F, T> { h: vec![], base: 0, r, tr: if trace { Some(format!("{} items\n", n)) } else { None }, counts, sig: mix(n as u64) };
    let mut done = 0;
    let res = (|| {
        let v = tracking(true, || T::buffer(n));
        let full = (0, n as u128);
        if mutable {
            let m = cx.call(G::New, || if boxed { F::m_from_box(v.into_boxed_slice()) } else { F::m_from_vec(v) })?;
            cx.base = m.as_ptr() as usize;
            cx.h.push(H::M(m, full));
        } else {
            let s = cx.call(G::New, || if boxed { F::s_from_box(v.into_boxed_slice()) } else { F::s_from_vec(v) })?;
            cx.base = s.as_ptr() as usize;
            cx.h.push(H::S(s, full));
        }
        cx.check()?;
        for _ in 0..ops { if !cx.step()? { break; } done += 1; }
        let h = std::mem::take(&mut cx.h);
        cx.call(G::Own, move || drop(h)).map_err(|mut f| { f.tags |= c(1) | c(2); f })?;
        if SHADOW {
            if alloc::live_tracked() != 0 { return fail("LEAK", c(3) | c(13), format!("{} heap blocks are still allocated although every handle is gone", alloc::live_tracked())); }
            alloc::flush();
            let e = alloc::take_errs();
            if e != 0 { return fail("MEM", c(3) | c(13) | c(17), alloc::err_text(e)); }
        }
        Ok(())
    })();
    if let Some(t) = &cx.tr { println!("{}", t); }
    let h = std::mem::take(&mut cx.h);
    std::mem::forget(h);
    (res, cx.sig, done)
}

pub fn run(fam: &str, item: &str, seed0: u64, count: u64, max_ops: usize, secs: f64, exact: bool) {
    let mut counts = BTreeMap::new();
    let (mut n, mut sigs, mut nt) = (0u64, HashSet::new(), 0u64);
    let t0 = crate::now();
    let mut bad = None;
    for i in 0..count {
        if secs > 0.0 && crate::now() - t0 > secs { break; }
        let seed = if exact { seed0 } else { mix(seed0.wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d)) };
        report::progress(seed);
        let tr = std::env::var("RCSV_TRACE").is_ok();
        let (r, sig, done) = match (fam, item) {
            ("rc", "unit") => program::<RcF, ()>(seed, &mut counts, max_ops, tr),
            ("rc", "u8") => program::<RcF, u8>(seed, &mut counts, max_ops, tr),
            ("rc", _) => program::<RcF, AZ>(seed, &mut counts, max_ops, tr),
            (_, "unit") => program::<ArcF, ()>(seed, &mut counts, max_ops, tr),
            (_, "u8") => program::<ArcF, u8>(seed, &mut counts, max_ops, tr),
            _ => program::<ArcF, AZ>(seed, &mut counts, max_ops, tr),
        };
        n += 1;
        if sigs.len() < 200_000 { sigs.insert(sig); }
        if done >= 5 { nt += 1; }
        if let Err(f) = r { bad = Some((f, seed)); break; }
    }
    if let Some((f, seed)) = &bad { report::fail(f, "extreme", fam, item, *seed, &max_ops.to_string()); }
    let parts: Vec<String> = counts.iter().map(|(k, n)| format!("{}:{}", report::esc(k), n)).collect();
    report::sigs("extreme", &sigs);
    report::line(&format!("@STATS {{\"engine\":\"extreme\",\"histories\":{},\"nontrivial\":{},\"sigs\":{},\"counts\":{{{}}}}}", n, nt, sigs.len(), parts.join(",")));
    if bad.is_some() { std::process::exit(3); }
}
