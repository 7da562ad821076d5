//! Trait agreement: comparisons, ordering, hashing, formatting, borrowing and
//! collection lookups of slices must be those of the slice of items they show.

use crate::fam::{ArcF, Fam, RcF};
use crate::report;
use crate::rng::{mix, Rng};
use crate::tags::*;
use crate::world::{panic_text, CUR_TAGS, OPCTR};
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

/// Records everything that is fed to it.
#[derive(Default, PartialEq, Debug, Clone)]
struct Rec(Vec<Vec<u8>>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.0.iter().flatten().fold(7, |a, &b| mix(a ^ b as u64)) }
    fn write(&mut self, b: &[u8]) { self.0.push(b.to_vec()); }
    fn write_u8(&mut self, i: u8) { self.0.push(vec![1, i]); }
    fn write_u32(&mut self, i: u32) { let mut v = vec![4]; v.extend(i.to_le_bytes()); self.0.push(v); }
    fn write_u64(&mut self, i: u64) { let mut v = vec![8]; v.extend(i.to_le_bytes()); self.0.push(v); }
    fn write_usize(&mut self, i: usize) { let mut v = vec![9]; v.extend(i.to_le_bytes()); self.0.push(v); }
}
fn hash_of<X: Hash + ?Sized>(x: &X) -> Rec { let mut r = Rec::default(); x.hash(&mut r); r }

pub trait Cmp: PartialEq + PartialOrd + Debug + Clone + 'static { fn draw(r: &mut Rng) -> Self; const NAME: &'static str; }
impl Cmp for u8 { fn draw(r: &mut Rng) -> u8 { r.below(3) as u8 } const NAME: &'static str = "u8"; }
impl Cmp for i64 { fn draw(r: &mut Rng) -> i64 { [0, -1, i64::MAX, 256][r.below(4)] } const NAME: &'static str = "i64"; }
impl Cmp for String { fn draw(r: &mut Rng) -> String { ["", "a", "b", "ab\n\""][r.below(4)].to_string() } const NAME: &'static str = "String"; }
impl Cmp for () { fn draw(_: &mut Rng) {} const NAME: &'static str = "()"; }
impl Cmp for Option<Vec<u8>> { fn draw(r: &mut Rng) -> Self { if r.chance(1, 4) { None } else { Some((0..r.below(3)).map(|_| r.below(2) as u8).collect()) } } const NAME: &'static str = "Option<Vec<u8>>"; }
impl Cmp for f64 { fn draw(r: &mut Rng) -> f64 { [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY][r.below(5)] } const NAME: &'static str = "f64"; }

/// The extra bounds of each family's types that the checks need.
macro_rules! engine {
    ($mod:ident, $F:ty, $S:ident, $M:ident) => {
        mod $mod {
            use super::*;
            use rc_slice::{$S, $M};

            fn t() -> Tags { c(11) }
            fn eqn<X: PartialEq + Debug>(kind: &'static str, a: X, b: X, what: &str, x: &dyn Debug, y: &dyn Debug) -> Res {
                if a == b { Ok(()) } else { fail(kind, t(), format!("{}::{} of {:?} and {:?} is {:?}, but {:?} for the slices of items", stringify!($S), what, x, y, a, b)) }
            }

            /// Subslices holding exactly `v`, as some part of a larger buffer.
            fn slices<T: Cmp>(v: &[T], r: &mut Rng) -> ($S<T>, $M<T>) {
                let mk = |r: &mut Rng| -> $S<T> {
                    let n = v.len();
                    match r.below(5) {
                        0 => $S::from_vec(v.to_vec()),
                        // Left half: the right one is n or n + 1 longer
                        1 => { let mut x = v.to_vec(); for _ in 0..n + r.below(2) { x.push(T::draw(r)); } let s: $S<T> = x.into(); $S::clone_left(&s) }
                        // Right half
                        2 => { let pre = if n > 0 { n - r.below(2) } else { 0 }; let mut x: Vec<T> = (0..pre).map(|_| T::draw(r)).collect(); x.extend_from_slice(v); let s: $S<T> = x.into(); $S::clone_right(&s) }
                        3 => v.iter().cloned().collect(),
                        // A quarter in the middle
                        _ => {
                            let mut x: Vec<T> = (0..n).map(|_| T::draw(r)).collect();
                            x.extend_from_slice(v);
                            x.extend((0..2 * n).map(|_| T::draw(r)));
                            let s = $S::from_vec(x);
                            let mut p = $S::split_into_parts(s, 4);
                            p.nth(1).unwrap()
                        }
                    }
                };
                let s = mk(r);
                let m = match r.below(3) {
                    0 => { let a = mk(r); match $S::into_mut(a) { Ok(m) => m, Err(s) => $M::from_vec(s.to_vec()) } }
                    1 => { let mut x = v.to_vec(); x.extend((0..v.len()).map(|_| T::draw(r))); let mut m = $M::from_vec(x); $M::split_off_left(&mut m) }
                    _ => $M::from_vec(v.to_vec()),
                };
                (s, m)
            }

            fn partial<T: Cmp>(r: &mut Rng, st: &mut TStats) -> Res {
                let a = vecs::<T>(r);
                let b = if r.chance(1, 4) { a.clone() } else { near(&a, r) };
                let (sa, ma) = slices(&a, r);
                let (sb, mb) = slices(&b, r);
                let (va, vb) = (&a[..], &b[..]);
                if sa.len() != a.len() || sb.len() != b.len() || ma.len() != a.len() { return fail("VIEW", t() | c(4), "harness: built a different slice".into()); }
                st.sigs.insert(mix(hash_of(&format!("{}{:?}{:?}", T::NAME, a, b)).finish()));
                st.n += 1;
                if !a.is_empty() || !b.is_empty() { st.nt += 1; }
                eqn("CMP", sa == sb, va == vb, "eq", &a, &b)?;
                eqn("CMP", sa != sb, va != vb, "ne", &a, &b)?;
                eqn("CMP", sa.partial_cmp(&sb), va.partial_cmp(vb), "partial_cmp", &a, &b)?;
                eqn("CMP", (sa < sb, sa <= sb, sa > sb, sa >= sb), (va < vb, va <= vb, va > vb, va >= vb), "lt/le/gt/ge", &a, &b)?;
                eqn("CMP", ma == mb, va == vb, "Mut eq", &a, &b)?;
                eqn("CMP", ma != mb, va != vb, "Mut ne", &a, &b)?;
                eqn("CMP", ma.partial_cmp(&mb), va.partial_cmp(vb), "Mut partial_cmp", &a, &b)?;
                eqn("CMP", (ma < mb, ma <= mb, ma > mb, ma >= mb), (va < vb, va <= vb, va > vb, va >= vb), "Mut lt/le/gt/ge", &a, &b)?;
                // A clone shares the items but not necessarily their equality with themselves
                let sc = sa.clone();
                eqn("CMP", sc == sa, va == va, "clone eq", &a, &a)?;
                eqn("CMP", sa.partial_cmp(&sc), va.partial_cmp(va), "clone partial_cmp", &a, &a)?;
                for (x, y) in [(format!("{:?}", sa), format!("{:?}", va)), (format!("{:#?}", sa), format!("{:#?}", va)), (format!("{:4?}", ma), format!("{:4?}", va)), (format!("{:#?}", mb), format!("{:#?}", vb)), (format!("{:?}", ma), format!("{:?}", va))] {
                    if x != y { return fail("DEBUG", t(), format!("Debug output {} differs from that of the slice: {}", x, y)); }
                }
                // Indentation aside, the alternate form shows them the same way
                let flat = |s: String| s.lines().map(|l| l.trim()).collect::<String>();
                let ia = ma.into_iter();
                let (it, want) = (flat(format!("{:#?}", ia)), flat(format!("{:#?}", va)));
                if !it.contains(&want) { return fail("DEBUG", t() | c(10), format!("Debug output {} of the item iterator doesn't show the remaining items {}", it, want)); }
                let (pp, want) = (flat(format!("{:#?}", $S::split_into_parts(sb.clone(), 4))), flat(format!("{:#?}", vb)));
                if !pp.contains(&want) { return fail("DEBUG", t() | c(5), format!("Debug output {} of the parts iterator doesn't show the remaining items {}", pp, want)); }
                let it = format!("{:?}", ia);
                let want = format!("{:?}", va);
                if !it.contains(&want) { return fail("DEBUG", t() | c(10), format!("Debug output {} of the item iterator doesn't show the remaining items {}", it, want)); }
                let pp = format!("{:?}", $S::split_into_parts(sb.clone(), 4));
                let want = format!("{:?}", vb);
                if !pp.contains(&want) { return fail("DEBUG", t() | c(5), format!("Debug output {} of the parts iterator doesn't show the remaining items {}", pp, want)); }
                let refs: [(&[T], &str); 3] = [(&sa, "Deref"), (sa.as_ref(), "AsRef"), (sa.borrow(), "Borrow")];
                for (x, what) in refs {
                    if x.len() != a.len() || x.as_ptr() != (&sa[..]).as_ptr() || format!("{:?}", x) != format!("{:?}", va) { return fail("BORROW", t(), format!("{} doesn't give the slice's items", what)); }
                }
                let mut mb = mb;
                let p = (&mb[..]).as_ptr();
                let l = mb.len();
                { let x: &[T] = mb.as_ref(); if x.as_ptr() != p || x.len() != l { return fail("BORROW", t(), "Mut AsRef".into()); } }
                { let x: &[T] = mb.borrow(); if x.as_ptr() != p || x.len() != l { return fail("BORROW", t(), "Mut Borrow".into()); } }
                { let x: &mut [T] = mb.as_mut(); if x.as_ptr() != p || x.len() != l { return fail("BORROW", t(), "Mut AsMut".into()); } }
                { let x: &mut [T] = std::borrow::BorrowMut::borrow_mut(&mut mb); if x.as_ptr() != p || x.len() != l { return fail("BORROW", t(), "Mut BorrowMut".into()); } }
                { let x: &mut [T] = &mut mb; if x.as_ptr() != p || x.len() != l { return fail("BORROW", t(), "Mut DerefMut".into()); } }
                // The deep copy is equal item for item, and elsewhere
                let mc = mb.clone();
                if format!("{:?}", mc) != format!("{:?}", vb) { return fail("CLONE", t() | c(9), format!("clone of {:?} is {:?}", b, mc)); }
                if std::mem::size_of::<T>() > 0 && l > 0 && mc.as_ptr() == p { return fail("CLONE", t() | c(9), "the deep copy shares the items".into()); }
                Ok(())
            }

            fn total<T: Cmp + Ord + Hash>(r: &mut Rng, st: &mut TStats) -> Res {
                partial::<T>(r, st)?;
                let a = vecs::<T>(r);
                let b = if r.chance(1, 3) { a.clone() } else { near(&a, r) };
                let (sa, ma) = slices(&a, r);
                let (sb, mb) = slices(&b, r);
                eqn("CMP", sa.cmp(&sb), a.cmp(&b), "cmp", &a, &b)?;
                eqn("CMP", ma.cmp(&mb), a.cmp(&b), "Mut cmp", &a, &b)?;
                eqn("CMP", sa.clone().max(sb.clone()).to_vec(), a.clone().max(b.clone()), "max", &a, &b)?;
                eqn("HASH", hash_of(&sa), hash_of(&a[..]), "hash", &a, &a)?;
                eqn("HASH", hash_of(&ma), hash_of(&a[..]), "Mut hash", &a, &a)?;
                eqn("HASH", hash_of(&(3u8, sb.clone(), 4u8)), hash_of(&(3u8, &b[..], 4u8)), "hash in a tuple", &b, &b)?;
                // Collections keyed by slices, looked up by borrowed slices
                let mut hm: HashMap<$S<T>, usize> = HashMap::new();
                let mut bm: BTreeMap<$M<T>, usize> = BTreeMap::new();
                let mut hs: HashSet<$M<T>> = HashSet::new();
                let mut bs: BTreeSet<$S<T>> = BTreeSet::new();
                let mut model: BTreeMap<Vec<T>, usize> = BTreeMap::new();
                let keys: Vec<Vec<T>> = (0..6).map(|_| near(&a, r)).collect();
                for (i, k) in keys.iter().enumerate() {
                    let (s, m) = slices(k, r);
                    let (s2, m2) = slices(k, r);
                    hm.insert(s, i); bm.insert(m, i); hs.insert(m2); bs.insert(s2);
                    model.insert(k.clone(), i);
                }
                for k in keys.iter().chain([&a, &b]) {
                    let w = model.get(k).copied();
                    let q = &k[..];
                    eqn("LOOKUP", (hm.get(q).copied(), bm.get(q).copied(), hs.contains(q), bs.contains(q)), (w, w, w.is_some(), w.is_some()), "lookup by borrowed slice", k, &keys)?;
                }
                let order: Vec<Vec<T>> = bm.keys().map(|k| k.to_vec()).collect();
                eqn("CMP", order, model.keys().cloned().collect::<Vec<_>>(), "order of map keys", &keys, &keys)?;
                eqn("HASH", hm.len(), model.len(), "number of distinct keys", &keys, &keys)?;
                Ok(())
            }

            /// Comparison across item types
            fn cross(r: &mut Rng) -> Res {
                let a = vecs::<u8>(r);
                let b: Vec<Wrap> = near(&a, r).into_iter().map(Wrap).collect();
                let sa = $S::from_vec(b.clone());
                let sb = $S::from_vec(a.clone());
                eqn("CMP", (sa == sb, sa != sb), (b[..] == a[..], b[..] != a[..]), "eq across item types", &b, &a)?;
                let ma = $M::from_vec(b.clone());
                let mb = $M::from_vec(a.clone());
                eqn("CMP", (ma == mb, ma != mb), (b[..] == a[..], b[..] != a[..]), "Mut eq across item types", &b, &a)
            }

            pub fn one(r: &mut Rng, st: &mut TStats) -> Res {
                match r.below(7) {
                    0 => total::<u8>(r, st), 1 => total::<i64>(r, st), 2 => total::<String>(r, st), 3 => total::<()>(r, st),
                    4 => total::<Option<Vec<u8>>>(r, st), 5 => cross(r), _ => partial::<f64>(r, st),
                }
            }
        }
    };
}

#[derive(Clone, Debug)]
struct Wrap(u8);
impl PartialEq<u8> for Wrap {
    fn eq(&self, o: &u8) -> bool { self.0 == *o }
    // Inconsistent on purpose: `!=` on slices must be that of the slice of items
    fn ne(&self, o: &u8) -> bool { self.0 != *o }
}

fn vecs<T: Cmp>(r: &mut Rng) -> Vec<T> { let n = [0, 0, 1, 1, 2, 2, 3, 4, 5, 8][r.below(10)]; (0..n).map(|_| T::draw(r)).collect() }
/// Something close to `a`: a prefix, an extension, one item changed, or unrelated.
fn near<T: Cmp>(a: &[T], r: &mut Rng) -> Vec<T> {
    let mut v = a.to_vec();
    match r.below(5) {
        0 => { v.pop(); }
        1 => v.push(T::draw(r)),
        2 => if !v.is_empty() { let i = r.below(v.len()); v[i] = T::draw(r); },
        3 => if !v.is_empty() { let i = v.len() - 1; v[i] = T::draw(r); },
        _ => v = vecs(r),
    }
    v
}

#[derive(Default)]
pub struct TStats { n: u64, nt: u64, sigs: HashSet<u64> }

engine!(rc, RcF, RcSlice, RcSliceMut);
engine!(arc, ArcF, ArcSlice, ArcSliceMut);

pub fn run(fam: &str, seed0: u64, count: u64, secs: f64, exact: bool) {
    let mut st = TStats::default();
    let _ = (RcF::NAME, ArcF::NAME);
    CUR_TAGS.store((c(11) | c(16)) as u64, Relaxed);
    let t0 = crate::now();
    let mut bad = None;
    for i in 0..count {
        if secs > 0.0 && crate::now() - t0 > secs { break; }
        let seed = if exact { seed0 } else { mix(seed0.wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d)) };
        report::progress(seed);
        OPCTR.fetch_add(1, Relaxed);
        let mut r = Rng::new(seed);
        let res = catch_unwind(AssertUnwindSafe(|| if fam == "rc" { rc::one(&mut r, &mut st) } else { arc::one(&mut r, &mut st) }))
            .unwrap_or_else(|p| fail("PANIC", c(11) | c(12), format!("a call with valid arguments panicked: {}", panic_text(p))));
        if let Err(f) = res { bad = Some((f, seed)); break; }
    }
    if let Some((f, seed)) = &bad { report::fail(f, "traits", fam, "", *seed, ""); }
    report::sigs("traits", &st.sigs);
    report::line(&format!("@STATS {{\"engine\":\"traits\",\"histories\":{},\"nontrivial\":{},\"sigs\":{},\"counts\":{{}}}}", st.n, st.nt, st.sigs.len()));
    if bad.is_some() { std::process::exit(3); }
}
