//! One view of the public API of both families, so that every monitor runs
//! against RcSlice and ArcSlice alike.

use std::fmt::Debug;
use std::iter::FusedIterator;
use std::ops::{Deref, DerefMut};

pub trait Fam: Copy + 'static {
    const ARC: bool;
    const NAME: &'static str;
    type S<T>: Deref<Target = [T]> + Clone;
    type W<T>: Clone;
    type P<T>: Iterator<Item = Self::S<T>> + DoubleEndedIterator + ExactSizeIterator + FusedIterator + Clone;
    type M<T>: DerefMut<Target = [T]> + IntoIterator<Item = T, IntoIter = Self::I<T>>;
    type I<T>: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + FusedIterator;
    type MP<T>: Iterator<Item = Self::M<T>> + DoubleEndedIterator + ExactSizeIterator + FusedIterator;

    fn s_from_vec<T>(v: Vec<T>) -> Self::S<T>;
    fn s_from_box<T>(v: Box<[T]>) -> Self::S<T>;
    fn s_from_vec2<T>(v: Vec<T>) -> Self::S<T>;
    fn s_from_box2<T>(v: Box<[T]>) -> Self::S<T>;
    fn s_collect<T, I: Iterator<Item = T>>(i: I) -> Self::S<T>;
    fn clone_left<T>(s: &Self::S<T>) -> Self::S<T>;
    fn clone_right<T>(s: &Self::S<T>) -> Self::S<T>;
    fn split_left<T>(s: &mut Self::S<T>) -> Self::S<T>;
    fn split_right<T>(s: &mut Self::S<T>) -> Self::S<T>;
    fn parts<T>(s: Self::S<T>, n: usize) -> Self::P<T>;
    fn get_mut<T>(s: &mut Self::S<T>) -> Option<&mut [T]>;
    fn into_mut<T>(s: Self::S<T>) -> Result<Self::M<T>, Self::S<T>>;
    fn try_from<T>(s: Self::S<T>) -> Result<Self::M<T>, Self::S<T>>;
    fn downgrade<T>(s: &Self::S<T>) -> Self::W<T>;
    fn s_as_ref<T>(s: &Self::S<T>) -> &[T];
    fn s_borrow<T>(s: &Self::S<T>) -> &[T];

    fn s_eq<T: PartialEq>(a: &Self::S<T>, b: &Self::S<T>) -> bool;

    fn w_new<T>() -> Self::W<T>;
    fn upgrade<T>(w: &Self::W<T>) -> Option<Self::S<T>>;

    fn p_as_slice<T>(p: &Self::P<T>) -> &[T];
    fn p_debug<T: Debug>(p: &Self::P<T>) -> String;

    fn m_from_vec<T>(v: Vec<T>) -> Self::M<T>;
    fn m_from_box<T>(v: Box<[T]>) -> Self::M<T>;
    fn m_from_vec2<T>(v: Vec<T>) -> Self::M<T>;
    fn m_from_box2<T>(v: Box<[T]>) -> Self::M<T>;
    fn m_collect<T, I: Iterator<Item = T>>(i: I) -> Self::M<T>;
    fn m_split_left<T>(m: &mut Self::M<T>) -> Self::M<T>;
    fn m_split_right<T>(m: &mut Self::M<T>) -> Self::M<T>;
    fn m_parts<T>(m: Self::M<T>, n: usize) -> Self::MP<T>;
    fn into_immut<T>(m: Self::M<T>) -> Self::S<T>;
    fn s_from_m<T>(m: Self::M<T>) -> Self::S<T>;
    fn m_clone<T: Clone>(m: &Self::M<T>) -> Self::M<T>;
    fn m_as_ref<T>(m: &Self::M<T>) -> &[T];
    fn m_borrow<T>(m: &Self::M<T>) -> &[T];
    fn m_as_mut<T>(m: &mut Self::M<T>) -> &mut [T];
    fn m_borrow_mut<T>(m: &mut Self::M<T>) -> &mut [T];

    fn i_as_slice<T>(i: &Self::I<T>) -> &[T];
    fn i_as_mut_slice<T>(i: &mut Self::I<T>) -> &mut [T];
    fn i_split_from<T>(i: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn i_split_to<T>(i: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn i_debug<T: Debug>(i: &Self::I<T>) -> String;

    fn mp_as_slice<T>(p: &Self::MP<T>) -> &[T];
    fn mp_as_mut_slice<T>(p: &mut Self::MP<T>) -> &mut [T];
    fn mp_debug<T: Debug>(p: &Self::MP<T>) -> String;
}

macro_rules! fam {
    ($name:ident, $arc:expr, $str:expr, $S:ident, $M:ident, $md:ident, $P:ident, $I:ident, $MP:ident) => {
        #[derive(Clone, Copy)]
        pub struct $name;
        impl Fam for $name {
            const ARC: bool = $arc;
            const NAME: &'static str = $str;
            type S<T> = rc_slice::$S<T>;
            type W<T> = rc_slice::$md::WeakSlice<T>;
            type P<T> = rc_slice::$md::$P<T>;
            type M<T> = rc_slice::$M<T>;
            type I<T> = rc_slice::$md::$I<T>;
            type MP<T> = rc_slice::$md::$MP<T>;

            fn s_from_vec<T>(v: Vec<T>) -> Self::S<T> { rc_slice::$S::from_vec(v) }
            fn s_from_box<T>(v: Box<[T]>) -> Self::S<T> { rc_slice::$S::from_boxed_slice(v) }
            fn s_from_vec2<T>(v: Vec<T>) -> Self::S<T> { v.into() }
            fn s_from_box2<T>(v: Box<[T]>) -> Self::S<T> { v.into() }
            fn s_eq<T: PartialEq>(a: &Self::S<T>, b: &Self::S<T>) -> bool { a == b }
            fn s_collect<T, I: Iterator<Item = T>>(i: I) -> Self::S<T> { i.collect() }
            fn clone_left<T>(s: &Self::S<T>) -> Self::S<T> { rc_slice::$S::clone_left(s) }
            fn clone_right<T>(s: &Self::S<T>) -> Self::S<T> { rc_slice::$S::clone_right(s) }
            fn split_left<T>(s: &mut Self::S<T>) -> Self::S<T> { rc_slice::$S::split_off_left(s) }
            fn split_right<T>(s: &mut Self::S<T>) -> Self::S<T> { rc_slice::$S::split_off_right(s) }
            fn parts<T>(s: Self::S<T>, n: usize) -> Self::P<T> { rc_slice::$S::split_into_parts(s, n) }
            fn get_mut<T>(s: &mut Self::S<T>) -> Option<&mut [T]> { rc_slice::$S::get_mut(s) }
            fn into_mut<T>(s: Self::S<T>) -> Result<Self::M<T>, Self::S<T>> { rc_slice::$S::into_mut(s) }
            fn try_from<T>(s: Self::S<T>) -> Result<Self::M<T>, Self::S<T>> {
                <rc_slice::$M<T> as std::convert::TryFrom<rc_slice::$S<T>>>::try_from(s)
            }
            fn downgrade<T>(s: &Self::S<T>) -> Self::W<T> { rc_slice::$S::downgrade(s) }
            fn s_as_ref<T>(s: &Self::S<T>) -> &[T] { s.as_ref() }
            fn s_borrow<T>(s: &Self::S<T>) -> &[T] { std::borrow::Borrow::borrow(s) }

            fn w_new<T>() -> Self::W<T> { rc_slice::$md::WeakSlice::new() }
            fn upgrade<T>(w: &Self::W<T>) -> Option<Self::S<T>> { w.upgrade() }

            fn p_as_slice<T>(p: &Self::P<T>) -> &[T] { p.as_slice() }
            fn p_debug<T: Debug>(p: &Self::P<T>) -> String { format!("{:?}", p) }

            fn m_from_vec<T>(v: Vec<T>) -> Self::M<T> { rc_slice::$M::from_vec(v) }
            fn m_from_box<T>(v: Box<[T]>) -> Self::M<T> { rc_slice::$M::from_boxed_slice(v) }
            fn m_from_vec2<T>(v: Vec<T>) -> Self::M<T> { v.into() }
            fn m_from_box2<T>(v: Box<[T]>) -> Self::M<T> { v.into() }
            fn m_collect<T, I: Iterator<Item = T>>(i: I) -> Self::M<T> { i.collect() }
            fn m_split_left<T>(m: &mut Self::M<T>) -> Self::M<T> { rc_slice::$M::split_off_left(m) }
            fn m_split_right<T>(m: &mut Self::M<T>) -> Self::M<T> { rc_slice::$M::split_off_right(m) }
            fn m_parts<T>(m: Self::M<T>, n: usize) -> Self::MP<T> { rc_slice::$M::split_into_parts(m, n) }
            fn into_immut<T>(m: Self::M<T>) -> Self::S<T> { rc_slice::$M::into_immut(m) }
            fn s_from_m<T>(m: Self::M<T>) -> Self::S<T> { m.into() }
            fn m_clone<T: Clone>(m: &Self::M<T>) -> Self::M<T> { m.clone() }
            fn m_as_ref<T>(m: &Self::M<T>) -> &[T] { m.as_ref() }
            fn m_borrow<T>(m: &Self::M<T>) -> &[T] { std::borrow::Borrow::borrow(m) }
            fn m_as_mut<T>(m: &mut Self::M<T>) -> &mut [T] { m.as_mut() }
            fn m_borrow_mut<T>(m: &mut Self::M<T>) -> &mut [T] { std::borrow::BorrowMut::borrow_mut(m) }

            fn i_as_slice<T>(i: &Self::I<T>) -> &[T] { i.as_slice() }
            fn i_as_mut_slice<T>(i: &mut Self::I<T>) -> &mut [T] { i.as_mut_slice() }
            fn i_split_from<T>(i: &mut Self::I<T>, at: usize) -> Self::I<T> { i.split_off_from(at) }
            fn i_split_to<T>(i: &mut Self::I<T>, at: usize) -> Self::I<T> { i.split_off_to(at) }
            fn i_debug<T: Debug>(i: &Self::I<T>) -> String { format!("{:?}", i) }

            fn mp_as_slice<T>(p: &Self::MP<T>) -> &[T] { p.as_slice() }
            fn mp_as_mut_slice<T>(p: &mut Self::MP<T>) -> &mut [T] { p.as_mut_slice() }
            fn mp_debug<T: Debug>(p: &Self::MP<T>) -> String { format!("{:?}", p) }
        }
    };
}

fam!(RcF, false, "rc", RcSlice, RcSliceMut, rc, RcSliceParts, RcSliceMutIter, RcSliceMutParts);
fam!(ArcF, true, "arc", ArcSlice, ArcSliceMut, arc, ArcSliceParts, ArcSliceMutIter, ArcSliceMutParts);
