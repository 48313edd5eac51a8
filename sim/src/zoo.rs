//! Target types: every built-in implementation and a range of derived ones, each with its description.

use crate::conv::{Flds, NOTHING, PICKY, TD, TV};
use crate::ty::{SimResolver, Tid};
use codec::Compact;
use primitive_types::{H128, H160, H256, H384, H512, H768};
use scale_bits::Bits;
use crate::sim::{self, chance, draw};
use scale_decode::error::Location;
use scale_decode::visitor::types::{Array, Composite, Sequence, Tuple};
use scale_decode::visitor::{decode_with_visitor, DecodeAsTypeResult, TypeIdFor};
use scale_decode::{DecodeAsFields, DecodeAsType, Error, FieldIter, IntoVisitor, Visitor};
use scale_type_resolver::TypeResolver;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub trait Zoo: DecodeAsType + Sized {
    fn td() -> TD;
    fn tv(&self) -> TV;
}

macro_rules! ints { ($($t:ident $s:expr, $w:expr, $k:ident $c:ty;)*) => {$(
    impl Zoo for $t { fn td() -> TD { TD::Int { signed: $s, w: $w, nz: false } } fn tv(&self) -> TV { TV::$k(*self as $c) } }
)*}; }
ints! { u8 false, 8, U u128; u16 false, 16, U u128; u32 false, 32, U u128; u64 false, 64, U u128; u128 false, 128, U u128; usize false, usize::BITS, U u128;
        i8 true, 8, I i128; i16 true, 16, I i128; i32 true, 32, I i128; i64 true, 64, I i128; i128 true, 128, I i128; isize true, isize::BITS, I i128; }
macro_rules! nzs { ($($t:ident $s:expr, $w:expr, $k:ident $c:ty;)*) => {$(
    impl Zoo for $t { fn td() -> TD { TD::Int { signed: $s, w: $w, nz: true } } fn tv(&self) -> TV { TV::$k(self.get() as $c) } }
)*}; }
nzs! { NonZeroU8 false, 8, U u128; NonZeroU16 false, 16, U u128; NonZeroU32 false, 32, U u128; NonZeroU64 false, 64, U u128; NonZeroU128 false, 128, U u128;
       NonZeroI8 true, 8, I i128; NonZeroI16 true, 16, I i128; NonZeroI32 true, 32, I i128; NonZeroI64 true, 64, I i128; NonZeroI128 true, 128, I i128; }

impl Zoo for bool { fn td() -> TD { TD::Bool } fn tv(&self) -> TV { TV::B(*self) } }
impl Zoo for char { fn td() -> TD { TD::Char } fn tv(&self) -> TV { TV::C(*self) } }
impl Zoo for String { fn td() -> TD { TD::Str } fn tv(&self) -> TV { TV::S(self.clone()) } }
impl Zoo for Bits { fn td() -> TD { TD::Bits } fn tv(&self) -> TV { TV::Bits(self.iter().collect()) } }
impl<T> Zoo for PhantomData<T> { fn td() -> TD { TD::Unit } fn tv(&self) -> TV { TV::L(vec![]) } }

macro_rules! wraps { ($($t:ident)*) => {$(
    impl<T: Zoo> Zoo for $t<T> { fn td() -> TD { TD::Wrap(Box::new(T::td())) } fn tv(&self) -> TV { T::tv(self) } }
)*}; }
wraps! { Box Arc Rc }
impl<T: Zoo> Zoo for Compact<T> where Compact<T>: DecodeAsType { fn td() -> TD { TD::Wrap(Box::new(T::td())) } fn tv(&self) -> TV { self.0.tv() } }
impl Zoo for Cow<'static, str> { fn td() -> TD { TD::Wrap(Box::new(TD::Str)) } fn tv(&self) -> TV { TV::S(self.to_string()) } }
impl Zoo for Cow<'static, u64> { fn td() -> TD { TD::Wrap(Box::new(u64::td())) } fn tv(&self) -> TV { self.as_ref().tv() } }
impl Zoo for Cow<'static, S7> { fn td() -> TD { TD::Wrap(Box::new(S7::td())) } fn tv(&self) -> TV { self.as_ref().tv() } }
impl<T: Zoo + Clone> Zoo for Cow<'static, [T]> { fn td() -> TD { TD::Wrap(Box::new(TD::List(Box::new(T::td())))) } fn tv(&self) -> TV { TV::L(self.iter().map(T::tv).collect()) } }

macro_rules! lists { ($($t:ident)*) => {$(
    impl<T: Zoo> Zoo for $t<T> { fn td() -> TD { TD::List(Box::new(T::td())) } fn tv(&self) -> TV { TV::L(self.iter().map(T::tv).collect()) } }
)*}; }
lists! { Vec VecDeque LinkedList }
fn sorted(mut v: Vec<TV>) -> TV { v.sort(); TV::L(v) }
impl<T: Zoo + Ord> Zoo for BinaryHeap<T> { fn td() -> TD { TD::Sorted(Box::new(T::td()), false) } fn tv(&self) -> TV { sorted(self.iter().map(T::tv).collect()) } }
impl<T: Zoo + Ord> Zoo for BTreeSet<T> { fn td() -> TD { TD::Sorted(Box::new(T::td()), true) } fn tv(&self) -> TV { sorted(self.iter().map(T::tv).collect()) } }
impl<T: Zoo, const N: usize> Zoo for [T; N] { fn td() -> TD { TD::Arr(Box::new(T::td()), N) } fn tv(&self) -> TV { TV::L(self.iter().map(T::tv).collect()) } }
impl<T: Zoo> Zoo for BTreeMap<String, T> {
    fn td() -> TD { TD::Map(Box::new(T::td())) }
    fn tv(&self) -> TV { TV::M(self.iter().map(|(k, v)| (k.clone(), v.tv())).collect()) }
}
impl<T: Zoo> Zoo for Option<T> {
    fn td() -> TD { TD::Opt(Box::new(T::td())) }
    fn tv(&self) -> TV { match self { Some(x) => TV::V("Some", vec![x.tv()]), None => TV::V("None", vec![]) } }
}
impl<T: Zoo, E: Zoo> Zoo for Result<T, E> {
    fn td() -> TD { TD::Res(Box::new(T::td()), Box::new(E::td())) }
    fn tv(&self) -> TV { match self { Ok(x) => TV::V("Ok", vec![x.tv()]), Err(x) => TV::V("Err", vec![x.tv()]) } }
}
impl Zoo for Duration { fn td() -> TD { TD::Dur } fn tv(&self) -> TV { TV::D(self.as_secs(), self.subsec_nanos()) } }
impl<T: Zoo> Zoo for Range<T> { fn td() -> TD { TD::Range(Box::new(T::td())) } fn tv(&self) -> TV { TV::L(vec![self.start.tv(), self.end.tv()]) } }
impl<T: Zoo> Zoo for RangeInclusive<T> { fn td() -> TD { TD::Range(Box::new(T::td())) } fn tv(&self) -> TV { TV::L(vec![self.start().tv(), self.end().tv()]) } }
macro_rules! hs { ($($t:ident $n:expr;)*) => {$(
    impl Zoo for $t { fn td() -> TD { TD::Wrap(Box::new(TD::Arr(Box::new(u8::td()), $n))) } fn tv(&self) -> TV { TV::L(self.as_bytes().iter().map(u8::tv).collect()) } }
)*}; }
hs! { H128 16; H160 20; H256 32; H384 48; H512 64; H768 96; }

macro_rules! tuples { ($(($($t:ident $i:tt)*))*) => {$(
    impl<$($t: Zoo,)*> Zoo for ($($t,)*) {
        fn td() -> TD { TD::Tup(vec![$($t::td(),)*]) }
        fn tv(&self) -> TV { TV::L(vec![$(self.$i.tv(),)*]) }
    }
)*}; }
tuples! { () (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3) (A 0 B 1 C 2 D 3 E 4) (A 0 B 1 C 2 D 3 E 4 F 5)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14 P 15)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14 P 15 Q 16)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14 P 15 Q 16 R 17)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14 P 15 Q 16 R 17 S 18)
  (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14 P 15 Q 16 R 17 S 18 T 19) }
impl<A: Zoo> Zoo for (A,) { fn td() -> TD { TD::One(Box::new(A::td())) } fn tv(&self) -> TV { TV::L(vec![self.0.tv()]) } }

// --- derived ---
/// A field the derive skips: must come back as its default.
pub fn skipped<T: Default + PartialEq>(v: &T) -> TV {
    if *v == T::default() { TV::Dflt } else { TV::S("a skipped field is not its default".into()) }
}
macro_rules! fval { ($v:expr, true) => { skipped($v) }; ($v:expr, false) => { Zoo::tv($v) }; }
macro_rules! ftd { ($t:ty, true) => { TD::Unit }; ($t:ty, false) => { <$t as Zoo>::td() }; }

macro_rules! named { ($n:ident $(<$($g:ident),*>)? { $($(#[$m:meta])* $f:ident : $t:ty = $s:tt),* $(,)? }) => {
    #[derive(DecodeAsType, Clone)]
    pub struct $n $(<$($g),*>)? { $($(#[$m])* pub $f: $t),* }
    impl $(<$($g: Zoo),*>)? Zoo for $n $(<$($g),*>)? {
        fn td() -> TD { TD::Struct(Flds::Named(vec![$((stringify!($f), ftd!($t, $s), $s)),*])) }
        fn tv(&self) -> TV { TV::V("", vec![$(fval!(&self.$f, $s)),*]) }
    }
}; }
macro_rules! unnamed { ($n:ident $(<$($g:ident),*>)? ( $($(#[$m:meta])* $i:ident : $t:ty = $s:tt),* $(,)? )) => {
    #[derive(DecodeAsType, Clone)]
    pub struct $n $(<$($g),*>)? ( $($(#[$m])* pub $t),* );
    impl $(<$($g: Zoo),*>)? Zoo for $n $(<$($g),*>)? {
        fn td() -> TD { TD::Struct(Flds::Unnamed(vec![$((ftd!($t, $s), $s)),*])) }
        fn tv(&self) -> TV { let Self($($i),*) = self; TV::V("", vec![$(fval!($i, $s)),*]) }
    }
}; }

named!(S1 { a: u32 = false, b: String = false, c: bool = false });
named!(S2 { value: Compact<u64> = false, who: [u8; 4] = false, #[decode_as_type(skip)] cache: Vec<u8> = true, id: Option<u16> = false });
named!(S3 { inner: S1 = false, x0: (u8, i64) = false, x1: Vec<S5> = false });
named!(S4 { #[codec(skip)] to: u128 = true });
named!(S6 { a: u8 = false });
named!(S9 { #[codec(compact)] a: u32 = false, #[codec(skip)] #[decode_as_type(skip)] cache: u64 = true, b: String = false, #[codec(compact)] #[decode_as_type(skip)] value: u64 = true });
unnamed!(S10(#[codec(compact)] a: u64 = false, #[codec(compact)] #[decode_as_type(skip)] b: u32 = true, #[decode_as_type(skip)] #[codec(skip)] c: Vec<u8> = true, #[codec(encoded_as = "Compact<u16>")] d: u16 = false));
named!(SBig { a: u8 = false, b: u16 = false, c: u32 = false, value: u64 = false, id: u128 = false, x0: i8 = false, x1: i16 = false, inner: i32 = false, to: i64 = false,
    amount: i128 = false, who: bool = false, f12: char = false, f13: String = false, f14: Option<u8> = false, f15: u8 = false, f16: u8 = false, f17: Vec<u8> = false });
named!(Raw { r#type: u8 = false, r#fn: Option<String> = false });
unnamed!(S5(a: u8 = false, b: Vec<u16> = false));
unnamed!(S7(a: u64 = false));
unnamed!(S8(a: i32 = false, #[decode_as_type(skip)] b: u64 = true, c: String = false, #[codec(skip)] d: Option<bool> = true));
named!(Gen<T> { id: T = false, value: Option<T> = false });
unnamed!(GenT<A, B>(a: A = false, b: B = false));
/// A const parameter, a lifetime and bounds of its own.
#[derive(DecodeAsType, Clone)]
pub struct Cst<const N: usize> { pub a: [u8; N], pub b: Vec<[u16; N]> }
impl<const N: usize> Zoo for Cst<N> {
    fn td() -> TD { TD::Struct(Flds::Named(vec![("a", <[u8; N]>::td(), false), ("b", Vec::<[u16; N]>::td(), false)])) }
    fn tv(&self) -> TV { TV::V("", vec![self.a.tv(), self.b.tv()]) }
}
#[derive(DecodeAsType, Clone)]
pub struct Lt<'a> { pub who: Cow<'a, str>, pub a: Cow<'a, [u8]> }
impl Zoo for Lt<'static> {
    fn td() -> TD { TD::Struct(Flds::Named(vec![("who", <Cow<'static, str>>::td(), false), ("a", <Cow<'static, [u8]>>::td(), false)])) }
    fn tv(&self) -> TV { TV::V("", vec![self.who.tv(), self.a.tv()]) }
}
pub trait Assoc { type X; }
impl Assoc for () { type X = u16; }
#[derive(DecodeAsType, Clone)]
#[decode_as_type(trait_bounds = "T::X: scale_decode::IntoVisitor", crate_path = "scale_decode")]
pub struct Bnd<T: Assoc>(pub T::X, pub Vec<T::X>) where T::X: Clone;
impl Zoo for Bnd<()> {
    fn td() -> TD { TD::Struct(Flds::Unnamed(vec![(u16::td(), false), (Vec::<u16>::td(), false)])) }
    fn tv(&self) -> TV { TV::V("", vec![self.0.tv(), self.1.tv()]) }
}
#[derive(DecodeAsType, Clone)]
pub struct Unit;
impl Zoo for Unit { fn td() -> TD { TD::Struct(Flds::Unit) } fn tv(&self) -> TV { TV::V("", vec![]) } }
#[derive(DecodeAsType, Clone)]
#[decode_as_type(trait_bounds = "")]
pub struct Ph<T> { pub a: u32, #[decode_as_type(skip)] pub m: PhantomData<T> }
impl<T> Zoo for Ph<T> {
    fn td() -> TD { TD::Struct(Flds::Named(vec![("a", u32::td(), false), ("m", TD::Unit, true)])) }
    fn tv(&self) -> TV { TV::V("", vec![self.a.tv(), TV::Dflt]) }
}

macro_rules! enums { ($n:ident $(<$($g:ident),*>)? { $($v:ident $k:ident $b:tt),* $(,)? }) => {
    enums!(@def $n $(<$($g),*>)? [] $($v $k $b,)*);
    impl $(<$($g: Zoo),*>)? Zoo for $n $(<$($g),*>)? {
        fn td() -> TD { TD::Enum(vec![$((stringify!($v), enums!(@td $k $b))),*]) }
        fn tv(&self) -> TV {
            #![allow(unused)]
            $( enums!(@tv self $n $v $k $b); )*
            unreachable!()
        }
    }
};
(@def $n:ident $(<$($g:ident),*>)? [$($done:tt)*] $v:ident unit (), $($rest:tt)*) => { enums!(@def $n $(<$($g),*>)? [$($done)* $v,] $($rest)*); };
(@def $n:ident $(<$($g:ident),*>)? [$($done:tt)*] $v:ident unnamed ($($(#[$m:meta])* $i:ident : $t:ty = $s:tt),*), $($rest:tt)*) => { enums!(@def $n $(<$($g),*>)? [$($done)* $v($($(#[$m])* $t),*),] $($rest)*); };
(@def $n:ident $(<$($g:ident),*>)? [$($done:tt)*] $v:ident named ($($(#[$m:meta])* $i:ident : $t:ty = $s:tt),*), $($rest:tt)*) => { enums!(@def $n $(<$($g),*>)? [$($done)* $v{$($(#[$m])* $i: $t),*},] $($rest)*); };
(@def $n:ident $(<$($g:ident),*>)? [$($done:tt)*]) => { #[derive(DecodeAsType, Clone)] pub enum $n $(<$($g),*>)? { $($done)* } };
(@td unit ()) => { Flds::Unit };
(@td unnamed ($($(#[$m:meta])* $i:ident : $t:ty = $s:tt),*)) => { Flds::Unnamed(vec![$((ftd!($t, $s), $s)),*]) };
(@td named ($($(#[$m:meta])* $i:ident : $t:ty = $s:tt),*)) => { Flds::Named(vec![$((stringify!($i), ftd!($t, $s), $s)),*]) };
(@tv $self:ident $n:ident $v:ident unit ()) => { if let $n::$v = $self { return TV::V(stringify!($v), vec![]); } };
(@tv $self:ident $n:ident $v:ident unnamed ($($(#[$m:meta])* $i:ident : $t:ty = $s:tt),*)) => { if let $n::$v($($i),*) = $self { return TV::V(stringify!($v), vec![$(fval!($i, $s)),*]); } };
(@tv $self:ident $n:ident $v:ident named ($($(#[$m:meta])* $i:ident : $t:ty = $s:tt),*)) => { if let $n::$v{$($i),*} = $self { return TV::V(stringify!($v), vec![$(fval!($i, $s)),*]); } };
}
enums!(E1 { V0 unit (), V1 unnamed (a: u32 = false), V2 named (a: u8 = false, b: String = false), V3 unnamed (a: Vec<u8> = false, b: bool = false) });
enums!(E2 { V1 named (value: E1 = false, #[decode_as_type(skip)] x0: u32 = true), V0 unnamed (a: S1 = false, #[codec(skip)] b: u8 = true, c: u16 = false), Some unnamed (a: u64 = false) });
enums!(E3<T> { V0 unnamed (a: T = false), V1 named (id: T = false, a: Box<T> = false), V2 unit () });
enums!(E5 { V1 named (#[codec(compact)] value: u32 = false, #[codec(skip)] #[decode_as_type(skip)] x0: u8 = true), V2 unnamed (#[decode_as_type(skip)] #[codec(compact)] a: u64 = true, #[codec(compact)] b: u16 = false) });
enums!(E4 { V0 unit (), V1 unit (), V2 unit () });

// single fields behind which compact values may sit
named!(C1 { value: Cow<'static, u64> = false });
named!(C2 { a: Duration = false });
unnamed!(C3(a: Box<Arc<u16>> = false));
named!(C4 { inner: C3 = false });
unnamed!(C5<T>(a: T = false));

/// Types that contain themselves.
macro_rules! rec { ($n:ident { $($f:ident : $t:ty),* }) => {
    #[derive(DecodeAsType, Clone)]
    pub struct $n { $(pub $f: $t),* }
    impl Zoo for $n {
        fn td() -> TD { TD::Rec(stringify!($n), || TD::Struct(Flds::Named(vec![$((stringify!($f), <$t as Zoo>::td(), false)),*]))) }
        fn tv(&self) -> TV { TV::V("", vec![$(self.$f.tv()),*]) }
    }
}; }
rec!(R1 { a: u8, inner: Option<Box<R1>> });
rec!(R2 { id: u16, x0: Vec<R2> });
#[derive(DecodeAsType, Clone)]
pub enum Tree { V0, V1(u8), V2(Box<Tree>, Box<Tree>), V3 { inner: Vec<Tree>, a: u16 }, Some(Arc<R1>) }
impl Zoo for Tree {
    fn td() -> TD {
        TD::Rec("Tree", || TD::Enum(vec![
            ("V0", Flds::Unit),
            ("V1", Flds::Unnamed(vec![(u8::td(), false)])),
            ("V2", Flds::Unnamed(vec![(Tree::td(), false), (Tree::td(), false)])),
            ("V3", Flds::Named(vec![("inner", Vec::<Tree>::td(), false), ("a", u16::td(), false)])),
            ("Some", Flds::Unnamed(vec![(R1::td(), false)])),
        ]))
    }
    fn tv(&self) -> TV {
        match self {
            Tree::V0 => TV::V("V0", vec![]),
            Tree::V1(a) => TV::V("V1", vec![a.tv()]),
            Tree::V2(a, b) => TV::V("V2", vec![a.tv(), b.tv()]),
            Tree::V3 { inner, a } => TV::V("V3", vec![inner.tv(), a.tv()]),
            Tree::Some(a) => TV::V("Some", vec![a.tv()]),
        }
    }
}

/// Targets with visitors of their own, as users write them.
#[derive(Clone, Debug)]
pub struct Picky(u128);
pub struct PickyVisitor<R>(PhantomData<R>);
macro_rules! picky { ($($f:ident $t:ty),*) => {$(
    fn $f<'s, 'r>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Error> {
        if v % 16 == 13 {
            return Err(Error::custom_str(PICKY).at_field("own"));
        }
        Ok(Picky(v as u128))
    }
)*}; }
impl<R: TypeResolver> Visitor for PickyVisitor<R> {
    type Value<'s, 'r> = Picky;
    type Error = Error;
    type TypeResolver = R;
    picky! { visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128 }
}
impl IntoVisitor for Picky {
    type AnyVisitor<R: TypeResolver> = PickyVisitor<R>;
    fn into_visitor<R: TypeResolver>() -> PickyVisitor<R> { PickyVisitor(PhantomData) }
}
impl Zoo for Picky { fn td() -> TD { TD::Picky } fn tv(&self) -> TV { TV::U(self.0) } }
#[derive(Clone, Debug)]
pub struct First<T>(T);
pub struct FirstVisitor<T, R>(PhantomData<(T, R)>);
macro_rules! first { ($($f:ident $t:ident <$($l:lifetime),*>;)*) => {$(
    fn $f<'s, 'r>(self, v: &mut $t<$($l,)* R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Error> {
        match v.decode_item(T::into_visitor::<R>()) {
            Some(r) => r.map(First).map_err(|e| e.at(Location::idx(0))),
            None => Err(Error::custom_string(NOTHING.to_string())),
        }
    }
)*}; }
impl<T: IntoVisitor, R: TypeResolver> Visitor for FirstVisitor<T, R> {
    type Value<'s, 'r> = First<T>;
    type Error = Error;
    type TypeResolver = R;
    first! { visit_sequence Sequence<'s, 'r>; visit_array Array<'s, 'r>; visit_tuple Tuple<'s, 'r>; visit_composite Composite<'s, 'r>; }
}
impl<T: IntoVisitor> IntoVisitor for First<T> {
    type AnyVisitor<R: TypeResolver> = FirstVisitor<T, R>;
    fn into_visitor<R: TypeResolver>() -> FirstVisitor<T, R> { FirstVisitor(PhantomData) }
}
impl<T: Zoo> Zoo for First<T> { fn td() -> TD { TD::First(Box::new(T::td())) } fn tv(&self) -> TV { TV::L(vec![self.0.tv()]) } }
named!(Hand { a: Picky = false, b: First<u16> = false, value: Option<First<Picky>> = false });
enums!(HandE { V0 unnamed (a: First<String> = false, b: Picky = false), V1 named (inner: Vec<Picky> = false), V2 unit () });

pub struct Entry {
    pub name: &'static str,
    pub td: fn() -> TD,
    pub dec: fn(&mut &[u8], Tid, &SimResolver) -> Result<TV, Error>,
    pub dec_big: fn(&mut &[u8], Tid, &SimResolver) -> Result<Box<dyn std::any::Any>, Error>,
    #[allow(clippy::type_complexity)]
    pub fields: Option<for<'r> fn(&mut &[u8], &mut dyn FieldIter<'r, Tid>, &'r SimResolver) -> Result<TV, Error>>,
    pub size: usize,
}
fn dec<T: Zoo>(i: &mut &[u8], t: Tid, r: &SimResolver) -> Result<TV, Error> {
    via(i, t, r).map(|v: T| v.tv())
}
/// The ways to ask for a value of a type.
fn via<T: Zoo>(i: &mut &[u8], t: Tid, r: &SimResolver) -> Result<T, Error> {
    if !chance(1, 8) {
        return T::decode_as_type(i, t, r);
    }
    sim::probe("typed_by_visitor");
    let v = T::into_visitor::<SimResolver>();
    if draw(2) == 0 {
        return decode_with_visitor(i, t, r, v);
    }
    match v.unchecked_decode_as_type(i, t, r) {
        DecodeAsTypeResult::Decoded(x) => x,
        DecodeAsTypeResult::Skipped(v) => decode_with_visitor(i, t, r, v),
    }
}
fn dec_any<T: Zoo + 'static>(i: &mut &[u8], t: Tid, r: &SimResolver) -> Result<Box<dyn std::any::Any>, Error> {
    T::decode_as_type(i, t, r).map(|v| Box::new(v) as Box<dyn std::any::Any>)
}
fn dec_fields<'r, T: Zoo + DecodeAsFields>(i: &mut &[u8], f: &mut dyn FieldIter<'r, Tid>, r: &'r SimResolver) -> Result<TV, Error> {
    T::decode_as_fields(i, f, r).map(|v| v.tv())
}
macro_rules! table {
    ($( $t:ty ),* ; $( $f:ty ),* $(,)?) => {
        pub static ZOO: &[Entry] = &[
            $(Entry { name: stringify!($t), td: <$t as Zoo>::td, dec: dec::<$t>, dec_big: dec_any::<$t>, fields: None, size: std::mem::size_of::<$t>() },)*
            $(Entry { name: stringify!($f), td: <$f as Zoo>::td, dec: dec::<$f>, dec_big: dec_any::<$f>, fields: Some(dec_fields::<$f>), size: std::mem::size_of::<$f>() },)*
        ];
    };
}
type U8s = (u8, u8);
table! {
    u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize,
    NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128,
    bool, char, String, Bits, PhantomData<u8>,
    Compact<u32>, Compact<u128>, Compact<(u64,)>, Box<u64>, Arc<String>, Rc<Vec<u8>>, Box<(u32, bool)>, Cow<'static, str>, Cow<'static, [u16]>,
    Vec<u8>, Vec<u16>, Vec<String>, Vec<u128>, Vec<Vec<u8>>, Vec<(u8, u32)>, Vec<Option<u32>>, Vec<S1>, Vec<E1>, Vec<Compact<u32>>, Vec<Box<i16>>,
    VecDeque<u32>, LinkedList<u16>, LinkedList<S6>, BinaryHeap<u32>, BTreeSet<u8>, BTreeSet<String>, VecDeque<(u64,)>,
    [u8; 0], [u8; 1], [u8; 4], [u16; 3], [u32; 2], [String; 2], [u8; 33], [[u8; 2]; 2], [Option<bool>; 2], [(u8,); 3], [Vec<u8>; 2],
    BTreeMap<String, u32>, BTreeMap<String, String>, BTreeMap<String, S1>, BTreeMap<String, Box<u16>>,
    Option<u8>, Option<String>, Option<Option<u16>>, Option<S1>, Option<(u32,)>, Result<u8, String>, Result<Vec<u8>, E1>, Result<(), u64>,
    Vec<Bits>, Option<Bits>, BTreeMap<String, Bits>, [Bits; 2], C5<Bits>, Vec<bool>, Vec<char>, Vec<Duration>, Vec<H160>, [H128; 2], Option<Duration>, BTreeSet<(u8, bool)>, BinaryHeap<String>,
    BTreeMap<String, (u8,)>, BTreeMap<String, Option<E1>>, Vec<NonZeroU16>, Vec<NonZeroI64>, Option<NonZeroU8>, Vec<()>, Vec<PhantomData<u8>>, Vec<Unit>, [Unit; 3], [(); 2], Option<()>, Result<Unit, ()>, Vec<BTreeMap<String, u8>>, Vec<Range<u8>>,
    Duration, Range<u32>, RangeInclusive<i64>, Range<String>, Range<(u8,)>,
    H128, H160, H256, H384, H512, H768,
    E1, E2, E3<u16>, E3<(u8,)>, E4, E5, Vec<S9>, Cow<'static, [S6]>, Option<E4>, Box<E3<String>>, Cow<'static, u64>, Cow<'static, S7>, Vec<C5<u32>>, Option<C5<Cow<'static, S7>>>, Tree, Vec<Tree>, Option<Tree>,
    Picky, Vec<Picky>, First<u32>, Vec<First<Picky>>, Box<First<(u8, bool)>>, BTreeMap<String, First<u8>>, HandE, Vec<HandE>, Result<Picky, First<E1>>, [First<u16>; 2];
    (), (Bits,), (E1,), (E4,), (Result<u8, i8>,), (BTreeMap<String, u8>,), (char,), (bool,), (LinkedList<u8>,), (NonZeroI16,), (Bits, u8, Bits), Raw, GenT<Bits, bool>, GenT<BTreeMap<String, u8>, E4>,
    (u8,), (u32,), (String,), ((u16,),), (Vec<u8>,), (S1,), (Compact<u32>,), (Option<u8>,),
    (u8, u8), (u32, String), (u64, u32), (u8, u16, u32), (S1, E1), (bool, char, i8, u128), (u8, (u16, String), Vec<bool>, Option<u32>, [u8; 2]),
    (u8, u16, u32, u64, u128, i8), (u8, u8, u8, u8, u8, u8, bool), (u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u32),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u64), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i16),
    (u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, String), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, char), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32),
    (u8, u16, u8, u8, u32, u8, u8, u8, u64, u8, u8, u8, u8, u8, u8, bool, u8, u8, u8, String),
    S1, S2, S3, S4, S5, S6, S7, S8, SBig, Gen<u32>, Gen<String>, GenT<u8, Vec<u16>>, GenT<S5, U8s>, Unit, Ph<u64>, S9, S10, Cst<2>, Lt<'static>, Bnd<()>, R1, R2, (R1, Tree), Hand, (Picky, First<u64>), (First<S1>,), (u8, First<Vec<u8>>, Picky, First<Tree>),
    C1, C2, C3, C4, C5<(u32,)>, C5<Compact<u8>>, C5<Range<u8>>, C5<H160>, C5<Option<u16>>, C5<C5<Box<(u128,)>>>, (Cow<'static, u64>,), (Duration,), ((),), (Box<(Arc<u32>,)>,), (Range<u16>,), (H128,), (Rc<S7>,), (PhantomData<u8>,), ([u8; 4],),
}
