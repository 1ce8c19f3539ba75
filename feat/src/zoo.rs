//! The types of each combination of features, tied to the reference model. Types that need no
//! feature come first, in the same order in every build.
#![allow(unused_imports, dead_code)]
use crate::choice::mix;
use crate::ctx::{guard, Panicked};
use crate::tree::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::*;
use oct::{PrimitiveDiscriminant, SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::convert::Infallible;
use std::ffi::{CStr, CString};
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::{PhantomData, PhantomPinned};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// Reads a library error into the model's vocabulary.
pub trait ErrOf { fn e(self) -> ErrT; }
impl ErrOf for Infallible { fn e(self) -> ErrT { match self {} } }
impl ErrOf for UsizeEncodeError { fn e(self) -> ErrT { ErrT::Usize(self.0) } }
impl ErrOf for IsizeEncodeError { fn e(self) -> ErrT { ErrT::Isize(self.0) } }
impl ErrOf for LengthError { fn e(self) -> ErrT { ErrT::Len { cap: self.capacity, len: self.len } } }
impl ErrOf for CharDecodeError { fn e(self) -> ErrT { ErrT::Char(self.code_point) } }
#[cfg(feature = "alloc")]
impl ErrOf for CStringDecodeError { fn e(self) -> ErrT { ErrT::CStr(self.index) } }
impl ErrOf for NonZeroDecodeError { fn e(self) -> ErrT { ErrT::NonZero } }
impl ErrOf for Utf8Error { fn e(self) -> ErrT { ErrT::Utf8(self.value, self.index) } }
#[cfg(feature = "std")]
impl ErrOf for SystemTimeDecodeError { fn e(self) -> ErrT { ErrT::Time(self.timestamp) } }
impl<E: ErrOf> ErrOf for ItemDecodeError<usize, E> { fn e(self) -> ErrT { ErrT::Item(self.index, Box::new(self.error.e())) } }
impl<E: ErrOf> ErrOf for ItemEncodeError<usize, E> { fn e(self) -> ErrT { ErrT::Item(self.index, Box::new(self.error.e())) } }
impl<E: ErrOf> ErrOf for (usize, E) { fn e(self) -> ErrT { ErrT::Item(self.0, Box::new(self.1.e())) } }
impl<L: ErrOf, I: ErrOf> ErrOf for CollectionDecodeError<L, I> { fn e(self) -> ErrT { match self { Self::BadLength(e) => ErrT::BadLen(Box::new(e.e())), Self::BadItem(e) => ErrT::BadItem(Box::new(e.e())) } } }
impl<L: ErrOf, I: ErrOf> ErrOf for CollectionEncodeError<L, I> { fn e(self) -> ErrT { match self { Self::BadLength(e) => ErrT::BadLen(Box::new(e.e())), Self::BadItem(e) => ErrT::BadItem(Box::new(e.e())) } } }
impl<E: ErrOf> ErrOf for RefCellEncodeError<E> { fn e(self) -> ErrT { match self { Self::BadBorrow(_) => ErrT::Borrow, Self::BadValue(e) => ErrT::Value(Box::new(e.e())) } } }
pub trait DiscVal { fn dv(&self) -> u128; }
macro_rules! discval { ($($t:ty)*) => { $(impl DiscVal for $t { fn dv(&self) -> u128 { *self as u128 } })* } }
discval!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize bool);
impl<D: Decode<Error: ErrOf> + DiscVal, F: ErrOf> ErrOf for EnumDecodeError<D, F> {
    fn e(self) -> ErrT { match self { Self::InvalidDiscriminant(e) => ErrT::BadDisc(Box::new(e.e())), Self::UnassignedDiscriminant { value } => ErrT::Disc(value.dv()), Self::BadField(e) => ErrT::Field(Box::new(e.e())) } }
}
impl<D: Encode<Error: ErrOf>, F: ErrOf> ErrOf for EnumEncodeError<D, F> {
    fn e(self) -> ErrT { match self { Self::BadDiscriminant(e) => ErrT::BadDisc(Box::new(e.e())), Self::BadField(e) => ErrT::Field(Box::new(e.e())) } }
}
impl ErrOf for GenericDecodeError {
    fn e(self) -> ErrT {
        ErrT::Gen(Box::new(match self {
            Self::BadString(e) => e.e(),
            #[cfg(feature = "alloc")] Self::NullString(e) => e.e(),
            Self::NullInteger(e) => e.e(), Self::SmallBuffer(e) => e.e(),
            Self::UnassignedDiscriminant { value } => ErrT::Disc(value), 
            #[cfg(feature = "std")] Self::NarrowSystemTime(e) => e.e(),
             e => ErrT::Other(format!("{e:?}")),
        }))
    }
}
impl ErrOf for GenericEncodeError {
    fn e(self) -> ErrT { ErrT::Gen(Box::new(match self { Self::BadBorrow(_) => ErrT::Borrow, Self::LargeIsize(e) => e.e(), Self::LargeUsize(e) => e.e(), e => ErrT::Other(format!("{e:?}")) })) }
}

// ---- types ----------------------------------------------------------------------------------


// ---- types ----------------------------------------------------------------------------------

pub type EncFn = Box<dyn Fn(&mut Output) -> Result<(), ErrT>>;
pub trait Zoo: Sized + 'static + Encode<Error: ErrOf> + Decode<Error: ErrOf> {
    fn schema() -> S;
    fn from_tree(t: &Tree) -> Self;
    fn to_tree(&self) -> Tree;
    fn seq_schema(cap: Option<usize>) -> S { S::Seq(rc(Self::schema()), cap) }
    fn seq_from(t: &Tree) -> Vec<Self> { t.l().iter().map(Self::from_tree).collect() }
    fn seq_to<'a>(it: impl Iterator<Item = &'a Self>) -> Tree { L(it.map(Self::to_tree).collect()) }
    /// Other forms holding the same data, which must encode identically.
    fn more_views() -> u8 { 0 }
    fn more_view(_t: &Tree, _k: u8) -> EncFn { unreachable!() }
}
pub fn ef<E: Encode<Error: ErrOf> + 'static>(x: E) -> EncFn { Box::new(move |o| x.encode(o).map_err(ErrOf::e)) }
macro_rules! z_int { ($($t:ty: $s:expr;)*) => { $(impl Zoo for $t {
    fn schema() -> S { $s } fn from_tree(t: &Tree) -> Self { t.n() as $t } fn to_tree(&self) -> Tree { N(*self as u128) }
})* } }
z_int! { i8: S::Int(1, true); u16: U16; i16: S::Int(2, true); u32: U32; i32: S::Int(4, true); u64: U64; i64: I64; u128: U128; i128: S::Int(16, true); usize: S::Usz; isize: S::Isz; }
impl Zoo for u8 {
    fn schema() -> S { U8 }
    fn from_tree(t: &Tree) -> Self { t.n() as u8 }
    fn to_tree(&self) -> Tree { N(*self as u128) }
    fn seq_schema(cap: Option<usize>) -> S { S::Bytes(cap) }
    fn seq_from(t: &Tree) -> Vec<Self> { t.b().to_vec() }
    fn seq_to<'a>(it: impl Iterator<Item = &'a Self>) -> Tree { B(it.copied().collect()) }
}
impl Zoo for bool { fn schema() -> S { S::Bool } fn from_tree(t: &Tree) -> Self { t.n() != 0 } fn to_tree(&self) -> Tree { N(*self as u128) } }
impl Zoo for char { fn schema() -> S { S::Char } fn from_tree(t: &Tree) -> Self { char::from_u32(t.n() as u32).expect("model character") } fn to_tree(&self) -> Tree { N(*self as u32 as u128) } }
impl Zoo for f32 { fn schema() -> S { U32 } fn from_tree(t: &Tree) -> Self { f32::from_bits(t.n() as u32) } fn to_tree(&self) -> Tree { N(self.to_bits() as u128) } }
impl Zoo for f64 { fn schema() -> S { U64 } fn from_tree(t: &Tree) -> Self { f64::from_bits(t.n() as u64) } fn to_tree(&self) -> Tree { N(self.to_bits() as u128) } }
macro_rules! z_nz { ($($t:ty)*) => { $(impl Zoo for NonZero<$t> {
    fn schema() -> S { S::Nz(rc(<$t>::schema())) } fn from_tree(t: &Tree) -> Self { NonZero::new(t.n() as $t).expect("model non-zero") } fn to_tree(&self) -> Tree { N(self.get() as u128) }
})* } }
z_nz!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
macro_rules! z_atomic { ($($a:ty, $t:ty;)*) => { $(impl Zoo for $a {
    fn schema() -> S { <$t>::schema() } fn from_tree(t: &Tree) -> Self { Self::new(<$t>::from_tree(t)) } fn to_tree(&self) -> Tree { self.load(Ordering::SeqCst).to_tree() }
})* } }
z_atomic! { AtomicBool, bool; AtomicU8, u8; AtomicI8, i8; AtomicU16, u16; AtomicI16, i16; AtomicU32, u32; AtomicI32, i32; AtomicU64, u64; AtomicI64, i64; AtomicUsize, usize; AtomicIsize, isize; }

impl Zoo for () { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self {} fn to_tree(&self) -> Tree { L(vec![]) } }
impl Zoo for RangeFull { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self { .. } fn to_tree(&self) -> Tree { L(vec![]) } }
impl Zoo for PhantomPinned { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self { PhantomPinned } fn to_tree(&self) -> Tree { L(vec![]) } }
impl<T: 'static> Zoo for PhantomData<T> { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self { PhantomData } fn to_tree(&self) -> Tree { L(vec![]) } }

macro_rules! z_wrap { ($($w:ident $($b:ident)*: |$x:ident| $mk:expr, |$y:ident| $get:expr;)*) => { $(impl<T: Zoo $(+ $b)*> Zoo for $w<T> {
    fn schema() -> S { T::schema() } fn from_tree(t: &Tree) -> Self { let $x = T::from_tree(t); $mk } fn to_tree(&self) -> Tree { let $y = self; $get }
})* } }z_wrap! {
    Wrapping: |x| Wrapping(x), |y| y.0.to_tree();
    Saturating: |x| Saturating(x), |y| y.0.to_tree();
    Cell Copy: |x| Cell::new(x), |y| y.get().to_tree();
}
#[cfg(feature = "std")]
z_wrap! {
    Mutex: |x| Mutex::new(x), |y| y.lock().unwrap_or_else(|e| e.into_inner()).to_tree();
    RwLock: |x| RwLock::new(x), |y| y.read().unwrap_or_else(|e| e.into_inner()).to_tree();
}
#[cfg(feature = "alloc")]
z_wrap! {
    Box: |x| Box::new(x), |y| (**y).to_tree();
    Rc: |x| Rc::new(x), |y| (**y).to_tree();
    Arc: |x| Arc::new(x), |y| (**y).to_tree();
}
impl<T: Zoo> Zoo for RefCell<T> { fn schema() -> S { S::RefC(rc(T::schema())) } fn from_tree(t: &Tree) -> Self { RefCell::new(T::from_tree(t)) } fn to_tree(&self) -> Tree { self.borrow().to_tree() } }
impl<T: Zoo> Zoo for (T,) { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { (T::from_tree(&t.l()[0]),) } fn to_tree(&self) -> Tree { L(vec![self.0.to_tree()]) } }
impl<T: Zoo> Zoo for Option<T> {
    fn schema() -> S { S::Opt(rc(T::schema())) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { None } else { Some(T::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { None => V(0, vec![]), Some(x) => V(1, vec![x.to_tree()]) } }
}
impl<T, E, EE, DE> Zoo for Result<T, E> where T: Zoo + Encode<Error = EE> + Decode<Error = DE>, E: Zoo + Encode<Error = EE> + Decode<Error = DE>, EE: ErrOf, DE: ErrOf {
    fn schema() -> S { S::Res(rc(T::schema()), rc(E::schema())) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { Ok(T::from_tree(&v[0])) } else { Err(E::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { Ok(x) => V(0, vec![x.to_tree()]), Err(x) => V(1, vec![x.to_tree()]) } }
}
impl<T: Zoo> Zoo for Bound<T> {
    fn schema() -> S { S::Bnd(rc(T::schema())) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); match k { 0 => Bound::Included(T::from_tree(&v[0])), 1 => Bound::Excluded(T::from_tree(&v[0])), _ => Bound::Unbounded } }
    fn to_tree(&self) -> Tree { match self { Bound::Included(x) => V(0, vec![x.to_tree()]), Bound::Excluded(x) => V(1, vec![x.to_tree()]), Bound::Unbounded => V(2, vec![]) } }
}
impl Zoo for Duration { fn schema() -> S { S::Dur } fn from_tree(t: &Tree) -> Self { Duration::new(t.l()[0].n() as u64, t.l()[1].n() as u32) } fn to_tree(&self) -> Tree { L(vec![N(self.as_secs() as u128), N(self.subsec_nanos() as u128)]) } }
/// (whole seconds since the epoch rounded down, nanoseconds)
pub fn time_of(s: i64, n: u32) -> SystemTime {
    let base = if s >= 0 { UNIX_EPOCH.checked_add(Duration::from_secs(s as u64)) } else { UNIX_EPOCH.checked_sub(Duration::from_secs(s.unsigned_abs())) };
    base.and_then(|b| b.checked_add(Duration::new(0, n))).expect("time point of the model")
}
pub fn time_parts(t: &SystemTime) -> (i64, u32) {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => (d.as_secs() as i64, d.subsec_nanos()),
        Err(e) => { let d = e.duration(); if d.subsec_nanos() == 0 { ((d.as_secs() as i64).wrapping_neg(), 0) } else { ((d.as_secs() as i64).wrapping_neg() - 1, 1_000_000_000 - d.subsec_nanos()) } }
    }
}
#[cfg(feature = "std")]
impl Zoo for SystemTime {
    fn schema() -> S { S::Time }
    fn from_tree(t: &Tree) -> Self { time_of(t.l()[0].n() as i64, t.l()[1].n() as u32) }
    fn to_tree(&self) -> Tree { let (s, n) = time_parts(self); L(vec![N(s as u128), N(n as u128)]) }
}
impl Zoo for Ipv4Addr { fn schema() -> S { ip4() } fn from_tree(t: &Tree) -> Self { let b = (t.n() as u32).to_be_bytes(); Ipv4Addr::new(b[0], b[1], b[2], b[3]) } fn to_tree(&self) -> Tree { N(u32::from_be_bytes(self.octets()) as u128) } }
impl Zoo for Ipv6Addr { fn schema() -> S { ip6() } fn from_tree(t: &Tree) -> Self { Ipv6Addr::from(t.n().to_be_bytes()) } fn to_tree(&self) -> Tree { N(u128::from_be_bytes(self.octets())) } }
impl Zoo for IpAddr {
    fn schema() -> S { S::Ip }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { IpAddr::V4(Zoo::from_tree(&v[0])) } else { IpAddr::V6(Zoo::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { IpAddr::V4(a) => V(0, vec![a.to_tree()]), IpAddr::V6(a) => V(1, vec![a.to_tree()]) } }
}
impl Zoo for SocketAddrV4 { fn schema() -> S { sa4() } fn from_tree(t: &Tree) -> Self { SocketAddrV4::new(Zoo::from_tree(&t.l()[0]), t.l()[1].n() as u16) } fn to_tree(&self) -> Tree { L(vec![self.ip().to_tree(), self.port().to_tree()]) } }
impl Zoo for SocketAddrV6 {
    fn schema() -> S { sa6() }
    fn from_tree(t: &Tree) -> Self { let l = t.l(); SocketAddrV6::new(Zoo::from_tree(&l[0]), l[1].n() as u16, l[2].n() as u32, l[3].n() as u32) }
    fn to_tree(&self) -> Tree { L(vec![self.ip().to_tree(), self.port().to_tree(), self.flowinfo().to_tree(), self.scope_id().to_tree()]) }
}
impl Zoo for SocketAddr {
    fn schema() -> S { S::Sa }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { SocketAddr::V4(Zoo::from_tree(&v[0])) } else { SocketAddr::V6(Zoo::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { SocketAddr::V4(a) => V(0, vec![a.to_tree()]), SocketAddr::V6(a) => V(1, vec![a.to_tree()]) } }
}
impl<T: Zoo> Zoo for Range<T> { fn schema() -> S { S::Prod(vec![T::schema(), T::schema()]) } fn from_tree(t: &Tree) -> Self { T::from_tree(&t.l()[0])..T::from_tree(&t.l()[1]) } fn to_tree(&self) -> Tree { L(vec![self.start.to_tree(), self.end.to_tree()]) } }
impl<T: Zoo> Zoo for RangeInclusive<T> { fn schema() -> S { S::Prod(vec![T::schema(), T::schema()]) } fn from_tree(t: &Tree) -> Self { T::from_tree(&t.l()[0])..=T::from_tree(&t.l()[1]) } fn to_tree(&self) -> Tree { L(vec![self.start().to_tree(), self.end().to_tree()]) } }
impl<T: Zoo> Zoo for RangeFrom<T> { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { T::from_tree(&t.l()[0]).. } fn to_tree(&self) -> Tree { L(vec![self.start.to_tree()]) } }
impl<T: Zoo> Zoo for RangeTo<T> { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { ..T::from_tree(&t.l()[0]) } fn to_tree(&self) -> Tree { L(vec![self.end.to_tree()]) } }
impl<T: Zoo> Zoo for RangeToInclusive<T> { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { ..=T::from_tree(&t.l()[0]) } fn to_tree(&self) -> Tree { L(vec![self.end.to_tree()]) } }
impl<T: Zoo, const K: usize> Zoo for [T; K] {
    fn schema() -> S { S::Arr(rc(T::schema()), K) }
    fn from_tree(t: &Tree) -> Self { std::array::from_fn(|i| T::from_tree(&t.l()[i])) }
    fn to_tree(&self) -> Tree { L(self.iter().map(Zoo::to_tree).collect()) }
    fn more_views() -> u8 { 1 }
    fn more_view(t: &Tree, _k: u8) -> EncFn { let x = Self::from_tree(t); Box::new(move |o| x.each_ref().encode(o).map_err(ErrOf::e)) }
}
#[cfg(feature = "alloc")]
impl<T: Zoo> Zoo for Vec<T> {
    fn schema() -> S { T::seq_schema(None) }
    fn from_tree(t: &Tree) -> Self { T::seq_from(t) }
    fn to_tree(&self) -> Tree { T::seq_to(self.iter()) }
    fn more_views() -> u8 { 3 }
    fn more_view(t: &Tree, k: u8) -> EncFn { let x = Self::from_tree(t); match k { 0 => ef(x.into_boxed_slice()), 1 => ef(Rc::<[T]>::from(x)), _ => ef(Arc::<[T]>::from(x)) } }
}
#[cfg(feature = "alloc")]
impl<T: Zoo> Zoo for LinkedList<T> { fn schema() -> S { T::seq_schema(None) } fn from_tree(t: &Tree) -> Self { T::seq_from(t).into_iter().collect() } fn to_tree(&self) -> Tree { T::seq_to(self.iter()) } }
impl<T: Zoo, const K: usize> Zoo for SizedSlice<T, K> {
    fn schema() -> S { T::seq_schema(Some(K)) }
    fn from_tree(t: &Tree) -> Self { T::seq_from(t).into_iter().collect() }
    fn to_tree(&self) -> Tree { T::seq_to(self.as_slice().iter()) }
    fn more_views() -> u8 { 2 }
    fn more_view(t: &Tree, k: u8) -> EncFn {
        let x = Self::from_tree(t);
        if k == 0 { Box::new(move |o| x.each_ref().encode(o).map_err(ErrOf::e)) } else { Box::new(move |o| <[T] as Encode>::encode(&x[..], o).map_err(ErrOf::e)) }
    }
}
fn str_of(t: &Tree) -> &str { std::str::from_utf8(t.b()).expect("model text") }
#[cfg(feature = "alloc")]
impl Zoo for String {
    fn schema() -> S { S::Str(None) }
    fn from_tree(t: &Tree) -> Self { str_of(t).to_owned() }
    fn to_tree(&self) -> Tree { B(self.as_bytes().to_vec()) }
    fn more_views() -> u8 { 2 }
    fn more_view(t: &Tree, k: u8) -> EncFn { let x = Self::from_tree(t); if k == 0 { ef(x.into_boxed_str()) } else { Box::new(move |o| Cow::Borrowed(&x[..]).encode(o).map_err(ErrOf::e)) } }
}
impl<const K: usize> Zoo for SizedStr<K> {
    fn schema() -> S { S::Str(Some(K)) } fn from_tree(t: &Tree) -> Self { SizedStr::new(str_of(t)).ok().expect("fits") } fn to_tree(&self) -> Tree { B(self.as_bytes().to_vec()) }
    fn more_views() -> u8 { 1 }
    fn more_view(t: &Tree, _k: u8) -> EncFn { let x = str_of(t).to_owned(); Box::new(move |o| <str as Encode>::encode(&x, o).map_err(ErrOf::e)) }
}
#[cfg(feature = "alloc")]
impl Zoo for CString {
    fn schema() -> S { S::CStr }
    fn from_tree(t: &Tree) -> Self { CString::new(t.b()).expect("model C string") }
    fn to_tree(&self) -> Tree { B(self.as_bytes().to_vec()) }
    fn more_views() -> u8 { 1 }
    fn more_view(t: &Tree, _k: u8) -> EncFn { let x = Self::from_tree(t); Box::new(move |o| <CStr as Encode>::encode(&x, o).map_err(ErrOf::e)) }
}
#[cfg(feature = "alloc")]
impl Zoo for Cow<'static, u32> { fn schema() -> S { U32 } fn from_tree(t: &Tree) -> Self { Cow::Owned(Zoo::from_tree(t)) } fn to_tree(&self) -> Tree { (**self).to_tree() } }
macro_rules! z_tuple { ($($x:ident $i:tt),*) => {
    impl<EE: ErrOf, DE: ErrOf, $($x: Zoo + Encode<Error = EE> + Decode<Error = DE>),*> Zoo for ($($x,)*) {
        fn schema() -> S { S::Prod(vec![$($x::schema()),*]) } fn from_tree(t: &Tree) -> Self { ($($x::from_tree(&t.l()[$i]),)*) } fn to_tree(&self) -> Tree { L(vec![$(self.$i.to_tree()),*]) }
    }
} }
z_tuple!(A 0, C 1);
z_tuple!(A 0, C 1, D 2);
z_tuple!(A 0, C 1, D 2, E 3);
z_tuple!(A 0, C 1, D 2, E 3, F 4);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9, M 10);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9, M 10, O 11);
thread_local! { static HASH: Cell<(u64, u8)> = const { Cell::new((1, 0)) }; }
/// The hashing of the node now running: seed and kind (0 good, 1 all collide, 2 two bits, 3 by length).
pub fn set_hashing(seed: u64, kind: u8) { HASH.with(|h| h.set((seed, kind))) }
#[derive(Clone)]
pub struct SimHash { seed: u64, kind: u8 }
impl Default for SimHash { fn default() -> Self { let (seed, kind) = HASH.with(|h| h.get()); SimHash { seed, kind } } }
impl BuildHasher for SimHash { type Hasher = SimHasher; fn build_hasher(&self) -> SimHasher { SimHasher { h: self.seed, kind: self.kind, n: 0 } } }
pub struct SimHasher { h: u64, kind: u8, n: u64 }
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) { self.h = mix(self.h, crate::ctx::hash_bytes(b)); self.n += b.len() as u64 }
    fn finish(&self) -> u64 { match self.kind { 0 => self.h, 1 => 42, 2 => self.h & 3, _ => self.n << 57 | self.n } }
}
pub type Map<K, T> = HashMap<K, T, SimHash>;
pub type Set<K> = HashSet<K, SimHash>;
#[cfg(feature = "std")]
impl<K, T, EE: ErrOf, DE: ErrOf> Zoo for Map<K, T> where K: Zoo + Eq + Hash + Encode<Error = EE> + Decode<Error = DE>, T: Zoo + Encode<Error = EE> + Decode<Error = DE> {
    fn schema() -> S { S::Map(rc(K::schema()), rc(T::schema())) }
    fn from_tree(t: &Tree) -> Self { let mut m = Map::default(); for e in t.l() { m.insert(K::from_tree(&e.l()[0]), T::from_tree(&e.l()[1])); } m }
    fn to_tree(&self) -> Tree { L(self.iter().map(|(k, v)| L(vec![k.to_tree(), v.to_tree()])).collect()) }
}
#[cfg(feature = "std")]
impl<K: Zoo + Eq + Hash> Zoo for Set<K> {
    fn schema() -> S { S::Set(rc(K::schema())) }
    fn from_tree(t: &Tree) -> Self { t.l().iter().map(K::from_tree).collect() }
    fn to_tree(&self) -> Tree { L(self.iter().map(|k| k.to_tree()).collect()) }
}

// ---- derived types --------------------------------------------------------------------------

#[cfg(feature = "proc-macro")]
mod derived {
    use super::*;
    #[derive(Encode, Decode, SizedEncode)] pub struct DTup(u8, u32, u16);
    impl Zoo for DTup {
        fn schema() -> S { S::Struct(vec![U8, U32, U16]) }
        fn from_tree(t: &Tree) -> Self { let l = t.l(); DTup(Zoo::from_tree(&l[0]), Zoo::from_tree(&l[1]), Zoo::from_tree(&l[2])) }
        fn to_tree(&self) -> Tree { L(vec![self.0.to_tree(), self.1.to_tree(), self.2.to_tree()]) }
    }
    #[derive(Encode, Decode, SizedEncode)] pub struct DNamed { zebra: u16, apple: SizedStr<5>, mango: Option<NonZero<u16>>, kiwi: Bound<usize> }
    impl Zoo for DNamed {
        fn schema() -> S { S::Struct(vec![U16, S::Str(Some(5)), S::Opt(rc(S::Nz(rc(U16)))), S::Bnd(rc(S::Usz))]) }
        fn from_tree(t: &Tree) -> Self { let l = t.l(); DNamed { zebra: Zoo::from_tree(&l[0]), apple: Zoo::from_tree(&l[1]), mango: Zoo::from_tree(&l[2]), kiwi: Zoo::from_tree(&l[3]) } }
        fn to_tree(&self) -> Tree { L(vec![self.zebra.to_tree(), self.apple.to_tree(), self.mango.to_tree(), self.kiwi.to_tree()]) }
    }
    #[derive(Encode, Decode, SizedEncode)] #[repr(i16)] pub enum DEnum { Minus = 3, Tup(u8, isize) = 300, Named { xs: SizedSlice<u16, 3>, d: Duration }, Last = 0x7FFF }
    impl Zoo for DEnum {
        fn schema() -> S { S::Enum(Repr::I16, vec![(3, vec![]), (300, vec![U8, S::Isz]), (301, vec![S::Seq(rc(U16), Some(3)), S::Dur]), (0x7FFF, vec![])]) }
        fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); match k { 0 => DEnum::Minus, 1 => DEnum::Tup(Zoo::from_tree(&v[0]), Zoo::from_tree(&v[1])), 2 => DEnum::Named { xs: Zoo::from_tree(&v[0]), d: Zoo::from_tree(&v[1]) }, _ => DEnum::Last } }
        fn to_tree(&self) -> Tree { match self { DEnum::Minus => V(0, vec![]), DEnum::Tup(a, b) => V(1, vec![a.to_tree(), b.to_tree()]), DEnum::Named { xs, d } => V(2, vec![xs.to_tree(), d.to_tree()]), DEnum::Last => V(3, vec![]) } }
    }
    #[cfg(feature = "alloc")]
    #[derive(Encode, Decode)] pub struct DHeap { name: String, raw: CString, xs: Vec<u16>, next: Option<Box<DHeap>> }
    #[cfg(feature = "alloc")]
    impl Zoo for DHeap {
        fn schema() -> S { S::Struct(vec![S::Str(None), S::CStr, S::Seq(rc(U16), None), S::Opt(rc(S::Rec(Self::schema)))]) }
        fn from_tree(t: &Tree) -> Self { let l = t.l(); DHeap { name: Zoo::from_tree(&l[0]), raw: Zoo::from_tree(&l[1]), xs: Zoo::from_tree(&l[2]), next: { let (k, v) = l[3].v(); if k == 0 { None } else { Some(Box::new(DHeap::from_tree(&v[0]))) } } } }
        fn to_tree(&self) -> Tree { L(vec![self.name.to_tree(), self.raw.to_tree(), self.xs.to_tree(), match &self.next { None => V(0, vec![]), Some(x) => V(1, vec![x.to_tree()]) }]) }
    }
    #[cfg(feature = "std")]
    #[derive(Encode, Decode, SizedEncode)] pub struct DClock { at: SystemTime, took: Duration, hits: Mutex<usize> }
    #[cfg(feature = "std")]
    impl Zoo for DClock {
        fn schema() -> S { S::Struct(vec![S::Time, S::Dur, S::Usz]) }
        fn from_tree(t: &Tree) -> Self { let l = t.l(); DClock { at: Zoo::from_tree(&l[0]), took: Zoo::from_tree(&l[1]), hits: Zoo::from_tree(&l[2]) } }
        fn to_tree(&self) -> Tree { L(vec![self.at.to_tree(), self.took.to_tree(), self.hits.to_tree()]) }
    }
}

// ---- type erasure ---------------------------------------------------------------------------

pub trait Codec: Sync {
    fn views(&self) -> u8;
    fn mk(&self, t: &Tree, view: u8) -> EncFn;
    fn dec(&self, i: &mut Input) -> Result<Tree, ErrT>;
    fn dec_as(&self, i: &mut Input, how: u8) -> Result<Tree, ErrT>;
    fn max(&self) -> Option<usize>;
    /// What a slot of this type presents after `t` was written to it, and what it reads back.
    fn slot(&self, t: &Tree, cap: usize) -> Option<(Vec<u8>, Result<Tree, ErrT>)>;
}
fn dec_t<T: Zoo>(i: &mut Input) -> Result<Tree, ErrT> { let r = T::decode(i); crate::alloc::settle(); match r { Ok(v) => Ok(v.to_tree()), Err(e) => Err(e.e()) } }
fn view<T: Zoo>(t: &Tree, k: u8) -> EncFn {
    let x = T::from_tree(t);
    match k {
        0 => ef(x),
        1 => Box::new(move |o| <&T as Encode>::encode(&&x, o).map_err(ErrOf::e)),
        2 => { let c = RefCell::new(x); Box::new(move |o| { let mut b = c.borrow_mut(); let r: &mut T = &mut b; <&mut T as Encode>::encode(&r, o).map_err(ErrOf::e) }) }
        3 => ef((x,)),
        4 => ef(Wrapping(Saturating(x))),
        _ => { let c = RefCell::new(x); Box::new(move |o| c.encode(o).map_err(|e| match e.e() { ErrT::Value(e) => *e, e => e })) }
    }
}
const VIEWS: u8 = 6;
#[cfg(feature = "alloc")]
fn slot<T: Zoo>(t: &Tree, cap: usize) -> Option<(Vec<u8>, Result<Tree, ErrT>)> {
    let mut s = oct::Slot::<T>::with_capacity(cap);
    if s.write(&T::from_tree(t)).is_err() { return None }
    let r = match s.read() { Ok(v) => Ok(v.to_tree()), Err(e) => Err(e.e()) };
    Some((s.as_slice().to_vec(), r))
}
#[cfg(not(feature = "alloc"))]
fn slot<T: Zoo>(_: &Tree, _: usize) -> Option<(Vec<u8>, Result<Tree, ErrT>)> { None }
pub struct Plain<T>(pub PhantomData<fn() -> T>);
pub struct Bounded<T>(pub PhantomData<fn() -> T>);
macro_rules! codec { ($T:ident) => {
    fn views(&self) -> u8 { VIEWS + $T::more_views() }
    fn mk(&self, t: &Tree, k: u8) -> EncFn { if k < VIEWS { view::<$T>(t, k) } else { $T::more_view(t, k - VIEWS) } }
    fn dec(&self, i: &mut Input) -> Result<Tree, ErrT> { dec_t::<$T>(i) }
    fn dec_as(&self, i: &mut Input, how: u8) -> Result<Tree, ErrT> { if how == 0 { dec_t::<$T>(i) } else { dec_t::<RefCell<$T>>(i) } }
    fn slot(&self, t: &Tree, cap: usize) -> Option<(Vec<u8>, Result<Tree, ErrT>)> { slot::<$T>(t, cap) }
} }
impl<T: Zoo> Codec for Plain<T> { codec!(T); fn max(&self) -> Option<usize> { None } }
impl<T: Zoo + SizedEncode> Codec for Bounded<T> { codec!(T); fn max(&self) -> Option<usize> { Some(T::MAX_ENCODED_SIZE) } }

/// The texts of an error and of each of its sources.
pub fn chain_of(e: &(dyn std::error::Error + 'static)) -> Vec<String> { let mut v = vec![e.to_string()]; let mut e = e; while let Some(s) = e.source() { v.push(s.to_string()); e = s; if v.len() > 64 { break } } v }
pub struct Tell<E>(PhantomData<E>);
pub fn tell_of<E>(_: &E) -> Tell<E> { Tell(PhantomData) }
impl<E: std::error::Error + 'static> Tell<E> { pub fn chain(&self, e: &E) -> Vec<String> { chain_of(e) } }
pub trait Mute<E> { fn chain(&self, _: &E) -> Vec<String> { vec![] } }
impl<E> Mute<E> for Tell<E> {}

pub struct Ty { pub id: usize, pub core: bool, pub name: &'static str, pub schema: S, pub maps: bool, pub vt: &'static dyn Codec, pub told: fn(&mut Input) -> Vec<String> }
macro_rules! tys { ($core:expr, $c:ident, $v:ident, $($t:ty),* $(,)?) => { $($v.push(Ty {
    id: 0, core: $core, name: stringify!($t), maps: has_map(&<$t>::schema()), schema: <$t>::schema(), vt: { static C: $c<$t> = $c(PhantomData); &C },
    told: |i| match <$t as Decode>::decode(i) { Ok(_) => vec![], Err(e) => tell_of(&e).chain(&e) },
});)* } }

pub fn all() -> Vec<Ty> {
    let mut v: Vec<Ty> = Vec::new();
    tys!(true, Bounded, v, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, bool, char, f32, f64, ());
    tys!(true, Bounded, v, NonZero<u8>, NonZero<i16>, NonZero<u32>, NonZero<i64>, NonZero<u128>, NonZero<usize>, NonZero<isize>);
    tys!(true, Bounded, v, AtomicBool, AtomicU8, AtomicI8, AtomicU16, AtomicI16, AtomicU32, AtomicI32, AtomicU64, AtomicI64, AtomicUsize, AtomicIsize);
    tys!(true, Bounded, v, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr, Duration);
    tys!(true, Bounded, v, Option<u16>, Option<Option<bool>>, Option<char>, Option<NonZero<u8>>, Result<u8, u64>, Result<usize, usize>, Bound<u16>, Bound<char>);
    tys!(true, Bounded, v, Range<u16>, RangeInclusive<i32>, RangeFrom<u8>, RangeTo<u64>, RangeToInclusive<isize>, RangeFull, PhantomData<u64>, Cell<u32>, RefCell<usize>, Wrapping<u8>, Saturating<i64>);
    tys!(true, Plain, v, PhantomPinned);
    tys!(true, Bounded, v, [u8; 4], [usize; 3], [char; 2], [NonZero<u16>; 2], [[u8; 2]; 3], (u8,), (u8, u16), (u8, u16, u32, u64), (bool, u8, i8, u16, f32, u32, u64), (u8, u16, u8, u16, u8, u16, u8, u16, u8, u8, u8));
    tys!(true, Bounded, v, SizedSlice<u8, 0>, SizedSlice<u8, 300>, SizedSlice<u16, 3>, SizedSlice<char, 4>, SizedSlice<usize, 5>, SizedSlice<SizedSlice<u8, 3>, 3>, SizedSlice<SizedStr<4>, 3>, SizedStr<0>, SizedStr<4>, SizedStr<16>, SizedStr<300>);
    #[cfg(feature = "proc-macro")]
    tys!(false, Bounded, v, derived::DTup, derived::DNamed, derived::DEnum, Option<derived::DEnum>, SizedSlice<derived::DTup, 3>);
    #[cfg(feature = "alloc")]
    {
        tys!(false, Plain, v, Vec<u8>, Vec<u16>, Vec<char>, Vec<usize>, Vec<Vec<u8>>, Vec<Option<NonZero<u16>>>, Vec<SizedStr<5>>, String, Vec<String>, CString, LinkedList<u16>, LinkedList<u8>, Option<String>, (Vec<u8>, Vec<u8>), SizedSlice<String, 4>);
        tys!(false, Bounded, v, Box<u64>, Rc<NonZero<u32>>, Arc<usize>, Cow<'static, u32>, Box<SizedStr<7>>);
    }
    #[cfg(feature = "std")]
    {
        tys!(false, Plain, v, Map<u8, u8>, Map<u16, u32>, Map<u32, i8>, Set<u8>, Set<u16>, Set<SizedStr<3>>);
        tys!(false, Bounded, v, SystemTime, Mutex<u16>, RwLock<char>, Option<SystemTime>, Mutex<(u8, u16)>);
    }
    #[cfg(all(feature = "alloc", feature = "std"))]
    tys!(false, Plain, v, Map<SizedStr<2>, SizedStr<3>>, Map<String, String>, Vec<SystemTime>, Arc<Mutex<u32>>);
    #[cfg(all(feature = "alloc", feature = "proc-macro"))]
    tys!(false, Plain, v, derived::DHeap, Vec<derived::DEnum>);
    #[cfg(all(feature = "std", feature = "proc-macro"))]
    tys!(false, Bounded, v, derived::DClock);
    for (i, t) in v.iter_mut().enumerate() { t.id = i }
    v
}
