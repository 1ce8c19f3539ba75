//! Every supported type, tied to the reference model: its wire layout and a lossless mapping
//! to and from the neutral value tree. All codec work here is done by the real library.
use crate::choice::mix;
use crate::ctx::{guard, Panicked};
use crate::tree::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::*;
use oct::{PrimitiveDiscriminant, SizedSlice, SizedStr, Slot};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::convert::Infallible;
use std::ffi::{CStr, CString};
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::{PhantomData, PhantomPinned};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---- errors ---------------------------------------------------------------------------------

/// Reads a library error into the model's vocabulary.
pub trait ErrOf { fn e(self) -> ErrT; }
impl ErrOf for Infallible { fn e(self) -> ErrT { match self {} } }
impl ErrOf for UsizeEncodeError { fn e(self) -> ErrT { ErrT::Usize(self.0) } }
impl ErrOf for IsizeEncodeError { fn e(self) -> ErrT { ErrT::Isize(self.0) } }
impl ErrOf for LengthError { fn e(self) -> ErrT { ErrT::Len { cap: self.capacity, len: self.len } } }
impl ErrOf for CharDecodeError { fn e(self) -> ErrT { ErrT::Char(self.code_point) } }
impl ErrOf for CStringDecodeError { fn e(self) -> ErrT { ErrT::CStr(self.index) } }
impl ErrOf for NonZeroDecodeError { fn e(self) -> ErrT { ErrT::NonZero } }
impl ErrOf for Utf8Error { fn e(self) -> ErrT { ErrT::Utf8(self.value, self.index) } }
impl ErrOf for SystemTimeDecodeError { fn e(self) -> ErrT { ErrT::Time(self.timestamp) } }
impl<E: ErrOf> ErrOf for ItemDecodeError<usize, E> { fn e(self) -> ErrT { ErrT::Item(self.index, Box::new(self.error.e())) } }
impl<E: ErrOf> ErrOf for ItemEncodeError<usize, E> { fn e(self) -> ErrT { ErrT::Item(self.index, Box::new(self.error.e())) } }
impl<E: ErrOf> ErrOf for (usize, E) { fn e(self) -> ErrT { ErrT::Item(self.0, Box::new(self.1.e())) } }
impl<L: ErrOf, I: ErrOf> ErrOf for CollectionDecodeError<L, I> { fn e(self) -> ErrT { match self { Self::BadLength(e) => ErrT::BadLen(Box::new(e.e())), Self::BadItem(e) => ErrT::BadItem(Box::new(e.e())) } } }
impl<L: ErrOf, I: ErrOf> ErrOf for CollectionEncodeError<L, I> { fn e(self) -> ErrT { match self { Self::BadLength(e) => ErrT::BadLen(Box::new(e.e())), Self::BadItem(e) => ErrT::BadItem(Box::new(e.e())) } } }
impl<E: ErrOf> ErrOf for RefCellEncodeError<E> { fn e(self) -> ErrT { match self { Self::BadBorrow(_) => ErrT::Borrow, Self::BadValue(e) => ErrT::Value(Box::new(e.e())) } } }
pub trait DiscVal { fn dv(&self) -> u128; }
macro_rules! discval { ($($t:ty)*) => { $(impl DiscVal for $t { fn dv(&self) -> u128 { *self as u128 } })* } }
discval!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize bool);
impl<D: Decode<Error: ErrOf> + DiscVal, F: ErrOf> ErrOf for EnumDecodeError<D, F> {
    fn e(self) -> ErrT { match self { Self::InvalidDiscriminant(e) => ErrT::BadDisc(Box::new(e.e())), Self::UnassignedDiscriminant { value } => ErrT::Disc(value.dv()), Self::BadField(e) => ErrT::Field(Box::new(e.e())) } }
}
impl<D: Encode<Error: ErrOf>, F: ErrOf> ErrOf for EnumEncodeError<D, F> {
    fn e(self) -> ErrT { match self { Self::BadDiscriminant(e) => ErrT::BadDisc(Box::new(e.e())), Self::BadField(e) => ErrT::Field(Box::new(e.e())) } }
}
impl ErrOf for GenericDecodeError {
    fn e(self) -> ErrT {
        ErrT::Gen(Box::new(match self {
            Self::BadString(e) => e.e(), Self::NullString(e) => e.e(), Self::NullInteger(e) => e.e(), Self::SmallBuffer(e) => e.e(),
            Self::UnassignedDiscriminant { value } => ErrT::Disc(value), Self::NarrowSystemTime(e) => e.e(), e => ErrT::Other(format!("{e:?}")),
        }))
    }
}
impl ErrOf for GenericEncodeError {
    fn e(self) -> ErrT { ErrT::Gen(Box::new(match self { Self::BadBorrow(_) => ErrT::Borrow, Self::LargeIsize(e) => e.e(), Self::LargeUsize(e) => e.e(), e => ErrT::Other(format!("{e:?}")) })) }
}

// ---- types ----------------------------------------------------------------------------------

pub type EncFn = Box<dyn Fn(&mut Output) -> Result<(), ErrT>>;
pub trait Zoo: Sized + 'static + Encode<Error: ErrOf> + Decode<Error: ErrOf> {
    fn schema() -> S;
    fn from_tree(t: &Tree) -> Self;
    /// In iteration order; `canon` makes it comparable.
    fn to_tree(&self) -> Tree;
    fn cow_seq(x: Vec<Self>) -> EncFn { ef(x) }
    // How sequences of this type look (overridden by `u8`).
    fn seq_schema(cap: Option<usize>) -> S { S::Seq(rc(Self::schema()), cap) }
    fn seq_from(t: &Tree) -> Vec<Self> { t.l().iter().map(Self::from_tree).collect() }
    fn seq_to<'a>(it: impl Iterator<Item = &'a Self>) -> Tree { L(it.map(Self::to_tree).collect()) }
    /// Other forms holding the same data, which must encode identically.
    fn more_views() -> u8 { 0 }
    fn more_view(_t: &Tree, _k: u8) -> EncFn { unreachable!() }
}
pub fn ef<E: Encode<Error: ErrOf> + 'static>(x: E) -> EncFn { Box::new(move |o| x.encode(o).map_err(ErrOf::e)) }

macro_rules! z_int { ($($t:ty: $s:expr;)*) => { $(impl Zoo for $t {
    fn cow_seq(x: Vec<Self>) -> EncFn { Box::new(move |o| Cow::Borrowed(&x[..]).encode(o).map_err(ErrOf::e)) }
    fn schema() -> S { $s } fn from_tree(t: &Tree) -> Self { t.n() as $t } fn to_tree(&self) -> Tree { N(*self as u128) }
})* } }
z_int! { i8: S::Int(1, true); u16: U16; i16: S::Int(2, true); u32: U32; i32: S::Int(4, true); u64: U64; i64: I64; u128: U128; i128: S::Int(16, true); usize: S::Usz; isize: S::Isz; }
impl Zoo for u8 {
    fn cow_seq(x: Vec<Self>) -> EncFn { Box::new(move |o| Cow::Borrowed(&x[..]).encode(o).map_err(ErrOf::e)) }
    fn schema() -> S { U8 }
    fn from_tree(t: &Tree) -> Self { t.n() as u8 }
    fn to_tree(&self) -> Tree { N(*self as u128) }
    fn seq_schema(cap: Option<usize>) -> S { S::Bytes(cap) }
    fn seq_from(t: &Tree) -> Vec<Self> { t.b().to_vec() }
    fn seq_to<'a>(it: impl Iterator<Item = &'a Self>) -> Tree { B(it.copied().collect()) }
}
impl Zoo for bool { fn schema() -> S { S::Bool } fn from_tree(t: &Tree) -> Self { t.n() != 0 } fn to_tree(&self) -> Tree { N(*self as u128) } }
impl Zoo for char { fn schema() -> S { S::Char } fn from_tree(t: &Tree) -> Self { char::from_u32(t.n() as u32).expect("model character") } fn to_tree(&self) -> Tree { N(*self as u32 as u128) } }
impl Zoo for f32 { fn schema() -> S { U32 } fn from_tree(t: &Tree) -> Self { f32::from_bits(t.n() as u32) } fn to_tree(&self) -> Tree { N(self.to_bits() as u128) } }
impl Zoo for f64 { fn schema() -> S { U64 } fn from_tree(t: &Tree) -> Self { f64::from_bits(t.n() as u64) } fn to_tree(&self) -> Tree { N(self.to_bits() as u128) } }
macro_rules! z_nz { ($($t:ty)*) => { $(impl Zoo for NonZero<$t> {
    fn schema() -> S { S::Nz(rc(<$t>::schema())) } fn from_tree(t: &Tree) -> Self { NonZero::new(t.n() as $t).expect("model non-zero") } fn to_tree(&self) -> Tree { N(self.get() as u128) }
})* } }
z_nz!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
macro_rules! z_atomic { ($($a:ty, $t:ty;)*) => { $(impl Zoo for $a {
    fn schema() -> S { <$t>::schema() } fn from_tree(t: &Tree) -> Self { Self::new(<$t>::from_tree(t)) } fn to_tree(&self) -> Tree { self.load(Ordering::SeqCst).to_tree() }
})* } }
z_atomic! { AtomicBool, bool; AtomicU8, u8; AtomicI8, i8; AtomicU16, u16; AtomicI16, i16; AtomicU32, u32; AtomicI32, i32; AtomicU64, u64; AtomicI64, i64; AtomicUsize, usize; AtomicIsize, isize; }

impl Zoo for () { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self {} fn to_tree(&self) -> Tree { L(vec![]) } }
impl Zoo for RangeFull { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self { .. } fn to_tree(&self) -> Tree { L(vec![]) } }
impl Zoo for PhantomPinned { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self { PhantomPinned } fn to_tree(&self) -> Tree { L(vec![]) } }
impl<T: 'static> Zoo for PhantomData<T> { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Self { PhantomData } fn to_tree(&self) -> Tree { L(vec![]) } }

macro_rules! z_wrap { ($($w:ident $($b:ident)*: |$x:ident| $mk:expr, |$y:ident| $get:expr;)*) => { $(impl<T: Zoo $(+ $b)*> Zoo for $w<T> {
    fn schema() -> S { T::schema() } fn from_tree(t: &Tree) -> Self { let $x = T::from_tree(t); $mk } fn to_tree(&self) -> Tree { let $y = self; $get }
})* } }
z_wrap! {
    Wrapping: |x| Wrapping(x), |y| y.0.to_tree();
    Saturating: |x| Saturating(x), |y| y.0.to_tree();
    Cell Copy: |x| Cell::new(x), |y| y.get().to_tree();
    Mutex: |x| Mutex::new(x), |y| y.lock().unwrap_or_else(|e| e.into_inner()).to_tree();
    RwLock: |x| RwLock::new(x), |y| y.read().unwrap_or_else(|e| e.into_inner()).to_tree();
    Box: |x| Box::new(x), |y| (**y).to_tree();
    Rc: |x| Rc::new(x), |y| (**y).to_tree();
    Arc: |x| Arc::new(x), |y| (**y).to_tree();
}
impl<T: Zoo> Zoo for RefCell<T> { fn schema() -> S { S::RefC(rc(T::schema())) } fn from_tree(t: &Tree) -> Self { RefCell::new(T::from_tree(t)) } fn to_tree(&self) -> Tree { self.borrow().to_tree() } }
impl<T: Zoo> Zoo for (T,) { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { (T::from_tree(&t.l()[0]),) } fn to_tree(&self) -> Tree { L(vec![self.0.to_tree()]) } }
impl<T: Zoo> Zoo for Option<T> {
    fn schema() -> S { S::Opt(rc(T::schema())) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { None } else { Some(T::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { None => V(0, vec![]), Some(x) => V(1, vec![x.to_tree()]) } }
}
impl<T, E, EE, DE> Zoo for Result<T, E> where T: Zoo + Encode<Error = EE> + Decode<Error = DE>, E: Zoo + Encode<Error = EE> + Decode<Error = DE>, EE: ErrOf, DE: ErrOf {
    fn schema() -> S { S::Res(rc(T::schema()), rc(E::schema())) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { Ok(T::from_tree(&v[0])) } else { Err(E::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { Ok(x) => V(0, vec![x.to_tree()]), Err(x) => V(1, vec![x.to_tree()]) } }
}
impl<T: Zoo> Zoo for Bound<T> {
    fn schema() -> S { S::Bnd(rc(T::schema())) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); match k { 0 => Bound::Included(T::from_tree(&v[0])), 1 => Bound::Excluded(T::from_tree(&v[0])), _ => Bound::Unbounded } }
    fn to_tree(&self) -> Tree { match self { Bound::Included(x) => V(0, vec![x.to_tree()]), Bound::Excluded(x) => V(1, vec![x.to_tree()]), Bound::Unbounded => V(2, vec![]) } }
}
impl Zoo for Duration { fn schema() -> S { S::Dur } fn from_tree(t: &Tree) -> Self { Duration::new(t.l()[0].n() as u64, t.l()[1].n() as u32) } fn to_tree(&self) -> Tree { L(vec![N(self.as_secs() as u128), N(self.subsec_nanos() as u128)]) } }
/// (whole seconds since the epoch rounded down, nanoseconds)
pub fn time_of(s: i64, n: u32) -> SystemTime {
    let base = if s >= 0 { UNIX_EPOCH.checked_add(Duration::from_secs(s as u64)) } else { UNIX_EPOCH.checked_sub(Duration::from_secs(s.unsigned_abs())) };
    base.and_then(|b| b.checked_add(Duration::new(0, n))).expect("time point of the model")
}
pub fn time_parts(t: &SystemTime) -> (i64, u32) {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => (d.as_secs() as i64, d.subsec_nanos()),
        Err(e) => { let d = e.duration(); if d.subsec_nanos() == 0 { ((d.as_secs() as i64).wrapping_neg(), 0) } else { ((d.as_secs() as i64).wrapping_neg() - 1, 1_000_000_000 - d.subsec_nanos()) } }
    }
}
impl Zoo for SystemTime {
    fn schema() -> S { S::Time }
    fn from_tree(t: &Tree) -> Self { time_of(t.l()[0].n() as i64, t.l()[1].n() as u32) }
    fn to_tree(&self) -> Tree { let (s, n) = time_parts(self); L(vec![N(s as u128), N(n as u128)]) }
}
impl Zoo for Ipv4Addr { fn schema() -> S { ip4() } fn from_tree(t: &Tree) -> Self { let b = (t.n() as u32).to_be_bytes(); Ipv4Addr::new(b[0], b[1], b[2], b[3]) } fn to_tree(&self) -> Tree { N(u32::from_be_bytes(self.octets()) as u128) } }
impl Zoo for Ipv6Addr { fn schema() -> S { ip6() } fn from_tree(t: &Tree) -> Self { Ipv6Addr::from(t.n().to_be_bytes()) } fn to_tree(&self) -> Tree { N(u128::from_be_bytes(self.octets())) } }
impl Zoo for IpAddr {
    fn schema() -> S { S::Ip }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { IpAddr::V4(Zoo::from_tree(&v[0])) } else { IpAddr::V6(Zoo::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { IpAddr::V4(a) => V(0, vec![a.to_tree()]), IpAddr::V6(a) => V(1, vec![a.to_tree()]) } }
}
impl Zoo for SocketAddrV4 { fn schema() -> S { sa4() } fn from_tree(t: &Tree) -> Self { SocketAddrV4::new(Zoo::from_tree(&t.l()[0]), t.l()[1].n() as u16) } fn to_tree(&self) -> Tree { L(vec![self.ip().to_tree(), self.port().to_tree()]) } }
impl Zoo for SocketAddrV6 {
    fn schema() -> S { sa6() }
    fn from_tree(t: &Tree) -> Self { let l = t.l(); SocketAddrV6::new(Zoo::from_tree(&l[0]), l[1].n() as u16, l[2].n() as u32, l[3].n() as u32) }
    fn to_tree(&self) -> Tree { L(vec![self.ip().to_tree(), self.port().to_tree(), self.flowinfo().to_tree(), self.scope_id().to_tree()]) }
}
impl Zoo for SocketAddr {
    fn schema() -> S { S::Sa }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { SocketAddr::V4(Zoo::from_tree(&v[0])) } else { SocketAddr::V6(Zoo::from_tree(&v[0])) } }
    fn to_tree(&self) -> Tree { match self { SocketAddr::V4(a) => V(0, vec![a.to_tree()]), SocketAddr::V6(a) => V(1, vec![a.to_tree()]) } }
}
impl<T: Zoo> Zoo for Range<T> { fn schema() -> S { S::Prod(vec![T::schema(), T::schema()]) } fn from_tree(t: &Tree) -> Self { T::from_tree(&t.l()[0])..T::from_tree(&t.l()[1]) } fn to_tree(&self) -> Tree { L(vec![self.start.to_tree(), self.end.to_tree()]) } }
impl<T: Zoo> Zoo for RangeInclusive<T> { fn schema() -> S { S::Prod(vec![T::schema(), T::schema()]) } fn from_tree(t: &Tree) -> Self { T::from_tree(&t.l()[0])..=T::from_tree(&t.l()[1]) } fn to_tree(&self) -> Tree { L(vec![self.start().to_tree(), self.end().to_tree()]) } }
impl<T: Zoo> Zoo for RangeFrom<T> { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { T::from_tree(&t.l()[0]).. } fn to_tree(&self) -> Tree { L(vec![self.start.to_tree()]) } }
impl<T: Zoo> Zoo for RangeTo<T> { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { ..T::from_tree(&t.l()[0]) } fn to_tree(&self) -> Tree { L(vec![self.end.to_tree()]) } }
impl<T: Zoo> Zoo for RangeToInclusive<T> { fn schema() -> S { S::Prod(vec![T::schema()]) } fn from_tree(t: &Tree) -> Self { ..=T::from_tree(&t.l()[0]) } fn to_tree(&self) -> Tree { L(vec![self.end.to_tree()]) } }

impl<T: Zoo, const K: usize> Zoo for [T; K] {
    fn schema() -> S { S::Arr(rc(T::schema()), K) }
    fn from_tree(t: &Tree) -> Self { std::array::from_fn(|i| T::from_tree(&t.l()[i])) }
    fn to_tree(&self) -> Tree { L(self.iter().map(Zoo::to_tree).collect()) }
    fn more_views() -> u8 { 1 }
    fn more_view(t: &Tree, _k: u8) -> EncFn { let x = Self::from_tree(t); Box::new(move |o| x.each_ref().encode(o).map_err(ErrOf::e)) }
}
impl<T: Zoo> Zoo for Vec<T> {
    fn schema() -> S { T::seq_schema(None) }
    fn from_tree(t: &Tree) -> Self { T::seq_from(t) }
    fn to_tree(&self) -> Tree { T::seq_to(self.iter()) }
    fn more_views() -> u8 { 6 }
    fn more_view(t: &Tree, k: u8) -> EncFn {
        let x = Self::from_tree(t);
        match k {
            5 => T::cow_seq(x),
            0 => Box::new(move |o| <&[T] as Encode>::encode(&&x[..], o).map_err(ErrOf::e)),
            1 => ef(x.into_boxed_slice()),
            2 => ef(Rc::<[T]>::from(x)),
            3 => ef(Arc::<[T]>::from(x)),
            _ => Box::new(move |o| x.iter().collect::<Vec<&T>>().encode(o).map_err(ErrOf::e)),
        }
    }
}
impl<T: Zoo> Zoo for LinkedList<T> { fn schema() -> S { T::seq_schema(None) } fn from_tree(t: &Tree) -> Self { T::seq_from(t).into_iter().collect() } fn to_tree(&self) -> Tree { T::seq_to(self.iter()) } }
impl<T: Zoo, const K: usize> Zoo for SizedSlice<T, K> {
    fn schema() -> S { T::seq_schema(Some(K)) }
    fn from_tree(t: &Tree) -> Self { T::seq_from(t).into_iter().collect() }
    fn to_tree(&self) -> Tree { T::seq_to(self.as_slice().iter()) }
    fn more_views() -> u8 { 2 }
    fn more_view(t: &Tree, k: u8) -> EncFn {
        let x = Self::from_tree(t);
        if k == 0 { Box::new(move |o| x.each_ref().encode(o).map_err(ErrOf::e)) } else { let x = RefCell::new(x); Box::new(move |o| x.borrow_mut().each_mut().encode(o).map_err(ErrOf::e)) }
    }
}
fn str_of(t: &Tree) -> &str { std::str::from_utf8(t.b()).expect("model text") }
impl Zoo for String {
    fn schema() -> S { S::Str(None) }
    fn from_tree(t: &Tree) -> Self { str_of(t).to_owned() }
    fn to_tree(&self) -> Tree { B(self.as_bytes().to_vec()) }
    fn more_views() -> u8 { 5 }
    fn more_view(t: &Tree, k: u8) -> EncFn {
        let x = Self::from_tree(t);
        match k { 0 => Box::new(move |o| <&str as Encode>::encode(&&x[..], o).map_err(ErrOf::e)), 1 => ef(x.into_boxed_str()), 2 => ef(Rc::<str>::from(x)), 3 => ef(Arc::<str>::from(x)), _ => Box::new(move |o| Cow::Borrowed(&x[..]).encode(o).map_err(ErrOf::e)) }
    }
}
impl<const K: usize> Zoo for SizedStr<K> { fn schema() -> S { S::Str(Some(K)) } fn from_tree(t: &Tree) -> Self { SizedStr::new(str_of(t)).ok().expect("fits") } fn to_tree(&self) -> Tree { B(self.as_bytes().to_vec()) } }
impl Zoo for CString {
    fn schema() -> S { S::CStr }
    fn from_tree(t: &Tree) -> Self { CString::new(t.b()).expect("model C string") }
    fn to_tree(&self) -> Tree { B(self.as_bytes().to_vec()) }
    fn more_views() -> u8 { 3 }
    fn more_view(t: &Tree, k: u8) -> EncFn {
        let x = Self::from_tree(t);
        match k { 0 => Box::new(move |o| <&CStr as Encode>::encode(&x.as_c_str(), o).map_err(ErrOf::e)), 1 => ef(x.into_boxed_c_str()), _ => Box::new(move |o| Cow::Borrowed(x.as_c_str()).encode(o).map_err(ErrOf::e)) }
    }
}
macro_rules! z_cow { ($($t:ty),*) => { $(
    impl Zoo for Cow<'static, $t> { fn schema() -> S { <$t>::schema() } fn from_tree(t: &Tree) -> Self { Cow::Owned(Zoo::from_tree(t)) } fn to_tree(&self) -> Tree { (**self).to_tree() }
        fn more_views() -> u8 { 1 } fn more_view(t: &Tree, _k: u8) -> EncFn { let x = <$t>::from_tree(t); Box::new(move |o| Cow::Borrowed(&x).encode(o).map_err(ErrOf::e)) } }
)* } }
z_cow!(u8, u32, i128);
impl<T: Zoo> Zoo for Box<[T]> where Box<[T]>: Decode<Error: ErrOf> { fn schema() -> S { T::seq_schema(None) } fn from_tree(t: &Tree) -> Self { T::seq_from(t).into() } fn to_tree(&self) -> Tree { T::seq_to(self.iter()) } }

macro_rules! z_tuple { ($($x:ident $i:tt),*) => {
    impl<EE: ErrOf, DE: ErrOf, $($x: Zoo + Encode<Error = EE> + Decode<Error = DE>),*> Zoo for ($($x,)*) {
        fn schema() -> S { S::Prod(vec![$($x::schema()),*]) } fn from_tree(t: &Tree) -> Self { ($($x::from_tree(&t.l()[$i]),)*) } fn to_tree(&self) -> Tree { L(vec![$(self.$i.to_tree()),*]) }
    }
} }
z_tuple!(A 0, C 1);
z_tuple!(A 0, C 1, D 2);
z_tuple!(A 0, C 1, D 2, E 3);
z_tuple!(A 0, C 1, D 2, E 3, F 4);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9, M 10);
z_tuple!(A 0, C 1, D 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9, M 10, O 11);

// ---- hashing --------------------------------------------------------------------------------

thread_local! { static HASH: Cell<(u64, u8)> = const { Cell::new((1, 0)) }; }
/// The hashing of the node now running: seed and kind (0 good, 1 all collide, 2 two bits, 3 by length).
pub fn set_hashing(seed: u64, kind: u8) { HASH.with(|h| h.set((seed, kind))) }
#[derive(Clone)]
pub struct SimHash { seed: u64, kind: u8 }
impl Default for SimHash { fn default() -> Self { let (seed, kind) = HASH.with(|h| h.get()); SimHash { seed, kind } } }
impl BuildHasher for SimHash { type Hasher = SimHasher; fn build_hasher(&self) -> SimHasher { SimHasher { h: self.seed, kind: self.kind, n: 0 } } }
pub struct SimHasher { h: u64, kind: u8, n: u64 }
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) { self.h = mix(self.h, crate::ctx::hash_bytes(b)); self.n += b.len() as u64 }
    fn finish(&self) -> u64 { match self.kind { 0 => self.h, 1 => 42, 2 => self.h & 3, _ => self.n << 57 | self.n } }
}
pub type Map<K, T> = HashMap<K, T, SimHash>;
pub type Set<K> = HashSet<K, SimHash>;
impl<K, T, EE: ErrOf, DE: ErrOf> Zoo for Map<K, T> where K: Zoo + Eq + Hash + Encode<Error = EE> + Decode<Error = DE>, T: Zoo + Encode<Error = EE> + Decode<Error = DE> {
    fn schema() -> S { S::Map(rc(K::schema()), rc(T::schema())) }
    fn from_tree(t: &Tree) -> Self { let mut m = Map::default(); for e in t.l() { m.insert(K::from_tree(&e.l()[0]), T::from_tree(&e.l()[1])); } m }
    fn to_tree(&self) -> Tree { L(self.iter().map(|(k, v)| L(vec![k.to_tree(), v.to_tree()])).collect()) }
}
impl<K: Zoo + Eq + Hash> Zoo for Set<K> {
    fn schema() -> S { S::Set(rc(K::schema())) }
    fn from_tree(t: &Tree) -> Self { t.l().iter().map(K::from_tree).collect() }
    fn to_tree(&self) -> Tree { L(self.iter().map(|k| k.to_tree()).collect()) }
}

// ---- envelope -------------------------------------------------------------------------------

/// A message as an application would define it, with hand-written codecs.
pub struct Env<T> { pub seq: u64, pub kind: u8, pub body: T }
impl<T: Encode> Encode for Env<T> {
    type Error = T::Error;
    fn encode(&self, o: &mut Output) -> Result<(), T::Error> { let Ok(()) = self.seq.encode(o); let Ok(()) = self.kind.encode(o); self.body.encode(o) }
}
impl<T: Decode> Decode for Env<T> {
    type Error = T::Error;
    fn decode(i: &mut Input) -> Result<Self, T::Error> { let Ok(seq) = u64::decode(i); let Ok(kind) = u8::decode(i); Ok(Env { seq, kind, body: T::decode(i)? }) }
}
impl<T: SizedEncode> SizedEncode for Env<T> { const MAX_ENCODED_SIZE: usize = u64::MAX_ENCODED_SIZE + u8::MAX_ENCODED_SIZE + T::MAX_ENCODED_SIZE; }
impl<T: Zoo> Zoo for Env<T> {
    fn schema() -> S { env_schema(T::schema()) }
    fn from_tree(t: &Tree) -> Self { let l = t.l(); Env { seq: l[0].n() as u64, kind: l[1].n() as u8, body: T::from_tree(&l[2]) } }
    fn to_tree(&self) -> Tree { L(vec![self.seq.to_tree(), self.kind.to_tree(), self.body.to_tree()]) }
}
pub fn env_schema(s: S) -> S { S::Prod(vec![U64, U8, s]) }

// ---- type erasure ---------------------------------------------------------------------------

thread_local! { static LAZY: RefCell<Option<Tree>> = const { RefCell::new(None) }; }
fn lazy_tree() -> Tree { LAZY.with(|l| l.borrow().clone()).expect("lazy value prepared") }
pub const BASE_VIEWS: u8 = 16;
/// Encodes through one of the transparent wrappers.
fn base_view<T: Zoo>(t: &Tree, k: u8) -> EncFn {
    let x = T::from_tree(t);
    match k {
        0 => ef(x),
        1 => Box::new(move |o| <&T as Encode>::encode(&&x, o).map_err(ErrOf::e)),
        2 => { let c = RefCell::new(x); Box::new(move |o| { let mut b = c.borrow_mut(); let r: &mut T = &mut b; <&mut T as Encode>::encode(&r, o).map_err(ErrOf::e) }) }
        3 => ef(Box::new(x)),
        4 => ef(Rc::new(x)),
        5 => ef(Arc::new(x)),
        6 => { let t = t.clone(); Box::new(move |o| { LAZY.with(|l| *l.borrow_mut() = Some(t.clone())); LazyCell::<T>::new(|| T::from_tree(&lazy_tree())).encode(o).map_err(ErrOf::e) }) }
        7 => { let t = t.clone(); Box::new(move |o| { LAZY.with(|l| *l.borrow_mut() = Some(t.clone())); LazyLock::<T>::new(|| T::from_tree(&lazy_tree())).encode(o).map_err(ErrOf::e) }) }
        8 => ef(Mutex::new(x)),
        9 => ef(RwLock::new(x)),
        10 => { let c = RefCell::new(x); Box::new(move |o| c.encode(o).map_err(|e| match e.e() { ErrT::Value(e) => *e, e => e })) }
        11 => ef((x,)),
        12 => { let m = Arc::new(Mutex::new(x)); let m2 = m.clone(); let _ = guard(move || { let _g = m2.lock().unwrap(); crate::ctx::inject_panic(0) }); ef(m) }
        13 => { let m = Arc::new(RwLock::new(x)); let m2 = m.clone(); let _ = guard(move || { let _g = m2.write().unwrap(); crate::ctx::inject_panic(0) }); ef(m) }
        14 => ef(Wrapping(Saturating(x))),
        _ => ef(std::iter::once(x).collect::<Vec<T>>().into_iter().next().map(|x| std::ops::RangeFrom { start: x }).expect("one")),
    }
}

pub trait AnySlot {
    fn write(&mut self, t: &Tree, by_ref: bool) -> Result<Result<(), ErrT>, Panicked>;
    fn read(&self) -> Result<Result<Tree, ErrT>, Panicked>;
    fn bytes(&self) -> &[u8];
    fn full(&mut self) -> &mut [u8];
    fn set_len(&mut self, n: usize) -> Result<(), Panicked>;
    fn copy(&mut self, b: &[u8]) -> Result<(), Panicked>;
    fn cap(&self) -> usize;
    fn len(&self) -> usize;
    /// Every accessor must present `want`; names the first that does not.
    fn agrees(&mut self, want: &[u8], cap: usize) -> Result<(), String>;
}
impl<T: Zoo> AnySlot for Slot<T> {
    fn write(&mut self, t: &Tree, by_ref: bool) -> Result<Result<(), ErrT>, Panicked> {
        let v = T::from_tree(t);
        guard(|| if by_ref { Slot::write(self, &v) } else { Slot::write(self, v) }).map(|r| r.map_err(ErrOf::e))
    }
    fn read(&self) -> Result<Result<Tree, ErrT>, Panicked> { guard(|| { let r = Slot::read(self); crate::alloc::settle(); r }).map(|r| match r { Ok(v) => Ok(v.to_tree()), Err(e) => Err(e.e()) }) }
    fn bytes(&self) -> &[u8] { self.as_slice() }
    fn full(&mut self) -> &mut [u8] { self.as_mut_slice() }
    fn set_len(&mut self, n: usize) -> Result<(), Panicked> { guard(|| Slot::set_len(self, n)) }
    fn copy(&mut self, b: &[u8]) -> Result<(), Panicked> { guard(|| Slot::copy_from_slice(self, b)) }
    fn cap(&self) -> usize { self.capacity() }
    fn len(&self) -> usize { Slot::len(self) }
    fn agrees(&mut self, want: &[u8], cap: usize) -> Result<(), String> {
        use std::borrow::{Borrow, BorrowMut};
        macro_rules! same { ($n:expr, $e:expr, $w:expr) => { if $e != $w { return Err(format!("{} is {:?}, expected {:?}", $n, $e, $w)) } } }
        same!("len", Slot::len(self), want.len());
        same!("capacity", self.capacity(), cap);
        same!("is_empty", Slot::is_empty(self), want.is_empty());
        same!("is_full", self.is_full(), want.len() == cap);
        same!("as_slice", self.as_slice(), want);
        same!("deref", &**self, want);
        same!("as_ref", AsRef::<[u8]>::as_ref(self), want);
        same!("borrow", Borrow::<[u8]>::borrow(self), want);
        same!("index", &self[..], want);
        if !want.is_empty() { same!("index", self[want.len() - 1], want[want.len() - 1]) }
        same!("get", self.get(want.len()), None::<&u8>);
        if want.len() <= 64 { same!("debug", format!("{self:?}"), format!("{want:?}")) }
        // Every form of comparison, against the contents and against near misses of them:
        // remnants of earlier messages included, cut short, longer, altered.
        let full = self.as_mut_slice().to_vec();
        let mut cands: Vec<Vec<u8>> = vec![want.to_vec(), Vec::new()];
        if want.len() < cap { cands.push(full[..want.len() + 1].to_vec()); cands.push(full.clone()) }
        let mut o = want.to_vec(); o.push(0); cands.push(o);
        if let Some((_, f)) = want.split_last() { cands.push(f.to_vec()); cands.push(want[1..].to_vec()) }
        for k in [0, want.len() / 2, want.len().wrapping_sub(1)] { let mut o = want.to_vec(); if let Some(b) = o.get_mut(k) { *b ^= 1; cands.push(o) } }
        for mut c in cands {
            let eq = c == want;
            if (*self == *c) != eq { return Err(format!("== [u8] with {c:?} is {}", !eq)) }
            if (*self == &c[..]) != eq { return Err(format!("== &[u8] with {c:?} is {}", !eq)) }
            if (*self == &mut c[..]) != eq { return Err(format!("== &mut [u8] with {c:?} is {}", !eq)) }
        }
        let p = self.as_ptr();
        same!("as_ptr", p, self.as_slice().as_ptr());
        same!("as_mut_slice len", self.as_mut_slice().len(), cap);
        same!("as_mut len", AsMut::<[u8]>::as_mut(self).len(), cap);
        same!("borrow_mut len", BorrowMut::<[u8]>::borrow_mut(self).len(), cap);
        same!("deref_mut len", (&mut **self).len(), cap);
        same!("index_mut len", (&mut self[..]).len(), cap);
        same!("as_mut_slice", &self.as_mut_slice()[..want.len()], want);
        same!("as_mut_ptr", self.as_mut_ptr() as *const u8, p);
        Ok(())
    }
}

/// A slot whose comparisons and conversions are exercised elsewhere (see `full`).
pub struct Lite<T>(pub Slot<T>);
impl<T: Zoo> AnySlot for Lite<T> {
    fn write(&mut self, t: &Tree, by_ref: bool) -> Result<Result<(), ErrT>, Panicked> {
        let v = T::from_tree(t);
        let _ = by_ref;
        guard(|| Slot::write(&mut self.0, &v)).map(|r| r.map_err(ErrOf::e))
    }
    fn read(&self) -> Result<Result<Tree, ErrT>, Panicked> { guard(|| Slot::read(&self.0)).map(|r| match r { Ok(v) => Ok(v.to_tree()), Err(e) => Err(e.e()) }) }
    fn bytes(&self) -> &[u8] { self.0.as_slice() }
    fn full(&mut self) -> &mut [u8] { self.0.as_mut_slice() }
    fn set_len(&mut self, n: usize) -> Result<(), Panicked> { guard(|| Slot::set_len(&mut self.0, n)) }
    fn copy(&mut self, b: &[u8]) -> Result<(), Panicked> { guard(|| Slot::copy_from_slice(&mut self.0, b)) }
    fn cap(&self) -> usize { self.0.capacity() }
    fn len(&self) -> usize { Slot::len(&self.0) }
    fn agrees(&mut self, want: &[u8], cap: usize) -> Result<(), String> {
        if self.0.as_slice() != want { return Err(format!("as_slice is {:?}, expected {want:?}", self.0.as_slice())) }
        if self.0.len() != want.len() || self.0.capacity() != cap { return Err(format!("len {} of {}, expected {} of {cap}", self.0.len(), self.0.capacity(), want.len())) }
        Ok(())
    }
}

pub trait Codec: Sync {
    fn full(&self) -> bool;
    /// Whether the type only serves to combine constructors with element types: no envelope slots.
    fn thin(&self) -> bool { false }
    fn views(&self) -> u8;
    fn mk(&self, t: &Tree, view: u8) -> EncFn;
    /// The value's own listing, in its iteration order.
    fn own_tree(&self, t: &Tree) -> Tree;
    /// Encodes `t` and lists it in the iteration order of that very value.
    fn enc_with_order(&self, t: &Tree) -> (EncFn, Tree);
    fn dec(&self, i: &mut Input) -> Result<Tree, ErrT>;
    /// Decodes through wrappers that own their value.
    fn dec_as(&self, i: &mut Input, how: u8) -> Result<Tree, ErrT>;
    fn slot(&self, cap: usize) -> Box<dyn AnySlot>;
    fn env_slot(&self, cap: usize) -> Box<dyn AnySlot>;
    fn new_slot(&self) -> Option<Box<dyn AnySlot>>;
    fn new_env_slot(&self) -> Option<Box<dyn AnySlot>>;
    fn max(&self) -> Option<usize>;
    /// MAX_ENCODED_SIZE through transparent wrappers, which must agree.
    fn max_wrapped(&self) -> Vec<usize>;
}
pub struct Plain<T>(pub PhantomData<fn() -> T>);
pub struct Bounded<T>(pub PhantomData<fn() -> T>);
/// As the above, through every wrapper and accessor; kept to the simpler types to bound build time.
pub struct FullPlain<T>(pub PhantomData<fn() -> T>);
pub struct FullBounded<T>(pub PhantomData<fn() -> T>);
pub struct Thin<T>(pub PhantomData<fn() -> T>);
pub struct ThinBounded<T>(pub PhantomData<fn() -> T>);
fn dec_t<T: Zoo>(i: &mut Input) -> Result<Tree, ErrT> { let r = T::decode(i); crate::alloc::settle(); match r { Ok(v) => Ok(v.to_tree()), Err(e) => Err(e.e()) } }
pub const DEC_AS: u8 = 6;
fn dec_as_t<T: Zoo>(i: &mut Input, how: u8) -> Result<Tree, ErrT> {
    match how { 0 => dec_t::<T>(i), 1 => dec_t::<Box<T>>(i), 2 => dec_t::<Rc<T>>(i), 3 => dec_t::<Arc<T>>(i), 4 => dec_t::<Mutex<T>>(i), _ => dec_t::<RefCell<T>>(i) }
}
macro_rules! codec_any { ($T:ident) => {
    fn own_tree(&self, t: &Tree) -> Tree { $T::from_tree(t).to_tree() }
    fn enc_with_order(&self, t: &Tree) -> (EncFn, Tree) { let x = $T::from_tree(t); let o = x.to_tree(); (ef(x), o) }
    fn dec(&self, i: &mut Input) -> Result<Tree, ErrT> { dec_t::<$T>(i) }
    fn env_slot(&self, cap: usize) -> Box<dyn AnySlot> { Box::new(Lite(Slot::<Env<$T>>::with_capacity(cap))) }
} }
macro_rules! codec_lite { ($T:ident) => {
    codec_any!($T);
    fn full(&self) -> bool { false }
    fn views(&self) -> u8 { 2 + $T::more_views() }
    fn mk(&self, t: &Tree, view: u8) -> EncFn { match view { 0 => ef($T::from_tree(t)), 1 => ef(Box::new($T::from_tree(t))), v => $T::more_view(t, v - 2) } }
    fn dec_as(&self, i: &mut Input, _how: u8) -> Result<Tree, ErrT> { dec_t::<Box<$T>>(i) }
    fn slot(&self, cap: usize) -> Box<dyn AnySlot> { Box::new(Lite(Slot::<$T>::with_capacity(cap))) }
} }
macro_rules! codec_thin { ($T:ident) => {
    fn thin(&self) -> bool { true }
    fn full(&self) -> bool { false }
    fn own_tree(&self, t: &Tree) -> Tree { $T::from_tree(t).to_tree() }
    fn enc_with_order(&self, t: &Tree) -> (EncFn, Tree) { let x = $T::from_tree(t); let o = x.to_tree(); (ef(x), o) }
    fn dec(&self, i: &mut Input) -> Result<Tree, ErrT> { dec_t::<$T>(i) }
    fn env_slot(&self, _cap: usize) -> Box<dyn AnySlot> { unreachable!("thin") }
    fn new_env_slot(&self) -> Option<Box<dyn AnySlot>> { None }
    fn views(&self) -> u8 { 1 }
    fn mk(&self, t: &Tree, _view: u8) -> EncFn { ef($T::from_tree(t)) }
    fn dec_as(&self, i: &mut Input, _how: u8) -> Result<Tree, ErrT> { dec_t::<$T>(i) }
    fn slot(&self, cap: usize) -> Box<dyn AnySlot> { Box::new(Lite(Slot::<$T>::with_capacity(cap))) }
    fn max_wrapped(&self) -> Vec<usize> { vec![] }
} }
macro_rules! codec_full { ($T:ident) => {
    codec_any!($T);
    fn full(&self) -> bool { true }
    fn views(&self) -> u8 { BASE_VIEWS + $T::more_views() }
    fn mk(&self, t: &Tree, view: u8) -> EncFn { if view < BASE_VIEWS { base_view::<$T>(t, view) } else { $T::more_view(t, view - BASE_VIEWS) } }
    fn dec_as(&self, i: &mut Input, how: u8) -> Result<Tree, ErrT> { dec_as_t::<$T>(i, how) }
    fn slot(&self, cap: usize) -> Box<dyn AnySlot> { Box::new(Slot::<$T>::with_capacity(cap)) }
} }
macro_rules! codec_unbounded { () => {
    fn new_slot(&self) -> Option<Box<dyn AnySlot>> { None }
    fn new_env_slot(&self) -> Option<Box<dyn AnySlot>> { None }
    fn max(&self) -> Option<usize> { None }
    fn max_wrapped(&self) -> Vec<usize> { vec![] }
} }
macro_rules! codec_bounded { ($T:ident) => {
    fn new_env_slot(&self) -> Option<Box<dyn AnySlot>> { Some(Box::new(Lite(Slot::<Env<$T>>::default()))) }
    fn max(&self) -> Option<usize> { Some($T::MAX_ENCODED_SIZE) }
    fn max_wrapped(&self) -> Vec<usize> {
        vec![<&$T>::MAX_ENCODED_SIZE, <&mut $T>::MAX_ENCODED_SIZE, Box::<$T>::MAX_ENCODED_SIZE, Rc::<$T>::MAX_ENCODED_SIZE, Arc::<$T>::MAX_ENCODED_SIZE, Mutex::<$T>::MAX_ENCODED_SIZE,
            RwLock::<$T>::MAX_ENCODED_SIZE, RefCell::<$T>::MAX_ENCODED_SIZE, LazyLock::<$T>::MAX_ENCODED_SIZE, LazyCell::<$T>::MAX_ENCODED_SIZE, <($T,)>::MAX_ENCODED_SIZE, Wrapping::<$T>::MAX_ENCODED_SIZE, Saturating::<$T>::MAX_ENCODED_SIZE]
    }
} }
impl<T: Zoo> Codec for Thin<T> { codec_thin!(T); fn new_slot(&self) -> Option<Box<dyn AnySlot>> { None } fn max(&self) -> Option<usize> { None } }
impl<T: Zoo + SizedEncode> Codec for ThinBounded<T> { codec_thin!(T); fn new_slot(&self) -> Option<Box<dyn AnySlot>> { Some(Box::new(Lite(Slot::<T>::new()))) } fn max(&self) -> Option<usize> { Some(T::MAX_ENCODED_SIZE) } }
impl<T: Zoo> Codec for Plain<T> { codec_lite!(T); codec_unbounded!(); }
impl<T: Zoo> Codec for FullPlain<T> { codec_full!(T); codec_unbounded!(); }
impl<T: Zoo + SizedEncode> Codec for Bounded<T> { codec_lite!(T); codec_bounded!(T); fn new_slot(&self) -> Option<Box<dyn AnySlot>> { Some(Box::new(Lite(Slot::<T>::new()))) } }
impl<T: Zoo + SizedEncode> Codec for FullBounded<T> { codec_full!(T); codec_bounded!(T); fn new_slot(&self) -> Option<Box<dyn AnySlot>> { Some(Box::new(Slot::<T>::new())) } }

// ---- what errors say ------------------------------------------------------------------------

/// An error in the model's vocabulary, and the texts of it and of each of its sources.
pub type Said = Option<(ErrT, Option<Vec<String>>)>;
pub struct Told { pub dec: fn(&mut Input) -> Said, pub enc: fn(&Tree, &mut Output) -> Said }
pub struct Tell<E>(PhantomData<E>);
pub fn tell_of<E>(_: &E) -> Tell<E> { Tell(PhantomData) }
pub fn chain_of(e: &(dyn std::error::Error + 'static)) -> Vec<String> { let mut v = vec![e.to_string()]; let mut e = e; while let Some(s) = e.source() { v.push(s.to_string()); e = s; if v.len() > 64 { break } } v }
impl<E: std::error::Error + 'static> Tell<E> { pub fn chain(&self, e: &E) -> Option<Vec<String>> { Some(chain_of(e)) } }
/// For errors (of linked lists) that cannot be displayed.
pub trait Mute<E> { fn chain(&self, _: &E) -> Option<Vec<String>> { None } }
impl<E> Mute<E> for Tell<E> {}
#[macro_export]
macro_rules! told { ($t:ty) => { {
    #[allow(unused_imports)] use $crate::zoo::Mute as _;
    $crate::zoo::Told {
        dec: |i| match <$t as oct::decode::Decode>::decode(i) { Ok(_) => None, Err(e) => { let c = $crate::zoo::tell_of(&e).chain(&e); Some(($crate::zoo::ErrOf::e(e), c)) } },
        enc: |t, o| match oct::encode::Encode::encode(&<$t as $crate::zoo::Zoo>::from_tree(t), o) { Ok(()) => None, Err(e) => { let c = $crate::zoo::tell_of(&e).chain(&e); Some(($crate::zoo::ErrOf::e(e), c)) } },
    }
} } }

pub struct Ty { pub told: Told, pub id: usize, pub name: &'static str, pub schema: S, pub env: S, pub maps: bool, pub norm: String, pub vt: &'static dyn Codec }
impl Ty {
    pub fn new<T: Zoo>(name: &'static str, vt: &'static dyn Codec, told: Told) -> Ty {
        let schema = T::schema();
        Ty { told, id: 0, name, env: env_schema(schema.clone()), maps: has_map(&schema), norm: norm(&schema), schema, vt }
    }
}
#[macro_export]
macro_rules! tys { ($c:ident, $v:ident, $($t:ty),* $(,)?) => { $($v.push($crate::zoo::Ty::new::<$t>(stringify!($t), { static C: $crate::zoo::$c<$t> = $crate::zoo::$c(std::marker::PhantomData); &C }, $crate::told!($t)));)* } }

/// Every constructor over elements of many sizes, kinds and errors.
fn grid(v: &mut Vec<Ty>) {
    use crate::zoo_derived::{DTup, EDef, EU8};
    macro_rules! grid { ($($e:ty),*) => { $(
        tys!(ThinBounded, v, Option<$e>, Bound<$e>, Range<$e>, RangeInclusive<$e>, RangeFrom<$e>, RangeTo<$e>, RangeToInclusive<$e>, [$e; 1], [$e; 3], ($e, $e), ($e, $e, $e), Result<$e, $e>, SizedSlice<$e, 2>, SizedSlice<$e, 17>);
        tys!(Thin, v, Vec<$e>, LinkedList<$e>);
    )* } }
    grid!((), bool, u8, u128, char, usize, NonZero<u32>, Duration, SocketAddr, SizedStr<9>, Option<NonZero<u16>>, EU8, DTup, [u8; 5]);
    tys!(ThinBounded, v, Option<SystemTime>, Range<SystemTime>, [SystemTime; 3], (SystemTime, SystemTime), Result<SystemTime, SystemTime>, Result<Duration, Duration>, (Duration, Duration), Bound<SystemTime>, SizedSlice<SystemTime, 4>, RefCell<SystemTime>);
    tys!(Thin, v, Map<Duration, Duration>, LinkedList<SystemTime>, Map<u8, Duration>, Option<Set<u8>>, Result<Map<u8, u8>, Set<u8>>, Bound<Map<u8, u16>>, Map<Vec<u8>, Map<u8, u8>>, Map<(u8, bool), i32>, Set<Option<u8>>, Set<SizedStr<3>>, Map<SizedStr<3>, SizedStr<5>>);
    tys!(ThinBounded, v, Result<(), u128>, Result<u64, u32>, Result<Option<u8>, u8>, Result<IpAddr, IpAddr>, Range<i128>, RangeInclusive<(u8, u64)>, Bound<EDef>, Option<RangeInclusive<u64>>, SizedSlice<Range<u16>, 3>);
}

pub fn all() -> Vec<Ty> {
    let mut v = Vec::new();
    tys!(FullBounded, v, u16, i64, usize, isize, bool, char, f32, u8, NonZero<u16>, SystemTime, Duration, SocketAddr, Option<u16>, Result<u8, u64>, Bound<u16>, [char; 2], (u8, u16), SizedStr<4>, SizedStr<16>, SizedSlice<u16, 3>, SizedSlice<u8, 8>);
    tys!(FullPlain, v, Vec<u8>, Vec<u16>, Vec<char>, String, CString, Vec<usize>, Map<u8, u8>, LinkedList<u16>, Vec<String>);
    tys!(Bounded, v, i8, i16, u32, i32, u64, u128, i128, f64, ());
    tys!(Bounded, v, NonZero<u8>, NonZero<i8>, NonZero<i16>, NonZero<u32>, NonZero<i32>, NonZero<u64>, NonZero<i64>, NonZero<u128>, NonZero<i128>, NonZero<usize>, NonZero<isize>);
    tys!(Bounded, v, AtomicBool, AtomicU8, AtomicI8, AtomicU16, AtomicI16, AtomicU32, AtomicI32, AtomicU64, AtomicI64, AtomicUsize, AtomicIsize);
    tys!(Bounded, v, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6);
    tys!(Bounded, v, Option<Option<bool>>, Option<()>, Option<char>, Option<NonZero<u8>>, Option<SocketAddr>, Result<u128, ()>, Result<usize, usize>, Bound<Option<usize>>, Bound<char>, Option<Result<u16, u8>>);
    tys!(Bounded, v, Range<u16>, Range<char>, RangeInclusive<i32>, RangeFrom<u8>, RangeTo<u64>, RangeToInclusive<isize>, RangeFull, PhantomData<u64>, Cell<u32>, RefCell<usize>, RefCell<RefCell<isize>>, Mutex<(u8, u16)>, RwLock<char>, Wrapping<u32>, Saturating<i64>, Wrapping<usize>, Saturating<isize>, Cell<usize>, Mutex<usize>, RwLock<isize>, RangeFrom<usize>, RangeInclusive<usize>, RangeTo<isize>, Range<isize>);
    tys!(Plain, v, PhantomPinned);
    tys!(Bounded, v, [u8; 4], [u16; 0], [usize; 3], [[u8; 2]; 3], [Option<u8>; 3], [NonZero<u16>; 2], [(); 5], [SizedStr<3>; 2]);
    tys!(Bounded, v, (u8,), (u8, u16, u32), (u8, u16, u32, u64), (u8, i8, u16, i16, u32), (u8, u8, u8, u8, u8, u16), (bool, u8, i8, u16, f32, u32, u64), (u8, u8, u8, u8, u8, u8, u8, i16), (u8, u16, u8, u16, u8, u16, u8, u16, u8), (u8, u16, u32, u8, u16, u32, u8, u16, u32, u8), (i8, u16, u32, u8, u16, u32, u8, u16, u32, u8, u64), (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, f64), (usize, usize), (char, char), (usize, (usize, usize)));
    tys!(Plain, v, Vec<Vec<u8>>, Vec<Option<NonZero<u16>>>, Vec<(u8, u32)>, Vec<()>, Vec<SystemTime>, Vec<IpAddr>, Vec<Vec<Vec<char>>>, Vec<SizedStr<5>>, Vec<[usize; 2]>, Vec<RefCell<usize>>, Vec<Result<u8, u16>>, Vec<bool>, LinkedList<u8>, LinkedList<String>, LinkedList<usize>, LinkedList<char>, Option<String>, Option<CString>, Box<String>, Rc<Vec<u16>>, Arc<String>, (String, String), (Vec<usize>, Vec<usize>), [String; 2], [CString; 2], Result<String, String>, Bound<String>, Range<String>, Vec<CString>, Mutex<Vec<u8>>, RwLock<String>, RefCell<Vec<u16>>, RefCell<String>);
    tys!(Bounded, v, Cow<'static, u32>, Cow<'static, i128>, Box<u64>, Rc<NonZero<u32>>, Arc<usize>);
    tys!(Bounded, v, SizedSlice<u8, 0>, SizedSlice<u8, 1>, SizedSlice<u8, 300>, SizedSlice<u32, 4>, SizedSlice<char, 4>, SizedSlice<usize, 5>, SizedSlice<Option<u8>, 4>, SizedSlice<SizedSlice<u8, 3>, 3>, SizedSlice<SizedStr<4>, 3>, SizedSlice<(), 6>, SizedSlice<u64, 257>, SizedSlice<NonZero<u8>, 6>, SizedSlice<Result<u8, u16>, 3>, SizedStr<0>, SizedStr<1>, SizedStr<300>, Option<SizedStr<7>>, (SizedStr<2>, SizedStr<9>), Bound<SizedSlice<u16, 2>>, Result<SizedStr<2>, SizedStr<8>>);
    tys!(Plain, v, SizedSlice<String, 4>, SizedSlice<Vec<u8>, 3>, SizedSlice<Box<u16>, 5>);
    tys!(Plain, v, Map<u16, u32>, Map<String, String>, Map<char, char>, Map<usize, usize>, Map<u32, ()>, Map<NonZero<u8>, NonZero<u8>>, Set<u8>, Set<u16>, Set<String>, Set<usize>, Set<char>, Set<()>, Set<(u8, u16)>, Option<Map<u8, u16>>, Vec<Set<u8>>, (Map<u8, u8>, Map<u8, u16>), Map<[u8; 2], [u8; 3]>, Map<Vec<u8>, Vec<u16>>, SizedSlice<Set<u16>, 3>);
    crate::zoo_derived::add(&mut v);
    // The sanitizers need fewer types.
    #[cfg(not(any(vsim_asan, vsim_msan)))]
    {
        crate::zoo_big::add(&mut v);
        grid(&mut v);
    }
    for (i, t) in v.iter_mut().enumerate() { t.id = i }
    v
}
pub fn prim_ok<T: PrimitiveDiscriminant>() {}
