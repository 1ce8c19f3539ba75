//! Types that derive their codecs, with an independent statement of what each should look like.
use crate::tree::*;
use crate::zoo::*;
use crate::tys;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::error::{GenericDecodeError, GenericEncodeError};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::LinkedList;
use std::ffi::CString;
use std::marker::PhantomData;
use std::net::{IpAddr, SocketAddr};
use std::num::NonZero;
use std::ops::{Bound, Range};
use std::rc::Rc;
use std::sync::atomic::AtomicU32;
use std::sync::Mutex;
use std::time::{Duration, SystemTime};

#[macro_export]
macro_rules! z_struct { ($n:ty { $($f:tt $x:ident: $t:ty),* $(,)? }) => { z_struct!(@[] $n { $($f $x: $t),* }); }; (@[$($g:tt)*] $n:ty { $($f:tt $x:ident: $t:ty),* $(,)? }) => { impl<$($g)*> Zoo for $n {
    fn schema() -> S { S::Struct(vec![$(<$t>::schema()),*]) }
    fn from_tree(t: &Tree) -> Self { let mut _i = t.l().iter(); $(let $x = <$t>::from_tree(_i.next().expect("field"));)* Self { $($f: $x),* } }
    fn to_tree(&self) -> Tree { let Self { $($f: $x),* } = self; L(vec![$($x.to_tree()),*]) }
} } }
#[macro_export]
macro_rules! z_enum { ($n:ty, $r:ident, $($k:literal: $d:literal => $v:ident { $($f:tt $x:ident: $t:ty),* $(,)? }),* $(,)?) => { z_enum!(@[] $n, $r, $($k: $d => $v { $($f $x: $t),* }),*); }; (@[$($g:tt)*] $n:ty, $r:ident, $($k:literal: $d:literal => $v:ident { $($f:tt $x:ident: $t:ty),* $(,)? }),* $(,)?) => { impl<$($g)*> Zoo for $n {
    fn schema() -> S { S::Enum(Repr::$r, vec![$(($d as i128 as u128, vec![$(<$t>::schema()),*])),*]) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); let mut _i = v.iter(); match k { $($k => { $(let $x = <$t>::from_tree(_i.next().expect("field"));)* Self::$v { $($f: $x),* } })* _ => unreachable!() } }
    fn to_tree(&self) -> Tree { match self { $(Self::$v { $($f: $x),* } => V($k, vec![$($x.to_tree()),*]),)* } }
} } }

#[derive(Encode, Decode, SizedEncode)] pub struct DUnit;
z_struct!(DUnit {});
#[derive(Encode, Decode, SizedEncode)] pub struct DTup(u8, u32, u16);
z_struct!(DTup { 0 a: u8, 1 b: u32, 2 c: u16 });
#[derive(Encode, Decode, SizedEncode)] pub struct DNamed { zebra: u16, apple: u8, mango: Option<NonZero<u16>>, kiwi: Bound<usize> }
z_struct!(DNamed { zebra a: u16, apple b: u8, mango c: Option<NonZero<u16>>, kiwi d: Bound<usize> });
#[derive(Encode, Decode)] pub struct DRich { name: String, tags: Vec<String>, raw: CString, at: SystemTime, took: Duration, peer: SocketAddr, list: Vec<u16>, window: Range<u32> }
z_struct!(DRich { name a: String, tags b: Vec<String>, raw c: CString, at d: SystemTime, took e: Duration, peer f: SocketAddr, list g: Vec<u16>, window h: Range<u32> });
#[derive(Encode, Decode)] pub struct DNest { head: DTup, kind: EGap, body: Vec<DNamed>, tail: Option<Box<DTup>> }
z_struct!(DNest { head a: DTup, kind b: EGap, body c: Vec<DNamed>, tail d: Option<Box<DTup>> });
#[derive(Encode, Decode, SizedEncode)] pub struct DFix { id: [u8; 4], name: SizedStr<6>, xs: SizedSlice<u16, 3>, ip: IpAddr, on: bool, _p: PhantomData<u64> }
z_struct!(DFix { id a: [u8; 4], name b: SizedStr<6>, xs c: SizedSlice<u16, 3>, ip d: IpAddr, on e: bool, _p f: PhantomData<u64> });
#[derive(Encode, Decode, SizedEncode)] pub struct DGen<T> where T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode { a: T, b: Option<T>, c: u8 }
z_struct!(@[T: Zoo + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode] DGen<T> { a a: T, b b: Option<T>, c c: u8 });
#[derive(Encode, Decode, SizedEncode)] pub struct DConst<const NN: usize, const MM: usize>([u16; NN], SizedStr<MM>);
z_struct!(@[const NN: usize, const MM: usize] DConst<NN, MM> { 0 a: [u16; NN], 1 b: SizedStr<MM> });
#[derive(Encode, Decode, SizedEncode)] pub struct DLife<'a> { s: Cow<'a, u32>, n: usize, v: Option<Cow<'a, i128>> }
z_struct!(DLife<'static> { s a: Cow<'static, u32>, n b: usize, v c: Option<Cow<'static, i128>> });
#[derive(Encode, Decode)] pub struct DOwn { s: String, v: Vec<u16>, c: CString, n: Box<usize> }
/// The borrowed form of the same message; only the sender needs it.
#[derive(Encode)] pub struct DBorrow<'a> { s: &'a str, v: &'a [u16], c: Cow<'a, std::ffi::CStr>, n: &'a usize }
impl Zoo for DOwn {
    fn schema() -> S { S::Struct(vec![S::Str(None), S::Seq(rc(U16), None), S::CStr, S::Usz]) }
    fn from_tree(t: &Tree) -> Self { let l = t.l(); DOwn { s: Zoo::from_tree(&l[0]), v: Zoo::from_tree(&l[1]), c: Zoo::from_tree(&l[2]), n: Zoo::from_tree(&l[3]) } }
    fn to_tree(&self) -> Tree { L(vec![self.s.to_tree(), self.v.to_tree(), self.c.to_tree(), self.n.to_tree()]) }
    fn more_views() -> u8 { 1 }
    fn more_view(t: &Tree, _k: u8) -> EncFn { let x = Self::from_tree(t); Box::new(move |o| DBorrow { s: &x.s, v: &x.v, c: Cow::Borrowed(&x.c), n: &x.n }.encode(o).map_err(ErrOf::e)) }
}
#[derive(Encode, Decode)] pub struct DShare { m: Mutex<u32>, r: Rc<u16>, a: AtomicU32, c: Cell<u8>, e: EU8 }
z_struct!(DShare { m a: Mutex<u32>, r b: Rc<u16>, a c: AtomicU32, c d: Cell<u8>, e e: EU8 });
#[derive(Encode, Decode)] pub struct DMap { a: u16, m: Map<u16, String2>, s: Set<u8>, z: u16 }
z_struct!(DMap { a a: u16, m b: Map<u16, String2>, s c: Set<u8>, z d: u16 });
/// A value type whose errors coincide with those of integers.
pub type String2 = u64;

// Default representation, consecutive.
#[derive(Encode, Decode, SizedEncode)] pub enum EDef { A, B(u8), C { x: u16, y: Option<u32> }, D }
z_enum!(EDef, Isize, 0: 0 => A {}, 1: 1 => B { 0 a: u8 }, 2: 2 => C { x a: u16, y b: Option<u32> }, 3: 3 => D {});
// Gaps, out of order, implicit after explicit.
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum EGap { A = 7, B, C = 2, D, E = 200, F, G = 0 }
z_enum!(EGap, U8, 0: 7 => A {}, 1: 8 => B {}, 2: 2 => C {}, 3: 3 => D {}, 4: 200 => E {}, 5: 201 => F {}, 6: 0 => G {});
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum EU8 { None = 1, Short(u8) = 0x10, Long { a: u64, b: u16 } = 0xFF, Mid(u16, u16) = 0x11, Text(SizedStr<5>) }
z_enum!(EU8, U8, 0: 1 => None {}, 1: 0x10 => Short { 0 a: u8 }, 2: 0xFF => Long { a a: u64, b b: u16 }, 3: 0x11 => Mid { 0 a: u16, 1 b: u16 }, 4: 0x12 => Text { 0 a: SizedStr<5> });
#[derive(Encode, Decode, SizedEncode)] #[repr(i8)] pub enum EI8 { A = 0, B = 127, C(u8) = 5 }
z_enum!(EI8, I8, 0: 0 => A {}, 1: 127 => B {}, 2: 5 => C { 0 a: u8 });
#[derive(Encode, Decode, SizedEncode)] #[repr(u16)] pub enum EU16 { A, B(u32) = 0x100, C = 0xFFFF, D = 0x1FF, E }
z_enum!(EU16, U16, 0: 0 => A {}, 1: 0x100 => B { 0 a: u32 }, 2: 0xFFFF => C {}, 3: 0x1FF => D {}, 4: 0x200 => E {});
#[derive(Encode, Decode, SizedEncode)] #[repr(i16)] pub enum EI16 { A = 1, B = 0x7FFF, C = 0x100 }
z_enum!(EI16, I16, 0: 1 => A {}, 1: 0x7FFF => B {}, 2: 0x100 => C {});
#[derive(Encode, Decode, SizedEncode)] #[repr(u32)] pub enum EU32 { A = 0xFFFF_FFFF, B(bool) = 0x1_0000, C }
z_enum!(EU32, U32, 0: 0xFFFF_FFFFu32 => A {}, 1: 0x1_0000 => B { 0 a: bool }, 2: 0x1_0001 => C {});
#[derive(Encode, Decode, SizedEncode)] #[repr(i32)] pub enum EI32 { A = 0x7FFF_FFFF, B { x: i8 } = 3, C }
z_enum!(EI32, I32, 0: 0x7FFF_FFFF => A {}, 1: 3 => B { x a: i8 }, 2: 4 => C {});
#[derive(Encode, Decode, SizedEncode)] #[repr(u64)] pub enum EU64 { A = 0xFFFF_FFFF_FFFF_FFFF, B = 0x1_0000_0000, C((u8, u8)) }
z_enum!(EU64, U64, 0: 0xFFFF_FFFF_FFFF_FFFFu64 => A {}, 1: 0x1_0000_0000u64 => B {}, 2: 0x1_0000_0001u64 => C { 0 a: (u8, u8) });
#[derive(Encode, Decode, SizedEncode)] #[repr(i64)] pub enum EI64 { A = 0x7FFF_FFFF_FFFF_FFFF, B = 9, C(i64) }
z_enum!(EI64, I64, 0: 0x7FFF_FFFF_FFFF_FFFFi64 => A {}, 1: 9 => B {}, 2: 10 => C { 0 a: i64 });
#[derive(Encode, Decode, SizedEncode)] #[repr(u128)] pub enum EU128 { A = 0xFFFF_FFFF_FFFF_FFFF_FFFF, B(u8) = 1, C }
z_enum!(EU128, U128, 0: 0xFFFF_FFFF_FFFF_FFFF_FFFFu128 => A {}, 1: 1 => B { 0 a: u8 }, 2: 2 => C {});
#[derive(Encode, Decode, SizedEncode)] #[repr(i128)] pub enum EI128 { A = 4, B(u8) = 0x7FFF_FFFF_FFFF_FFFF_FFFF }
z_enum!(EI128, I128, 0: 4 => A {}, 1: 0x7FFF_FFFF_FFFF_FFFF_FFFFi128 => B { 0 a: u8 });
// Some discriminants of these do not fit the 16 bits they are encoded in.
#[derive(Encode, Decode, SizedEncode)] #[repr(usize)] pub enum EUsize { A = 1, B(u8) = 65535, C = 65536, D = 0x1_0000_0001, E(u16) = 0x10001 }
z_enum!(EUsize, Usize, 0: 1 => A {}, 1: 65535 => B { 0 a: u8 }, 2: 65536 => C {}, 3: 0x1_0000_0001u64 => D {}, 4: 0x10001 => E { 0 a: u16 });
#[derive(Encode, Decode, SizedEncode)] #[repr(isize)] pub enum EIsize { A = 32767, B, C(u8) = 65536, D = 0, E = 65535 }
z_enum!(EIsize, Isize, 0: 32767 => A {}, 1: 32768 => B {}, 2: 65536 => C { 0 a: u8 }, 3: 0 => D {}, 4: 65535 => E {});
#[derive(Encode, Decode)] #[repr(u8)] pub enum ERich { Text(String) = 3, Many { xs: Vec<u16>, when: SystemTime } = 1, Inner(DTup), Boxed(Box<EDef>) = 9, Count(usize), Nz(NonZero<u8>, IpAddr), Nil = 0 }
z_enum!(ERich, U8, 0: 3 => Text { 0 a: String }, 1: 1 => Many { xs a: Vec<u16>, when b: SystemTime }, 2: 2 => Inner { 0 a: DTup }, 3: 9 => Boxed { 0 a: Box<EDef> }, 4: 10 => Count { 0 a: usize }, 5: 11 => Nz { 0 a: NonZero<u8>, 1 b: IpAddr }, 6: 0 => Nil {});
#[derive(Encode, Decode, SizedEncode)] pub enum EOne { Only }
z_enum!(EOne, Isize, 0: 0 => Only {});
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum EGen<T> where T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode { A(T) = 4, B { x: T, y: Option<T> }, C = 1 }
z_enum!(@[T: Zoo + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode] EGen<T>, U8, 0: 4 => A { 0 a: T }, 1: 5 => B { x a: T, y b: Option<T> }, 2: 1 => C {});

// Discriminants that cannot be encoded, below other derived types.
#[derive(Encode, Decode)] pub struct DDisc { a: u16, e: EUsize, f: EIsize, v: Vec<EUsize>, o: Option<EIsize> }
z_struct!(DDisc { a a: u16, e b: EUsize, f c: EIsize, v d: Vec<EUsize>, o e: Option<EIsize> });
#[derive(Encode, Decode)] #[repr(u32)] pub enum EDisc { Nil = 7, One(EIsize), Two { n: usize, e: [EUsize; 2] } = 0x10002, Deep(DDisc) }
z_enum!(EDisc, U32, 0: 7 => Nil {}, 1: 8 => One { 0 a: EIsize }, 2: 0x10002 => Two { n a: usize, e b: [EUsize; 2] }, 3: 0x10003 => Deep { 0 a: DDisc });

pub fn add(v: &mut Vec<Ty>) {
    tys!(FullBounded, v, DNamed, EU8);
    tys!(FullPlain, v, ERich, DRich);
    tys!(Bounded, v, DUnit, DTup, DFix, DGen<u16>, DGen<usize>, DGen<SizedStr<3>>, DGen<EU8>, DConst<0, 0>, DConst<3, 5>, DLife<'static>);
    tys!(Plain, v, DNest, DOwn, DShare, DMap);
    tys!(Bounded, v, EDef, EGap, EI8, EU16, EI16, EU32, EI32, EU64, EI64, EU128, EI128, EUsize, EIsize, EOne, EGen<u8>, EGen<usize>, EGen<DTup>);
    tys!(Plain, v, DDisc, EDisc, Vec<EDisc>);
    tys!(Bounded, v, Option<EDef>, [EGap; 3], (EGap, EGap), SizedSlice<EU8, 3>, Option<DTup>, SizedSlice<DNamed, 2>, Bound<EU16>, Result<DTup, DUnit>, [EUsize; 2], DGen<DFix>);
    tys!(Plain, v, Vec<EUsize>, Vec<ERich>, Vec<DNamed>, Vec<EIsize>, LinkedList<EDef>, Map<u8b, EGap2>, Vec<EDef>, Option<DRich>);
}
#[allow(non_camel_case_types)] pub type u8b = u8;
pub type EGap2 = i32;

/// What precedes the messages of a datagram.
#[derive(Encode, Decode)] pub struct NetHdr { from: u8, epoch: u32, kind: NetKind, items: Vec<(u16, u16)> }
z_struct!(NetHdr { from a: u8, epoch b: u32, kind c: NetKind, items d: Vec<(u16, u16)> });
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum NetKind { Request = 1, Reply, Refusal = 0x40 }
z_enum!(NetKind, U8, 0: 1 => Request {}, 1: 2 => Reply {}, 2: 0x40 => Refusal {});
pub fn net_hdr() -> Ty { let mut v = Vec::new(); tys!(Plain, v, NetHdr); v.pop().expect("one") }

// ---- of tracked elements --------------------------------------------------------------------

use crate::tok::{ATok, Tok, Ztok};
#[derive(Encode, Decode, SizedEncode)] pub struct DTok { a: Tok, b: Option<Tok>, c: [Tok; 2], d: u8, e: Box<Tok> }
z_struct!(DTok { a a: Tok, b b: Option<Tok>, c c: [Tok; 2], d d: u8, e e: Box<Tok> });
#[derive(Encode, Decode)] pub struct DTup2(Vec<Tok>, Tok, SizedSlice<Tok, 3>);
z_struct!(DTup2 { 0 a: Vec<Tok>, 1 b: Tok, 2 c: SizedSlice<Tok, 3> });
#[derive(Encode, Decode)] #[repr(u8)] pub enum ETok { None = 3, One(Tok), Two { x: Tok, y: Vec<Tok> } = 9, Deep(Box<DTok>, Tok) }
z_enum!(ETok, U8, 0: 3 => None {}, 1: 4 => One { 0 a: Tok }, 2: 9 => Two { x a: Tok, y b: Vec<Tok> }, 3: 10 => Deep { 0 a: Box<DTok>, 1 b: Tok });
impl Zoo for Cow<'static, Tok> { fn schema() -> S { Tok::schema() } fn from_tree(t: &Tree) -> Self { Cow::Owned(Zoo::from_tree(t)) } fn to_tree(&self) -> Tree { (**self).to_tree() } }

pub fn toks() -> Vec<Ty> {
    use std::cell::RefCell;
    use std::num::{Saturating, Wrapping};
    use std::ops::*;
    use std::sync::{Arc, RwLock};
    let mut v = Vec::new();
    tys!(FullBounded, v, Tok, SizedSlice<Tok, 3>, [Tok; 4]);
    tys!(FullPlain, v, Vec<Tok>);
    tys!(Plain, v, ATok, Vec<ATok>, Vec<Ztok>, LinkedList<Tok>, LinkedList<ATok>, [Tok; 0], [Tok; 1], [ATok; 3], [Ztok; 5], [[Tok; 2]; 3], [Tok; 9]);
    tys!(Plain, v, SizedSlice<Tok, 0>, SizedSlice<Tok, 8>, SizedSlice<ATok, 4>, SizedSlice<Ztok, 6>, SizedSlice<SizedSlice<Tok, 2>, 3>, SizedSlice<Vec<Tok>, 3>, SizedSlice<Box<Tok>, 4>, SizedSlice<[Tok; 2], 3>);
    tys!(Plain, v, Option<Tok>, Option<Option<Tok>>, Result<Tok, Tok>, Result<Vec<Tok>, Vec<Tok>>, Bound<Tok>, Bound<[Tok; 2]>, (Tok,), (Tok, Tok), (Tok, Tok, Tok), (Vec<Tok>, Vec<Tok>), ([Tok; 2], [Tok; 2], [Tok; 2]));
    tys!(Plain, v, (Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok), (Tok, ATok, Tok, ATok, Tok));
    tys!(Plain, v, Box<Tok>, Rc<Tok>, Arc<Tok>, Mutex<Tok>, RwLock<Tok>, RefCell<Tok>, Box<[Tok; 3]>, Rc<Vec<Tok>>, Arc<SizedSlice<Tok, 2>>, Mutex<Vec<Tok>>, RwLock<ATok>, RefCell<[Tok; 2]>, Wrapping<Tok>, Saturating<Tok>, Cow<'static, Tok>);
    tys!(Plain, v, Range<Tok>, RangeInclusive<Tok>, RangeFrom<Tok>, RangeTo<Tok>, RangeToInclusive<Tok>, Range<Vec<Tok>>);
    tys!(Plain, v, Map<Tok, Tok>, Set<Tok>, Map<Vec<Tok>, Vec<Tok>>, Set<ATok>, Set<Ztok>, Vec<Set<Tok>>, Map<Ztok, Ztok>);
    tys!(Plain, v, Vec<Vec<Tok>>, [Vec<Tok>; 2], Vec<SizedSlice<Tok, 2>>, Vec<[Tok; 2]>, Vec<Option<Tok>>, [Rc<Tok>; 3], Vec<(Tok, Tok)>, Vec<Result<Tok, Tok>>, LinkedList<Vec<Tok>>, Vec<LinkedList<Tok>>, Option<Box<Tok>>, [Option<Tok>; 3], Vec<Box<Tok>>);
    tys!(Plain, v, DTok, DTup2, ETok, Vec<ETok>, [DTok; 2], SizedSlice<ETok, 2>, Option<DTup2>);
    for (i, t) in v.iter_mut().enumerate() { t.id = i }
    v
}
