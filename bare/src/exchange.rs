//! One run: values of types that a program without the standard library has are sent through a
//! channel that damages some of them, and received. Only `core` is used, so that the same text runs
//! in a freestanding program and beside the simulator. Returns digests of the event logs: of the types
//! every build has, of those that need the heap, and of those that are derived.
use core::fmt::{Debug, Display, Write};
use core::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4};
use core::num::{NonZero, Saturating, Wrapping};
use core::ops::{Bound, Range, RangeInclusive};
use core::time::Duration;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr};

fn mix(a: u64, b: u64) -> u64 { let mut z = (a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(0x9E37_79B9_7F4A_7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
struct Dig(u64);
impl Dig { fn b(&mut self, x: &[u8]) { for b in x { self.0 = (self.0 ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3) } self.0 = mix(self.0, x.len() as u64) } }
impl Write for Dig { fn write_str(&mut self, s: &str) -> core::fmt::Result { self.b(s.as_bytes()); Ok(()) } }
struct Src(u64, u64);
impl Src {
    fn next(&mut self) -> u64 { self.1 += 1; mix(self.0, self.1) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 16) % n }
    /// Mostly small, at times extreme.
    fn num(&mut self) -> u128 { match self.below(4) { 0 => self.below(4) as u128, 1 => u128::MAX >> self.below(128), 2 => self.next() as u128, _ => (self.next() as u128) << 64 | self.next() as u128 } }
    fn ch(&mut self) -> char { ['a', '\0', 'é', '€', '\u{FFFF}', '😀', '\u{10FFFF}', '\u{D7FF}', '\u{E000}'][self.below(9) as usize] }
}
trait Make: Sized { fn make(s: &mut Src) -> Self; }
macro_rules! ints { ($($t:ty)*) => { $(impl Make for $t { fn make(s: &mut Src) -> Self { s.num() as $t } })* } }
ints! { u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 }
impl Make for usize { fn make(s: &mut Src) -> Self { if s.below(12) == 0 { s.num() as usize } else { s.num() as u16 as usize } } }
impl Make for isize { fn make(s: &mut Src) -> Self { if s.below(12) == 0 { s.num() as isize } else { s.num() as i16 as isize } } }
impl Make for bool { fn make(s: &mut Src) -> Self { s.below(2) == 0 } }
impl Make for char { fn make(s: &mut Src) -> Self { s.ch() } }
impl Make for f64 { fn make(s: &mut Src) -> Self { f64::from_bits(s.num() as u64) } }
impl Make for () { fn make(_: &mut Src) -> Self {} }
impl<T: Make> Make for Option<T> { fn make(s: &mut Src) -> Self { if s.below(3) == 0 { None } else { Some(T::make(s)) } } }
impl<T: Make, E: Make> Make for Result<T, E> { fn make(s: &mut Src) -> Self { if s.below(2) == 0 { Ok(T::make(s)) } else { Err(E::make(s)) } } }
impl<T: Make, const N: usize> Make for [T; N] { fn make(s: &mut Src) -> Self { core::array::from_fn(|_| T::make(s)) } }
impl<A: Make, B: Make> Make for (A, B) { fn make(s: &mut Src) -> Self { (A::make(s), B::make(s)) } }
impl<A: Make, B: Make, C: Make> Make for (A, B, C) { fn make(s: &mut Src) -> Self { (A::make(s), B::make(s), C::make(s)) } }
impl<T: Make, const N: usize> Make for SizedSlice<T, N> { fn make(s: &mut Src) -> Self { let n = s.below(N as u64 + 1); (0..n).map(|_| T::make(s)).collect() } }
impl<const N: usize> Make for SizedStr<N> { fn make(s: &mut Src) -> Self { let n = s.below(N as u64 + 1); let mut cs = [char::default(); 16]; let mut used = 0; let mut k = 0; for _ in 0..n.min(16) { let c = s.ch(); if used + c.len_utf8() > N { break } used += c.len_utf8(); cs[k] = c; k += 1 } cs[..k].iter().copied().collect() } }
impl Make for Duration { fn make(s: &mut Src) -> Self { Duration::new(s.num() as u64, s.below(1_000_000_000) as u32) } }
impl Make for Ipv4Addr { fn make(s: &mut Src) -> Self { (s.num() as u32).into() } }
impl Make for Ipv6Addr { fn make(s: &mut Src) -> Self { s.num().into() } }
impl Make for IpAddr { fn make(s: &mut Src) -> Self { if s.below(2) == 0 { Ipv4Addr::make(s).into() } else { Ipv6Addr::make(s).into() } } }
impl Make for SocketAddrV4 { fn make(s: &mut Src) -> Self { SocketAddrV4::new(Make::make(s), Make::make(s)) } }
impl Make for SocketAddr { fn make(s: &mut Src) -> Self { SocketAddr::new(Make::make(s), Make::make(s)) } }
impl Make for NonZero<u16> { fn make(s: &mut Src) -> Self { NonZero::new(s.num() as u16 | 1).expect("odd") } }
impl<T: Make> Make for Wrapping<T> { fn make(s: &mut Src) -> Self { Wrapping(T::make(s)) } }
impl<T: Make> Make for Saturating<T> { fn make(s: &mut Src) -> Self { Saturating(T::make(s)) } }
impl<T: Make> Make for Bound<T> { fn make(s: &mut Src) -> Self { match s.below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(T::make(s)), _ => Bound::Excluded(T::make(s)) } } }
impl<T: Make> Make for Range<T> { fn make(s: &mut Src) -> Self { T::make(s)..T::make(s) } }
impl<T: Make> Make for RangeInclusive<T> { fn make(s: &mut Src) -> Self { T::make(s)..=T::make(s) } }

fn told(d: &mut Dig, e: &(impl Debug + Display)) { let _ = write!(d, "{e} / {e:?}"); }
const ROOM: usize = 600;
/// A message from one node to another.
fn send<T: Make + Encode<Error: Debug + Display> + Decode<Error: Debug + Display> + Debug>(s: &mut Src, d: &mut Dig, max: Option<usize>) {
    let x = T::make(s);
    let _ = write!(d, "{x:?} {max:?}");
    let mut buf = [0x5C; ROOM];
    let mut o = Output::new(&mut buf);
    let n = match x.encode(&mut o) { Ok(()) => o.position(), Err(e) => { told(d, &e); return } };
    d.b(o.as_slice());
    if let Some(m) = max { assert!(n <= m) }
    let mut whole = true;
    match s.below(6) {
        0 if n > 0 => { let at = s.below(n as u64) as usize; buf[at] ^= 1 << s.below(8); whole = false }
        1 if n > 0 => { let at = s.below(n as u64) as usize; buf[at] = *[0, 1, 0xFF, 0x80].get(s.below(4) as usize).unwrap_or(&0); whole = false }
        2 => { for b in &mut buf[..n] { *b = 0xFF } whole = false }
        _ => {}
    }
    // What is cut short stops the receiver for good; behind a damaged message there is some more to read.
    if !whole { for b in &mut buf[n..] { *b = 0 } }
    let mut i = Input::new(&buf[..if whole { n } else { ROOM }]);
    match T::decode(&mut i) { Ok(y) => { let _ = write!(d, "{y:?} {}", i.position()); if whole { assert!(i.remaining() == 0) } } Err(e) => { assert!(!whole); told(d, &e) } }
}

macro_rules! pick { ($s:expr, $d:expr; $($t:ty),* ; $($u:ty),*) => {{
    let table: &[fn(&mut Src, &mut Dig)] = &[$(|s, d| send::<$t>(s, d, Some(<$t as SizedEncode>::MAX_ENCODED_SIZE)),)* $(|s, d| send::<$u>(s, d, None),)*];
    let k = $s.below(table.len() as u64) as usize;
    table[k]($s, $d)
}} }

#[cfg(feature = "alloc")]
mod heap {
    extern crate alloc;
    pub use alloc::{boxed::Box, rc::Rc, string::String, sync::Arc, vec::Vec};
    use super::{Make, Src};
    impl<T: Make> Make for Vec<T> { fn make(s: &mut Src) -> Self { (0..s.below(5)).map(|_| T::make(s)).collect() } }
    impl Make for String { fn make(s: &mut Src) -> Self { (0..s.below(7)).map(|_| s.ch()).collect() } }
    impl<T: Make> Make for Box<T> { fn make(s: &mut Src) -> Self { Box::new(T::make(s)) } }
    impl<T: Make> Make for Rc<T> { fn make(s: &mut Src) -> Self { Rc::new(T::make(s)) } }
    impl<T: Make> Make for Arc<T> { fn make(s: &mut Src) -> Self { Arc::new(T::make(s)) } }
}
#[cfg(feature = "proc-macro")]
mod derived {
    use super::*;
    #[derive(Debug, Encode, Decode, SizedEncode)] pub struct Pair(pub u8, pub SizedStr<5>);
    #[derive(Debug, Encode, Decode, SizedEncode)] pub struct Flag { pub at: Option<u16>, pub on: bool }
    #[derive(Debug, Encode, Decode, SizedEncode)] #[repr(u16)] pub enum Kind { Unit = 3, Tup(usize, u8) = 300, Named { xs: SizedSlice<u16, 3>, d: Duration } }
    impl Make for Pair { fn make(s: &mut Src) -> Self { Pair(Make::make(s), Make::make(s)) } }
    impl Make for Flag { fn make(s: &mut Src) -> Self { Flag { at: Make::make(s), on: Make::make(s) } } }
    impl Make for Kind { fn make(s: &mut Src) -> Self { match s.below(3) { 0 => Kind::Unit, 1 => Kind::Tup(Make::make(s), Make::make(s)), _ => Kind::Named { xs: Make::make(s), d: Make::make(s) } } } }
}

/// What each part of the table needs.
pub const PARTS: [&str; 3] = ["core", "alloc", "derive"];
pub fn has(part: usize) -> bool { part == 0 || part == 1 && cfg!(feature = "alloc") || part == 2 && cfg!(feature = "proc-macro") }
pub fn exchange(seed: u64, run: u64, part: usize) -> u64 {
    let mut s = Src(mix(mix(seed, run), part as u64), 0);
    let mut d = Dig(run);
    for _ in 0..1 + s.below(5) {
        match part {
            0 => pick!(&mut s, &mut d; u8, i16, u32, i64, u128, i128, usize, isize, bool, char, f64, (), Option<char>, Option<usize>, Result<u16, bool>, Result<usize, usize>, [u16; 3], [char; 2], (u8, i32),
                (i8, u64, u16), SizedSlice<u8, 7>, SizedSlice<char, 3>, SizedSlice<SizedStr<2>, 2>, SizedStr<0>, SizedStr<9>, Duration, Option<Duration>, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddr,
                NonZero<u16>, Wrapping<i32>, Saturating<u64>, Bound<u8>, Bound<usize>, Range<u16>, RangeInclusive<i8>;),
            #[cfg(feature = "alloc")]
            1 => { use heap::*; pick!(&mut s, &mut d; Box<u16>, Rc<usize>, Arc<SizedStr<4>>; Vec<u8>, Vec<Option<char>>, Vec<String>, String, Box<Vec<u16>>, Option<String>, Vec<usize>) }
            #[cfg(feature = "proc-macro")]
            2 => { use derived::*; pick!(&mut s, &mut d; Pair, Kind, Flag, Option<Kind>, [Kind; 2], Option<Pair>, SizedSlice<Kind, 3>;) }
            _ => {}
        }
    }
    d.0
}
