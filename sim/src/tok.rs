//! Elements that know whether they are alive: a ledger of every element ever made, with faults
//! (panics) injected into the code of the elements themselves.
use crate::ctx::inject_panic;
use crate::tree::*;
use crate::zoo::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::NonZeroDecodeError;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Formatter};
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy)]
struct Ent { heap: *mut u64, alive: bool, forgiven: bool }
pub struct Ledger { ents: Vec<Ent>, live: i64, zlive: i64, zmade: u64, bad: Option<&'static str>, calls: u64, panic_at: u64, forgiven: i64 }
const ENTS: usize = 1 << 17;
thread_local! { static LEDGER: RefCell<Ledger> = RefCell::new(Ledger { ents: Vec::with_capacity(ENTS), live: 0, zlive: 0, zmade: 0, bad: None, calls: 0, panic_at: 0, forgiven: 0 }) }
fn led<T>(f: impl FnOnce(&mut Ledger) -> T) -> T { LEDGER.with(|l| f(&mut l.borrow_mut())) }

/// Starts over with nobody alive.
pub fn reset() { led(|l| { for e in &l.ents { if e.alive && !e.heap.is_null() { /* leaked by an earlier, failed run */ } } l.ents.clear(); l.live = 0; l.zlive = 0; l.zmade = 0; l.bad = None; l.calls = 0; l.panic_at = 0; l.forgiven = 0 }) }
/// Elements alive, of either kind.
pub fn live() -> i64 { led(|l| l.live + l.zlive) }
pub fn zlive() -> i64 { led(|l| l.zlive) }
/// The first misuse of an element since the last call.
pub fn take_bad() -> Option<&'static str> { led(|l| l.bad.take()) }
pub fn has_bad() -> bool { led(|l| l.bad.is_some()) }
fn bad(l: &mut Ledger, why: &'static str) { if l.bad.is_none() { l.bad = Some(why) } }
/// The `n`-th call of element code from now panics (1 = the next); 0 turns that off.
pub fn panic_in(n: u64) { led(|l| { l.calls = 0; l.panic_at = n }) }
pub fn calls() -> u64 { led(|l| l.calls) }
/// A mark for `forgive`.
pub fn mark() -> (usize, i64) { led(|l| (l.ents.len(), l.zlive)) }
/// Accepts that elements made since `m` and still alive are never dropped; says how many.
pub fn forgive(m: (usize, i64), z: bool) -> i64 {
    led(|l| {
        let mut n = 0;
        for e in &mut l.ents[m.0..] { if e.alive && !e.forgiven { e.forgiven = true; n += 1 } }
        l.live -= n;
        if z { let d = l.zlive - m.1; l.zlive -= d; n += d }
        l.forgiven += n;
        n
    })
}
pub fn room() -> bool { led(|l| l.ents.len() < ENTS - 4096) }
/// Code of an element runs.
pub fn tick() {
    let hit = led(|l| { l.calls += 1; if l.panic_at != 0 && l.calls == l.panic_at { l.panic_at = 0; Some(l.calls) } else { None } });
    if let Some(n) = hit { inject_panic(n) }
}

const ALIVE: u32 = 0x70CE_11FE;
const DEAD: u32 = 0x0DEA_DBAD;
/// An element with heap memory of its own.
pub struct Tok { magic: u32, id: u32, v: u8, heap: *mut u64 }
impl Tok {
    pub fn new(v: u8) -> Tok {
        led(|l| {
            let id = l.ents.len();
            let heap = Box::into_raw(Box::new(id as u64 ^ 0x5EED));
            if id < ENTS { l.ents.push(Ent { heap, alive: true, forgiven: false }) } else { panic!("too many elements in one run") }
            l.live += 1;
            Tok { magic: ALIVE, id: id as u32, v, heap }
        })
    }
    /// Whether this really is an element that is alive; records it if not.
    fn sound(&self) -> bool {
        led(|l| {
            if self.magic == DEAD { bad(l, "an element was used after it was dropped"); return false }
            if self.magic != ALIVE { bad(l, "memory that holds no element was used as one"); return false }
            match l.ents.get(self.id as usize) {
                Some(e) if e.heap == self.heap => if !e.alive { bad(l, "an element was used after it was dropped"); return false },
                _ => { bad(l, "memory that holds no element was used as one"); return false }
            }
            if unsafe { *self.heap } != self.id as u64 ^ 0x5EED { bad(l, "an element's own memory was overwritten"); return false }
            true
        })
    }
    pub fn get(&self) -> u8 { if self.sound() { self.v } else { 0xEE } }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let ok = led(|l| {
            if self.magic != ALIVE && self.magic != DEAD { bad(l, "memory that holds no element was dropped as one"); return false }
            match l.ents.get_mut(self.id as usize) {
                Some(e) if e.heap == self.heap && self.magic == ALIVE => if e.alive { e.alive = false; if !e.forgiven { l.live -= 1 } true } else { bad(l, "an element was dropped twice"); false },
                _ => { bad(l, if self.magic == DEAD { "an element was dropped twice" } else { "memory that holds no element was dropped as one" }); false }
            }
        });
        if ok { unsafe { drop(Box::from_raw(self.heap)) } self.magic = DEAD }
    }
}
impl Clone for Tok { fn clone(&self) -> Tok { tick(); let v = self.get(); Tok::new(v) } }
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { tick(); self.get() == o.get() } }
impl Eq for Tok {}
impl PartialOrd for Tok { fn partial_cmp(&self, o: &Tok) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Tok { fn cmp(&self, o: &Tok) -> Ordering { tick(); self.get().cmp(&o.get()) } }
impl Hash for Tok { fn hash<H: Hasher>(&self, h: &mut H) { tick(); self.get().hash(h) } }
impl Debug for Tok { fn fmt(&self, f: &mut Formatter) -> fmt::Result { tick(); Debug::fmt(&self.get(), f) } }
impl Encode for Tok { type Error = std::convert::Infallible; fn encode(&self, o: &mut Output) -> Result<(), Self::Error> { tick(); self.get().encode(o) } }
impl Decode for Tok {
    type Error = NonZeroDecodeError;
    fn decode(i: &mut Input) -> Result<Tok, NonZeroDecodeError> { tick(); let Ok(v) = u8::decode(i); if v == 0 { return Err(NonZeroDecodeError) } Ok(Tok::new(v)) }
}
impl SizedEncode for Tok { const MAX_ENCODED_SIZE: usize = 1; }
impl Zoo for Tok { fn schema() -> S { S::Nz(rc(U8)) } fn from_tree(t: &Tree) -> Tok { Tok::new(t.n() as u8) } fn to_tree(&self) -> Tree { N(self.get() as u128) } }

/// The same with a large alignment.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(64))]
pub struct ATok(pub Tok);
impl Debug for ATok { fn fmt(&self, f: &mut Formatter) -> fmt::Result { Debug::fmt(&self.0, f) } }
impl Encode for ATok { type Error = std::convert::Infallible; fn encode(&self, o: &mut Output) -> Result<(), Self::Error> { self.0.encode(o) } }
impl Decode for ATok { type Error = NonZeroDecodeError; fn decode(i: &mut Input) -> Result<ATok, NonZeroDecodeError> { Ok(ATok(Tok::decode(i)?)) } }
impl SizedEncode for ATok { const MAX_ENCODED_SIZE: usize = 1; }
impl Zoo for ATok { fn schema() -> S { Tok::schema() } fn from_tree(t: &Tree) -> ATok { ATok(Tok::from_tree(t)) } fn to_tree(&self) -> Tree { self.0.to_tree() } }

/// An element without size; only their number can be told.
pub struct Ztok(());
impl Ztok { pub fn new() -> Ztok { led(|l| { l.zlive += 1; l.zmade += 1 }); Ztok(()) } }
impl Drop for Ztok { fn drop(&mut self) { led(|l| { l.zlive -= 1; if l.zlive < 0 { l.zlive = 0; bad(l, "more elements without size were dropped than were made") } }) } }
impl Clone for Ztok { fn clone(&self) -> Ztok { tick(); Ztok::new() } }
impl PartialEq for Ztok { fn eq(&self, _: &Ztok) -> bool { tick(); true } }
impl Eq for Ztok {}
impl PartialOrd for Ztok { fn partial_cmp(&self, o: &Ztok) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Ztok { fn cmp(&self, _: &Ztok) -> Ordering { tick(); Ordering::Equal } }
impl Hash for Ztok { fn hash<H: Hasher>(&self, _: &mut H) { tick() } }
impl Debug for Ztok { fn fmt(&self, f: &mut Formatter) -> fmt::Result { tick(); f.write_str("z") } }
impl Encode for Ztok { type Error = std::convert::Infallible; fn encode(&self, _: &mut Output) -> Result<(), Self::Error> { tick(); Ok(()) } }
impl Decode for Ztok { type Error = std::convert::Infallible; fn decode(_: &mut Input) -> Result<Ztok, Self::Error> { tick(); Ok(Ztok::new()) } }
impl SizedEncode for Ztok { const MAX_ENCODED_SIZE: usize = 0; }
impl Zoo for Ztok { fn schema() -> S { S::Unit } fn from_tree(_: &Tree) -> Ztok { Ztok::new() } fn to_tree(&self) -> Tree { L(vec![]) } }

/// What the collections under test hold.
pub trait Elem: Clone + Ord + Hash + Debug + 'static {
    const NAME: &'static str;
    const TRACKED: bool;
    /// The value an element made for `v` really has.
    fn norm(v: u8) -> u8 { v }
    fn mk(v: u8) -> Self;
    fn val(&self) -> u8;
    fn set(&mut self, v: u8);
    /// `copy_from_slice`, where the element allows it.
    fn copy<const K: usize>(_s: &mut oct::SizedSlice<Self, K>, _d: &[Self]) -> bool { false }
}
impl Elem for Tok { const NAME: &'static str = "token"; const TRACKED: bool = true; fn mk(v: u8) -> Self { Tok::new(v) } fn val(&self) -> u8 { self.get() } fn set(&mut self, v: u8) { if self.sound() { self.v = v } } }
impl Elem for ATok { const NAME: &'static str = "aligned token"; const TRACKED: bool = true; fn mk(v: u8) -> Self { ATok(Tok::new(v)) } fn val(&self) -> u8 { if self as *const ATok as usize % 64 != 0 { led(|l| bad(l, "an element is misaligned")) } self.0.get() } fn set(&mut self, v: u8) { self.0.set(v) } }
impl Elem for Ztok { const NAME: &'static str = "sizeless token"; const TRACKED: bool = true; fn norm(_: u8) -> u8 { 0 } fn mk(_: u8) -> Self { Ztok::new() } fn val(&self) -> u8 { 0 } fn set(&mut self, _: u8) {} }
impl Elem for u16 {
    const NAME: &'static str = "u16"; const TRACKED: bool = false;
    fn mk(v: u8) -> Self { v as u16 * 257 } fn val(&self) -> u8 { if self >> 8 != self & 255 { 0xEE } else { *self as u8 } } fn set(&mut self, v: u8) { *self = v as u16 * 257 }
    fn copy<const K: usize>(s: &mut oct::SizedSlice<Self, K>, d: &[Self]) -> bool { s.copy_from_slice(d); true }
}
