//! Values that cannot be encoded: refused, with the rest intact, and encoded once they can be.
use crate::choice::Src;
use crate::ctx::*;
use crate::ensure;
use crate::slotsim::explained;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
#[allow(unused_imports)] use crate::zoo::Mute as _;
use oct::encode::{Encode, Output};
use oct::error::{GenericEncodeError, RefCellEncodeError};
use oct::{SizedSlice, SizedStr};
use std::cell::{Ref, RefCell, RefMut};
use std::collections::{HashMap, LinkedList};
use std::convert::Infallible;
use std::ops::{Bound, Range};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

// ---- cells somebody holds -------------------------------------------------------------------

pub trait Guard {}
impl<T: ?Sized> Guard for Ref<'_, T> {}
impl<T: ?Sized> Guard for RefMut<'_, T> {}
pub trait Hold {
    fn exclusively(&self) -> Option<Box<dyn Guard + '_>>;
    fn shared(&self) -> Option<Box<dyn Guard + '_>>;
}
impl<T> Hold for RefCell<T> {
    fn exclusively(&self) -> Option<Box<dyn Guard + '_>> { self.try_borrow_mut().ok().map(|g| Box::new(g) as _) }
    fn shared(&self) -> Option<Box<dyn Guard + '_>> { self.try_borrow().ok().map(|g| Box::new(g) as _) }
}
/// A value whose cells are known in the order encoding meets them.
pub trait Celled: Encode<Error: ErrOf> {
    fn schema() -> S where Self: Sized;
    fn make(src: &mut Src) -> Self where Self: Sized;
    fn tree(&self) -> Tree;
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>);
}
macro_rules! leaf { ($($t:ty),*) => { $(impl Celled for $t {
    fn schema() -> S { <$t as Zoo>::schema() }
    fn make(src: &mut Src) -> Self { let g = Gen { unenc: if src.chance(1, 8) { 500 } else { 0 }, edge: 200, long: false }; <$t>::from_tree(&gen(src, &<$t as Zoo>::schema(), &g, 8)) }
    fn tree(&self) -> Tree { self.to_tree() }
    fn cells<'t>(&'t self, _: &mut Vec<&'t dyn Hold>) {}
})* } }
leaf!(u8, u16, usize, isize, Vec<usize>, String, char, ());
impl<T: Celled> Celled for RefCell<T> {
    fn schema() -> S { S::RefC(rc(T::schema())) }
    fn make(src: &mut Src) -> Self { RefCell::new(T::make(src)) }
    fn tree(&self) -> Tree { self.borrow().tree() }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { v.push(self); unsafe { &*self.as_ptr() }.cells(v) }
}
fn some<T: Celled>(src: &mut Src, most: usize) -> Vec<T> { (0..src.range(0, most)).map(|_| T::make(src)).collect() }
macro_rules! seqlike { ($([$($g:tt)*] $t:ty, $cap:expr, |$src:ident| $mk:expr;)*) => { $(impl<T: Celled, $($g)*> Celled for $t where $t: Encode<Error: ErrOf> {
    fn schema() -> S { S::Seq(rc(T::schema()), $cap) }
    fn make($src: &mut Src) -> Self { $mk }
    fn tree(&self) -> Tree { L(self.iter().map(|x| x.tree()).collect()) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { for x in self.iter() { x.cells(v) } }
})* } }
seqlike! {
    [] Vec<Wr<T>>, None, |src| some::<T>(src, 5).into_iter().map(Wr).collect();
    [] Box<[T]>, None, |src| some::<T>(src, 5).into();
    [] Rc<[T]>, None, |src| some::<T>(src, 5).into();
    [] LinkedList<T>, None, |src| some::<T>(src, 5).into_iter().collect();
    [const K: usize] SizedSlice<T, K>, Some(K), |src| some::<T>(src, K).into_iter().collect();
}
/// Only tells vectors of cells from vectors of numbers above.
pub struct Wr<T>(pub T);
impl<T: Celled> Encode for Wr<T> { type Error = T::Error; fn encode(&self, o: &mut Output) -> Result<(), T::Error> { self.0.encode(o) } }
impl<T: Celled> Wr<T> { fn tree(&self) -> Tree { self.0.tree() } fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { self.0.cells(v) } }
impl<T: Celled, const N: usize> Celled for [T; N] {
    fn schema() -> S { S::Arr(rc(T::schema()), N) }
    fn make(src: &mut Src) -> Self { std::array::from_fn(|_| T::make(src)) }
    fn tree(&self) -> Tree { L(self.iter().map(T::tree).collect()) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { for x in self { x.cells(v) } }
}
macro_rules! transparent { ($($t:ident)*) => { $(impl<T: Celled> Celled for $t<T> {
    fn schema() -> S { T::schema() }
    fn make(src: &mut Src) -> Self { $t::new(T::make(src)) }
    fn tree(&self) -> Tree { (**self).tree() }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { (**self).cells(v) }
})* } }
transparent!(Box Rc Arc);
impl<T: Celled> Celled for Mutex<T> {
    fn schema() -> S { T::schema() }
    fn make(src: &mut Src) -> Self { Mutex::new(T::make(src)) }
    fn tree(&self) -> Tree { self.lock().unwrap().tree() }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { let p: *const T = &*self.lock().unwrap(); unsafe { &*p }.cells(v) }
}
impl<T: Celled> Celled for Option<T> {
    fn schema() -> S { S::Opt(rc(T::schema())) }
    fn make(src: &mut Src) -> Self { if src.chance(3, 4) { Some(T::make(src)) } else { None } }
    fn tree(&self) -> Tree { match self { None => V(0, vec![]), Some(x) => V(1, vec![x.tree()]) } }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { if let Some(x) = self { x.cells(v) } }
}
impl<T: Celled> Celled for Bound<T> {
    fn schema() -> S { S::Bnd(rc(T::schema())) }
    fn make(src: &mut Src) -> Self { match src.below(3) { 0 => Bound::Included(T::make(src)), 1 => Bound::Excluded(T::make(src)), _ => Bound::Unbounded } }
    fn tree(&self) -> Tree { match self { Bound::Included(x) => V(0, vec![x.tree()]), Bound::Excluded(x) => V(1, vec![x.tree()]), Bound::Unbounded => V(2, vec![]) } }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { if let Bound::Included(x) | Bound::Excluded(x) = self { x.cells(v) } }
}
impl<T: Celled + Encode<Error = E>, U: Celled + Encode<Error = E>, E: ErrOf> Celled for Result<T, U> {
    fn schema() -> S { S::Res(rc(T::schema()), rc(U::schema())) }
    fn make(src: &mut Src) -> Self { if src.chance(1, 2) { Ok(T::make(src)) } else { Err(U::make(src)) } }
    fn tree(&self) -> Tree { match self { Ok(x) => V(0, vec![x.tree()]), Err(x) => V(1, vec![x.tree()]) } }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { match self { Ok(x) => x.cells(v), Err(x) => x.cells(v) } }
}
impl<T: Celled> Celled for (T,) {
    fn schema() -> S { S::Prod(vec![T::schema()]) }
    fn make(src: &mut Src) -> Self { (T::make(src),) }
    fn tree(&self) -> Tree { L(vec![self.0.tree()]) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { self.0.cells(v) }
}
impl<T: Celled + Encode<Error = E>, U: Celled + Encode<Error = E>, W: Celled + Encode<Error = E>, E: ErrOf> Celled for (T, U, W) {
    fn schema() -> S { S::Prod(vec![T::schema(), U::schema(), W::schema()]) }
    fn make(src: &mut Src) -> Self { (T::make(src), U::make(src), W::make(src)) }
    fn tree(&self) -> Tree { L(vec![self.0.tree(), self.1.tree(), self.2.tree()]) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { self.0.cells(v); self.1.cells(v); self.2.cells(v) }
}
impl<T: Celled> Celled for Range<T> {
    fn schema() -> S { S::Prod(vec![T::schema(), T::schema()]) }
    fn make(src: &mut Src) -> Self { T::make(src)..T::make(src) }
    fn tree(&self) -> Tree { L(vec![self.start.tree(), self.end.tree()]) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { self.start.cells(v); self.end.cells(v) }
}
/// A key with the error type of its cell.
#[derive(PartialEq, Eq, Hash)] pub struct Key(u8);
impl Encode for Key { type Error = RefCellEncodeError<Infallible>; fn encode(&self, o: &mut Output) -> Result<(), Self::Error> { let Ok(()) = self.0.encode(o); Ok(()) } }
impl Celled for HashMap<Key, RefCell<u16>, SimHash> {
    fn schema() -> S { S::Map(rc(U8), rc(S::RefC(rc(U16)))) }
    fn make(src: &mut Src) -> Self { let mut m = HashMap::default(); for _ in 0..src.below(6) { m.insert(Key(src.draw(256) as u8), RefCell::make(src)); } m }
    fn tree(&self) -> Tree { L(self.iter().map(|(k, v)| L(vec![N(k.0 as u128), v.tree()])).collect()) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { for x in self.values() { x.cells(v) } }
}
/// A cell as a field of a derived type, and a derived type with several.
pub struct Field<T>(RefCell<T>);
impl<T: Encode<Error: Into<GenericEncodeError>>> Encode for Field<T> {
    type Error = GenericEncodeError;
    fn encode(&self, o: &mut Output) -> Result<(), GenericEncodeError> { self.0.encode(o).map_err(|e| match e { RefCellEncodeError::BadBorrow(b) => GenericEncodeError::BadBorrow(b), RefCellEncodeError::BadValue(e) => e.into() }) }
}
impl<T: Celled + Encode<Error: Into<GenericEncodeError>>> Celled for Field<T> {
    // A structure of one field carries the same error.
    fn schema() -> S { S::Struct(vec![S::RefC(rc(T::schema()))]) }
    fn make(src: &mut Src) -> Self { Field(RefCell::make(src)) }
    fn tree(&self) -> Tree { L(vec![self.0.tree()]) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { self.0.cells(v) }
}
#[derive(Encode)] pub struct DCells { a: u16, b: Field<usize>, c: Vec<Wr<Field<u16>>>, d: Option<Field<Vec<usize>>>, e: isize }
impl Celled for DCells {
    fn schema() -> S { S::Struct(vec![U16, Field::<usize>::schema(), S::Seq(rc(Field::<u16>::schema()), None), S::Opt(rc(Field::<Vec<usize>>::schema())), S::Isz]) }
    fn make(src: &mut Src) -> Self { DCells { a: src.draw(65536) as u16, b: Field::make(src), c: Celled::make(src), d: Celled::make(src), e: isize::make(src) } }
    fn tree(&self) -> Tree { L(vec![N(self.a as u128), self.b.tree(), Celled::tree(&self.c), Celled::tree(&self.d), self.e.to_tree()]) }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { self.b.cells(v); Celled::cells(&self.c, v); Celled::cells(&self.d, v) }
}
#[derive(Encode)] #[repr(u16)] pub enum ECells { None = 3, One(Field<isize>) = 0x1234, Two { x: Field<u8>, y: usize, z: Field<usize> } }
impl Celled for ECells {
    fn schema() -> S { S::Enum(Repr::U16, vec![(3, vec![]), (0x1234, vec![Field::<isize>::schema()]), (0x1235, vec![Field::<u8>::schema(), S::Usz, Field::<usize>::schema()])]) }
    fn make(src: &mut Src) -> Self { match src.below(4) { 0 => ECells::None, 1 => ECells::One(Field::make(src)), _ => ECells::Two { x: Field::make(src), y: usize::make(src), z: Field::make(src) } } }
    fn tree(&self) -> Tree { match self { ECells::None => V(0, vec![]), ECells::One(a) => V(1, vec![a.tree()]), ECells::Two { x, y, z } => V(2, vec![x.tree(), y.to_tree(), z.tree()]) } }
    fn cells<'t>(&'t self, v: &mut Vec<&'t dyn Hold>) { match self { ECells::None => {} ECells::One(a) => a.cells(v), ECells::Two { x, z, .. } => { x.cells(v); z.cells(v) } } }
}
/// User code in the middle of an encoding that takes or gives up a borrow of a later cell.
pub struct Hook;
thread_local! { static HOOK: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) }; static KEPT: RefCell<Vec<Box<dyn Guard>>> = const { RefCell::new(Vec::new()) }; }
impl Encode for Hook { type Error = RefCellEncodeError<Infallible>; fn encode(&self, _: &mut Output) -> Result<(), Self::Error> { if let Some(f) = HOOK.with(|h| h.borrow_mut().take()) { f() } Ok(()) } }
impl Celled for Hook { fn schema() -> S { S::Unit } fn make(_: &mut Src) -> Self { Hook } fn tree(&self) -> Tree { L(vec![]) } fn cells<'t>(&'t self, _: &mut Vec<&'t dyn Hold>) {} }

pub fn c10(cx: &mut Cx, w: &mut World) -> R {
    let big = cx.src.chance(1, 16);
    let n = if big { 400_000 } else { 12_000 };
    let buf = w.gout.take(n, 0x5C);
    let mut o = Output::new(buf);
    let first = cx.src.below(9);
    for _ in 0..first { let b = cx.src.draw(256) as u8; let Ok(()) = b.encode(&mut o); }
    let r = session(cx, w, &mut o, big);
    HOOK.with(|h| *h.borrow_mut() = None);
    KEPT.with(|k| k.borrow_mut().clear());
    r?;
    cx.st.sim_ns += cx.now as u128;
    Ok(())
}
fn session(cx: &mut Cx, w: &mut World, o: &mut Output, big: bool) -> R {
    let pool = w.pool("refusable", |t| refusable(&t.schema));
    for _ in 0..cx.src.range(1, 5) {
        cx.src.open();
        cx.step();
        cx.now += 1000;
        if o.remaining() < if big { 300_000 } else { 4_000 } { break }
        match cx.src.pick(&[6, 8, if big { 4 } else { 0 }]) {
            0 => { let k = *cx.src.of(&pool); sized(cx, w, o, k)? }
            1 => match cx.src.below(30) {
                0 => held::<RefCell<u16>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                1 => held::<RefCell<usize>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                2 => held::<Vec<Wr<RefCell<usize>>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                3 => held::<[RefCell<u16>; 4]>(cx, w, o, &|e| tell_of(e).chain(e))?,
                4 => held::<Box<[RefCell<usize>]>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                5 => held::<Rc<[RefCell<u16>]>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                6 => held::<LinkedList<RefCell<usize>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                7 => held::<SizedSlice<RefCell<u16>, 5>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                8 => held::<Option<RefCell<isize>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                9 => held::<Bound<RefCell<usize>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                10 => held::<Result<RefCell<usize>, RefCell<usize>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                11 => held::<(RefCell<usize>, RefCell<usize>, RefCell<usize>)>(cx, w, o, &|e| tell_of(e).chain(e))?,
                12 => held::<Range<RefCell<u16>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                13 => held::<RefCell<RefCell<usize>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                14 => held::<RefCell<Vec<usize>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                15 => held::<Rc<RefCell<String>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                16 => held::<Mutex<RefCell<u16>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                17 => held::<Box<RefCell<isize>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                18 => held::<HashMap<Key, RefCell<u16>, SimHash>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                19 => held::<DCells>(cx, w, o, &|e| tell_of(e).chain(e))?,
                20 => held::<ECells>(cx, w, o, &|e| tell_of(e).chain(e))?,
                21 => held::<Vec<Wr<DCells>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                22 => held::<[Option<RefCell<usize>>; 3]>(cx, w, o, &|e| tell_of(e).chain(e))?,
                23 => held::<Vec<Wr<(RefCell<u16>,)>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                24 => held::<SizedSlice<SizedSlice<RefCell<usize>, 3>, 3>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                25 => held::<Arc<[RefCell<()>; 2]>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                26 => held::<Vec<Wr<Result<RefCell<u16>, RefCell<u16>>>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                27 => held::<RefCell<Vec<Wr<RefCell<u16>>>>>(cx, w, o, &|e| tell_of(e).chain(e))?,
                28 => held::<[(RefCell<u16>, Hook, RefCell<u16>); 2]>(cx, w, o, &|e| tell_of(e).chain(e))?,
                _ => held::<(RefCell<u16>, Hook, RefCell<u16>)>(cx, w, o, &|e| tell_of(e).chain(e))?,
            },
            _ => large(cx, w, o)?,
        }
        cx.src.close();
    }
    Ok(())
}

/// Judges one attempt to encode into `o`, whose memory is the guarded output buffer.
fn attempt(cx: &mut Cx, w: &World, o: &mut Output, what: &str, want: Result<Enc, (ErrT, Vec<u8>)>, f: &dyn Fn(&mut Output) -> Result<(), ErrT>) -> R<bool> {
    let at = o.position();
    let before = w.gout.last().to_vec();
    let r = guard(|| f(o));
    let pos = o.position();
    let now = &w.gout.last()[..before.len()];
    cx.check();
    ensure!(pos >= at && now[..at] == before[..at], "refuse:earlier", "encoding {what} changed what was encoded earlier");
    match (want, r) {
        (Ok(e), Ok(Ok(()))) => {
            ensure!(now[at..pos] == e.out[..], "refuse:bytes", "{what} encoded as {} rather than {}", hex(&now[at..pos]), hex(&e.out));
            cx.ev_bytes(&e.out);
            Ok(true)
        }
        (Ok(_), r) => viol("refuse:good", format!("{what} can be encoded but ended with {r:?}")),
        (Err((e, _)), Ok(Ok(()))) => viol("refuse:accepted", format!("{what} was encoded as {} although it must be refused with {e:?}", hex(&now[at..pos]))),
        (Err((e, _)), Err(p)) => viol("refuse:panic", format!("{what} must be refused with {e:?} but encoding panicked at {}", p.at)),
        (Err((e, part)), Ok(Err(x))) => {
            ensure!(e == x, "refuse:error", "{what} was refused with {x:?} rather than {e:?}");
            let k = pos - at;
            ensure!(k <= part.len() && now[at..pos] == part[..k], "refuse:partial", "refusing {what} left {} which is not the start of {}", hex(&now[at..pos]), hex(&part));
            ensure!(explained(&before[at..], &now[at..], &part), "refuse:beyond", "refusing {what} wrote more than {}", hex(&part));
            cx.ev(hash_str(&format!("{e:?}")), pos as u64);
            cx.note(hash_str(&format!("{:?}", e.leaf())));
            cx.state(crate::choice::mix(hash_str(what.split(' ').next().unwrap_or("")), hash_str(&format!("{e:?}"))));
            Ok(false)
        }
    }
}

fn sized(cx: &mut Cx, w: &mut World, o: &mut Output, k: usize) -> R {
    let tys = w.tys.clone();
    let ty = &tys[k];
    let rate = *cx.src.of(&[300u64, 80, 600, 0]);
    let mut t = match &ty.schema {
        // A long list with the obstacle deep inside.
        S::Seq(i, c) if refusable(i) && rate == 80 && c.is_none_or(|c| c > 256) => {
            let n = (*cx.src.of(&[257usize, 300, 520, 1000])).min(c.unwrap_or(usize::MAX)).min(1 + 4000 / min_weight(i).max(4));
            let j = match cx.src.below(3) { 0 => n - 1, 1 => 255 + cx.src.below(3), _ => cx.src.below(n) }.min(n - 1);
            let x = gen(&mut cx.src, i, &Gen { unenc: 0, edge: 0, long: false }, 4);
            let mut l = vec![x; n];
            l[j] = gen(&mut cx.src, i, &Gen { unenc: 700, edge: 60, long: false }, 6);
            L(l)
        }
        _ => gen(&mut cx.src, &ty.schema, &Gen { unenc: rate, edge: 60, long: rate == 80 }, 30),
    };
    cx.note(ty.id as u64);
    for turn in 0..2 {
        let (f, u) = if ty.maps { ty.vt.enc_with_order(&t) } else { let v = cx.src.below(ty.vt.views() as usize) as u8; (ty.vt.mk(&t, v), t.clone()) };
        let want = ref_encode(&ty.schema, &u);
        cx.say(|| format!("encode {} {}{}", ty.name, u.brief(), match &want { Ok(_) => String::new(), Err((e, _)) => format!(": to be refused with {e:?}") }));
        if match &want { Ok(e) => e.out.len(), Err((_, p)) => p.len() } > o.remaining() { return Ok(()) }
        if want.is_err() { cx.fault(if turn == 0 { "too_large" } else { "still_too_large" }) }
        let name = format!("{} {}", ty.name, u.brief());
        let bad = want.is_err();
        let room = o.remaining();
        if attempt(cx, w, o, &name, want, &|o| f(o))? { return Ok(()) }
        if bad && t.weight() < 2000 {
            let mut scratch = vec![0; room.min(4096)];
            match guard(|| (ty.told.enc)(&u, &mut Output::new(&mut scratch))) {
                Ok(Some((e, c))) => { cx.check(); if let Some(c) = c { if let Err(m) = conveys(&e, &c) { return viol("refuse:message", format!("{name} was refused with {e:?}, but the error {m}")) } } }
                Ok(None) => return viol("refuse:accepted", format!("{name} was refused, then accepted")),
                Err(p) => if room <= 4096 { return viol("refuse:panic", format!("{name} was refused, but saying so panicked at {}", p.at)) },
            }
        }
        t = mend(&mut cx.src, &ty.schema, &u);
    }
    Ok(())
}

fn held<T: Celled + 'static>(cx: &mut Cx, w: &mut World, o: &mut Output, chain: &dyn Fn(&T::Error) -> Option<Vec<String>>) -> R {
    let v = T::make(&mut cx.src);
    let name = std::any::type_name::<T>();
    let (s, t) = (T::schema(), v.tree());
    cx.note(hash_str(name));
    let mut list = Vec::new();
    v.cells(&mut list);
    // Everything that refers to `v` is dropped before it.
    let cells: Vec<&'static dyn Hold> = list.into_iter().map(|c| unsafe { std::mem::transmute::<&dyn Hold, &'static dyn Hold>(c) }).collect();
    let mut state = vec![0u8; cells.len()];
    let guards: Rc<RefCell<Vec<Option<Box<dyn Guard>>>>> = Rc::new(RefCell::new(cells.iter().map(|_| None).collect()));
    for _ in 0..cx.src.range(1, 3) {
        // Somebody takes or gives up some of the cells.
        for k in 0..cells.len() {
            if !cx.src.chance(2, 5) { continue }
            guards.borrow_mut()[k] = None;
            state[k] = cx.src.pick(&[2, 3, 1]) as u8;
            let g = match state[k] { 1 => { cx.fault("borrowed_mutably"); cells[k].exclusively() } 2 => { cx.fault("borrowed_shared"); cells[k].shared() } _ => None };
            guards.borrow_mut()[k] = g;
            if state[k] > 0 { ensure!(guards.borrow()[k].is_some(), "refuse:stuck", "cell {k} of {name} is still borrowed after an encoding has ended") }
        }
        // User code called on the way may change that for the cells still to come.
        let mut seen = state.clone();
        if name.contains("Hook") && cx.src.chance(2, 3) {
            let k = 1;
            if state[k] == 1 { seen[k] = 0; cx.fault("released_meanwhile"); let g = Rc::downgrade(&guards); HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move || if let Some(g) = g.upgrade() { g.borrow_mut()[k] = None }))) }
            else if state[k] == 0 {
                seen[k] = 1; cx.fault("borrowed_meanwhile");
                let c = cells[k];
                HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move || { let g = c.exclusively(); KEPT.with(|k| k.borrow_mut().extend(g)) })));
            }
        }
        let want = ref_encode_held(&s, &t, seen.iter().map(|b| *b == 1).collect());
        cx.say(|| format!("encode {name} {} with cells {state:?} (then {seen:?}){}", t.brief(), match &want { Ok(_) => String::new(), Err((e, _)) => format!(": to be refused with {e:?}") }));
        let what = format!("{name} {} with cells {state:?}", t.brief());
        let bad = want.is_err();
        let heard = RefCell::new(None);
        let r = attempt(cx, w, o, &what, want, &|o| v.encode(o).map_err(|e| { let c = chain(&e); let e = e.e(); *heard.borrow_mut() = c.map(|c| (e.clone(), c)); e }));
        if bad { if let Some((e, c)) = heard.into_inner() { cx.check(); if let Err(m) = conveys(&e, &c) { return viol("refuse:message", format!("{what} was refused with {e:?}, but the error {m}")) } } }
        HOOK.with(|h| *h.borrow_mut() = None);
        KEPT.with(|k| k.borrow_mut().clear());
        r?;
        // A hook that was never reached leaves the guards as they were; otherwise they match `seen`.
        for k in 0..state.len() { if guards.borrow()[k].is_none() { state[k] = 0 } }
    }
    // The obstacle is gone.
    guards.borrow_mut().clear();
    for (k, c) in cells.iter().enumerate() { ensure!(c.exclusively().is_some(), "refuse:stuck", "cell {k} of {name} is still borrowed after everything has ended") }
    let want = ref_encode(&s, &t);
    let what = format!("{name} {} with nothing borrowed", t.brief());
    attempt(cx, w, o, &what, want, &|o| v.encode(o).map_err(ErrOf::e))?;
    Ok(())
}

/// Collections at and beyond the limit of a length.
fn large(cx: &mut Cx, w: &mut World, o: &mut Output) -> R {
    let n = *cx.src.of(&[65536usize, 65535, 65537, 70000, 65534, 66000]);
    let kind = cx.src.below(10);
    cx.note(kind as u64 * 100_000 + n as u64);
    let len = |n: usize| -> Result<(), (ErrT, Vec<u8>)> { if n > 65535 { Err((ErrT::BadLen(Box::new(ErrT::Usize(n))), vec![])) } else { Ok(()) } };
    let seq = |n: usize, item: &[u8]| -> Result<Enc, (ErrT, Vec<u8>)> { len(n)?; let mut out = (n as u16).to_le_bytes().to_vec(); for _ in 0..n { out.extend_from_slice(item) } Ok(Enc { out, ..Enc::default() }) };
    let raw = |out: Vec<u8>| -> Result<Enc, (ErrT, Vec<u8>)> { Ok(Enc { out, ..Enc::default() }) };
    if n > 65535 { cx.fault("too_many") } else { cx.probe("just_fits") }
    let what = format!("large {kind} of {n}");
    cx.say(|| what.clone());
    macro_rules! go { ($v:expr, $want:expr) => {{ let v = $v; attempt(cx, w, o, &what, $want, &|o| v.encode(o).map_err(ErrOf::e))?; }} }
    match kind {
        0 => { let v: SizedSlice<(), 70000> = std::iter::repeat_n((), n).collect(); go!(v, seq(n, &[])) }
        1 => { let v: Box<SizedSlice<u8, 70000>> = Box::new(std::iter::repeat_n(7, n).collect()); go!(v, seq(n, &[7])) }
        2 => { let v = Box::new(SizedStr::<70000>::new(&"x".repeat(n)).expect("fits")); go!(v, seq(n, b"x")) }
        3 => {
            // A map of that many entries, listed in its own order.
            let m: Map<u32, ()> = (0..n as u32).map(|i| (i, ())).collect();
            let want = len(n).map(|_| { let mut out = (n as u16).to_le_bytes().to_vec(); for k in m.keys() { out.extend_from_slice(&k.to_le_bytes()) } Enc { out, ..Enc::default() } });
            if n * 4 > 262_000 && n <= 65535 { let _ = want; return Ok(()) }
            attempt(cx, w, o, &what, want, &|o| m.encode(o).map_err(ErrOf::e))?;
        }
        4 => {
            let m: Set<u32> = (0..n as u32).collect();
            let want = len(n).map(|_| Enc::default());
            if want.is_ok() { return Ok(()) }
            attempt(cx, w, o, &what, want, &|o| m.encode(o).map_err(ErrOf::e))?;
        }
        5 => { let v: LinkedList<u8> = std::iter::repeat_n(9, n).collect(); go!(v, seq(n, &[9])) }
        6 => { let v = Box::new([3u8; 70000]); go!(v, raw(vec![3; 70000])) }
        7 => { let v = [(); 70000]; go!(v, raw(vec![])) }
        8 => { let s = "\u{e9}".repeat(n / 2); go!(s.as_str(), seq(s.len(), &[]).map(|mut e| { e.out.extend_from_slice(s.as_bytes()); e })) }
        _ => { let v = vec![Some(n), Some(1)]; go!(v, if n > 65535 { Err((ErrT::BadItem(Box::new(ErrT::Item(0, Box::new(ErrT::Usize(n))))), vec![2, 0, 1])) } else { let mut b = vec![2, 0, 1]; b.extend_from_slice(&(n as u16).to_le_bytes()); b.extend_from_slice(&[1, 1, 0]); raw(b) }) }
    }
    Ok(())
}
