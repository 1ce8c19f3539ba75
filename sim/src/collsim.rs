//! Histories over bounded slices, strings and their iterators, next to ordinary ones, with
//! panics injected into element code, iterators and closures.
//!
//! One workload decides three properties; each check reports only what is its own:
//! `own:` (who owns what, C04), `coll:` and `str:` (C08), `iter:` (C09).
use crate::ctx::*;
use crate::ensure;
use crate::tok::{self, *};
use crate::tree::{conveys, ErrT, gen_char, utf8_fault};
use crate::world::World;
use crate::zoo::SimHash;
use oct::error::{LengthError, StringError};
use oct::{SizedIter, SizedSlice, SizedStr};
use std::borrow::{Borrow, BorrowMut};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::hash::{BuildHasher, Hash, Hasher};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Own, Coll, Iter }

/// A source of elements that misbehaves as iterators may.
struct Feed<T> { left: VecDeque<T>, endless: Option<fn(u32) -> T>, panic_after: usize, hint: (usize, Option<usize>), given: usize, over: bool, again: Option<T> }
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.given == self.panic_after { self.panic_after = usize::MAX; inject_panic(self.given as u64) }
        self.given += 1;
        if self.over { return self.again.take() }
        match self.left.pop_front() {
            Some(v) => Some(v),
            None => match self.endless { Some(f) if self.given < 5000 => Some(f(self.given as u32)), _ => { self.over = true; None } },
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
fn feed<T>(cx: &mut Cx, v: Vec<T>, mk: fn(u32) -> T) -> (Feed<T>, String) {
    let n = v.len();
    let endless = cx.src.chance(1, 8);
    let panic_after = if cx.src.chance(1, 5) { cx.src.below(n + 2) } else { usize::MAX };
    let hint = match cx.src.below(4) { 0 => (n, if endless { None } else { Some(n) }), 1 => (0, None), 2 => (0, Some(n + 7)), _ => (n / 2, None) };
    let again = if cx.src.chance(1, 6) { Some(mk(77)) } else { None };
    let s = format!("{n} elements{}{}{}", if endless { ", then endless" } else { "" }, if panic_after != usize::MAX { format!(", panics after {panic_after}") } else { String::new() }, if again.is_some() { ", resumes after its end" } else { "" });
    (Feed { left: v.into(), endless: if endless { Some(mk) } else { None }, panic_after, hint, given: 0, over: false, again }, s)
}
/// The panic to inject, if any.
fn arm(cx: &mut Cx) -> u64 {
    let n = if cx.src.chance(1, 4) { let top = *cx.src.of(&[7usize, 7, 7, 40, 300]); cx.src.range(1, top) as u64 } else { 0 };
    tok::panic_in(n);
    n
}
/// Runs one operation; `None` if an injected panic ended it.
fn run<T>(cx: &mut Cx, class: &str, what: &str, f: impl FnOnce() -> T) -> R<Option<T>> {
    let r = guard(f);
    tok::panic_in(0);
    match r {
        Ok(v) => Ok(Some(v)),
        Err(p) if p.origin == Origin::Injected => { cx.fault("user_panic"); cx.say(|| "  FAULT: the element's own code panicked".into()); Ok(None) }
        Err(p) => viol(format!("{class}:panic"), format!("{what} panicked at {}", p.at)),
    }
}
fn h2(x: &(impl Hash + ?Sized)) -> (u64, u64) {
    let mut d = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut d);
    let mut s = SimHash::default().build_hasher();
    x.hash(&mut s);
    (d.finish(), s.finish())
}

struct Sim<E: Elem, const N: usize, const M: usize> { ss: Vec<(SizedSlice<E, N>, Vec<u8>)>, vs: Vec<(Vec<E>, Vec<u8>)>, its: Vec<(SizedIter<E, N>, VecDeque<u8>)>, mode: Mode }
fn vals<E: Elem>(s: &[E]) -> Vec<u8> { s.iter().map(E::val).collect() }
fn mk_all<E: Elem>(v: &[u8]) -> Vec<E> { v.iter().map(|v| E::mk(*v)).collect() }
fn digit<E: Elem>(k: u32) -> E { E::mk(k as u8) }

impl<E: Elem, const N: usize, const M: usize> Sim<E, N, M> {
    fn name(&self) -> String { format!("SizedSlice<{}, {N}>", E::NAME) }
    fn gen(&self, cx: &mut Cx, max: usize) -> Vec<u8> {
        let n = if cx.src.chance(1, 3) { max.min(N + cx.src.below(4)) } else { cx.src.below(max + 1) };
        let few = cx.src.chance(1, 2);
        (0..n).map(|_| E::norm(if few { 1 + cx.src.below(3) as u8 } else { cx.src.below(255) as u8 })).collect()
    }
    fn add(&mut self, cx: &mut Cx, s: SizedSlice<E, N>, m: Vec<u8>) {
        if self.ss.len() >= 4 { let i = cx.src.below(self.ss.len()); self.ss[i] = (s, m) } else { self.ss.push((s, m)) }
    }
    /// Everything is as the model says and nobody else is alive.
    fn settle(&mut self, cx: &mut Cx, op: &str) -> R {
        cx.check();
        let mut n = 0;
        for (k, (s, m)) in self.ss.iter().enumerate() {
            let got = vals(s.as_slice());
            if let Some(b) = tok::take_bad() { return viol("own:dead", format!("{}: after {op}: {b} (in collection {k})", self.name())) }
            ensure!(&got == m, "coll:content", "{}: after {op} collection {k} holds {got:?} rather than {m:?}", self.name());
            ensure!(s.len() == m.len() && s.is_empty() == m.is_empty() && s.is_full() == (m.len() == N) && s.capacity() == N, "coll:len", "{}: after {op} collection {k} reports length {} (empty {}, full {}, capacity {}) with {} elements", self.name(), s.len(), s.is_empty(), s.is_full(), s.capacity(), m.len());
            n += m.len();
        }
        for (s, m) in &self.vs { ensure!(&vals(s) == m, "coll:converted", "{}: after {op} a converted vector holds {:?} rather than {m:?}", self.name(), vals(s)); n += m.len() }
        for (k, (i, m)) in self.its.iter().enumerate() {
            let got = vals(i.as_slice());
            if let Some(b) = tok::take_bad() { return viol("own:dead", format!("{}: after {op}: {b} (in iterator {k})", self.name())) }
            ensure!(got.iter().eq(m.iter()), "iter:content", "{}: after {op} iterator {k} has {got:?} left rather than {m:?}", self.name());
            ensure!(i.size_hint() == (m.len(), Some(m.len())) && i.len() == m.len(), "iter:count", "{}: after {op} iterator {k} reports {:?} left rather than {}", self.name(), i.size_hint(), m.len());
            n += m.len();
        }
        if let Some(b) = tok::take_bad() { return viol("own:dead", format!("{}: after {op}: {b}", self.name())) }
        if E::TRACKED {
            let l = tok::live();
            ensure!(l <= n as i64, "own:leak", "{}: after {op} {l} elements are alive, of which {n} are still held", self.name());
            ensure!(l >= n as i64, "own:lost", "{}: after {op} only {l} of the {n} elements held are alive", self.name());
        }
        Ok(())
    }

    fn step(&mut self, cx: &mut Cx) -> R<&'static str> {
        let w: [u32; 3] = match self.mode { Mode::Coll => [5, 9, 2], Mode::Iter => [3, 2, 11], Mode::Own => [4, 6, 6] };
        let k = if self.ss.is_empty() && self.its.is_empty() { 0 } else { cx.src.pick(&w) };
        match k { 0 => self.construct(cx), 1 if !self.ss.is_empty() => self.use_slice(cx), _ if !self.its.is_empty() => self.use_iter(cx), _ => self.open_iter(cx) }
    }
    fn construct(&mut self, cx: &mut Cx) -> R<&'static str> {
        let name = self.name();
        match cx.src.below(7) {
            0 => {
                let m = self.gen(cx, N + 3);
                let src = mk_all::<E>(&m);
                let by = cx.src.below(2);
                cx.say(|| format!("{name}: construct from a slice of {m:?}"));
                arm(cx);
                let r = run(cx, "coll", &format!("{name}::new of {} elements", m.len()), || if by == 0 { SizedSlice::<E, N>::new(&src) } else { SizedSlice::<E, N>::try_from(&src[..]) })?;
                ensure!(vals(&src) == m, "coll:source", "{name}: constructing from a slice changed the slice");
                match r {
                    None => {}
                    Some(Ok(s)) => { ensure!(m.len() <= N, "coll:capacity", "{name}: {} elements were accepted", m.len()); self.add(cx, s, m) }
                    Some(Err(e)) => { ensure!(m.len() > N && e.capacity == N && e.len == m.len(), "coll:refused", "{name}: {} elements were refused with capacity {}, length {}", m.len(), e.capacity, e.len); says(&name, &e, &ErrT::Len { cap: N, len: m.len() })? }
                }
                Ok("new")
            }
            1 => {
                let m: Vec<u8> = { let g = self.gen(cx, N); (0..N).map(|k| g.get(k).copied().unwrap_or(E::norm(k as u8))).collect() };
                cx.say(|| format!("{name}: from an array of {m:?}"));
                let a: [E; N] = std::array::from_fn(|i| E::mk(m[i]));
                let s = run(cx, "coll", "conversion from an array", || SizedSlice::<E, N>::from(a))?.expect("cannot panic");
                self.add(cx, s, m);
                Ok("from array")
            }
            2 | 3 => {
                let m = self.gen(cx, N + 3);
                let (f, d) = feed(cx, mk_all::<E>(&m), digit::<E>);
                let endless = f.endless.is_some();
                cx.say(|| format!("{name}: collect {d}: {m:?}"));
                let r = run(cx, "coll", &format!("{name}: collecting"), || { let mut f = f; let s: SizedSlice<E, N> = (&mut f).collect(); (s, f.given) })?;
                if let Some((s, given)) = r {
                    ensure!(given <= N + 1, "coll:endless", "{name}: collecting took {given} elements for {N} places");
                    let want: Vec<u8> = if endless { let got = vals(s.as_slice()); let mut w = m.clone(); for k in w.len()..N { w.push(E::norm((k + 1) as u8)) } w.truncate(N); let _ = got; w } else { m.iter().copied().take(N).collect() };
                    self.add(cx, s, want);
                }
                Ok("collect")
            }
            4 => { cx.say(|| format!("{name}: default")); let s = SizedSlice::<E, N>::default(); self.add(cx, s, vec![]); Ok("default") }
            5 if !self.ss.is_empty() => {
                let i = cx.src.below(self.ss.len());
                cx.say(|| format!("{name}: clone collection {i}"));
                arm(cx);
                let r = { let s = &self.ss[i].0; run(cx, "coll", "clone", || s.clone())? };
                if let Some(s) = r { let m = self.ss[i].1.clone(); self.add(cx, s, m) }
                Ok("clone")
            }
            _ if !self.ss.is_empty() => {
                let i = cx.src.below(self.ss.len());
                cx.say(|| format!("{name}: take collection {i} apart and rebuild it"));
                let (s, m) = self.ss.swap_remove(i);
                let (buf, len) = s.into_raw_parts();
                ensure!(len == m.len(), "coll:parts", "{name}: into_raw_parts reports {len} of {} elements", m.len());
                let s = unsafe { SizedSlice::<E, N>::from_raw_parts(buf, len) };
                self.ss.push((s, m));
                Ok("raw parts")
            }
            _ => Ok("nothing"),
        }
    }
    fn use_slice(&mut self, cx: &mut Cx) -> R<&'static str> {
        let name = self.name();
        let i = cx.src.below(self.ss.len());
        let len = self.ss[i].1.len();
        match cx.src.below(15) {
            0 => { // Overwrite one element.
                if len == 0 { return Ok("nothing") }
                let (j, v, how) = (cx.src.below(len), E::norm(cx.src.below(250) as u8), cx.src.below(9));
                cx.say(|| format!("{name}: collection {i}: element {j} becomes {v} (way {how})"));
                let (s, m) = &mut self.ss[i];
                match how {
                    0 => s.as_mut_slice()[j] = E::mk(v),
                    1 => s[j].set(v),
                    2 => AsMut::<[E]>::as_mut(s)[j].set(v),
                    3 => BorrowMut::<[E]>::borrow_mut(s)[j] = E::mk(v),
                    4 => { let mut r = s.each_mut(); ensure!(r.len() == len, "coll:each", "{name}: each_mut has {} of {len} elements", r.len()); r[j].set(v) }
                    5 => if let Some(x) = s.iter_mut().nth(j) { x.set(v) },
                    6 => for (k, x) in (&mut *s).into_iter().enumerate() { if k == j { *x = E::mk(v) } },
                    7 => drop(std::mem::replace(&mut s[j..][0], E::mk(v))),
                    _ => unsafe { (*s.as_mut_ptr().add(j)).set(v) },
                }
                m[j] = v;
                Ok("overwrite")
            }
            1 => {
                let how = cx.src.below(5);
                cx.say(|| format!("{name}: collection {i}: rearrange (way {how})"));
                arm(cx);
                let r = { let s = &mut self.ss[i].0; run(cx, "coll", "rearranging", || match how { 0 => s.sort(), 1 => s.reverse(), 2 => s.sort_unstable_by(|a, b| b.cmp(a)), 3 => if len > 1 { s.rotate_left(1) }, _ => if len > 1 { s.swap(0, len - 1) } })? };
                let (s, m) = &mut self.ss[i];
                match how { 0 => m.sort(), 1 => m.reverse(), 2 => m.sort_by(|a, b| b.cmp(a)), 3 => if len > 1 { m.rotate_left(1) }, _ => if len > 1 { m.swap(0, len - 1) } }
                if r.is_none() {
                    // Any order, but the same elements.
                    let mut got = vals(s.as_slice());
                    let now = got.clone();
                    got.sort();
                    let mut old = m.clone();
                    old.sort();
                    ensure!(got == old, "coll:sorted", "{name}: a panic while sorting left {now:?} of {m:?}");
                    *m = now;
                }
                Ok("rearrange")
            }
            2 => {
                let m = self.gen(cx, N + 2);
                let src = mk_all::<E>(&m);
                if E::TRACKED { return Ok("nothing") }
                cx.say(|| format!("{name}: collection {i}: copy_from_slice of {m:?}"));
                let r = { let s = &mut self.ss[i].0; guard(|| E::copy(s, &src)) };
                match r {
                    Ok(_) => { ensure!(m.len() <= N, "coll:capacity", "{name}: copy_from_slice accepted {} elements", m.len()); self.ss[i].1 = m }
                    Err(p) => ensure!(m.len() > N, "coll:panic", "{name}: copy_from_slice of {} elements panicked at {}", m.len(), p.at),
                }
                Ok("copy_from_slice")
            }
            3 => {
                if len == 0 { return Ok("nothing") }
                cx.say(|| format!("{name}: collection {i}: shorten by one"));
                let (s, m) = &mut self.ss[i];
                let x = unsafe { s.set_len(len - 1); s.as_ptr().add(len - 1).read() };
                let v = m.pop().expect("not empty");
                ensure!(x.val() == v, "coll:content", "{name}: the last element was {} rather than {v}", x.val());
                Ok("shorten")
            }
            4 => {
                if len == N { return Ok("nothing") }
                let v = E::norm(cx.src.below(250) as u8);
                cx.say(|| format!("{name}: collection {i}: lengthen by {v}"));
                let (s, m) = &mut self.ss[i];
                unsafe { s.as_mut_ptr().add(len).write(E::mk(v)); s.set_len(len + 1) }
                m.push(v);
                Ok("lengthen")
            }
            5 => {
                let (s, m) = &self.ss[i];
                cx.say(|| format!("{name}: collection {i}: all ways of looking at it"));
                let r = s.each_ref();
                ensure!(r.len() == len && r.iter().map(|x| x.val()).eq(m.iter().copied()), "coll:each", "{name}: each_ref differs from {m:?}");
                for (n, v) in [("deref", &**s), ("as_ref", AsRef::<[E]>::as_ref(s)), ("borrow", Borrow::<[E]>::borrow(s)), ("index", &s[..])] { ensure!(vals(v) == *m, "coll:view", "{name}: {n} presents {:?} rather than {m:?}", vals(v)) }
                ensure!(s.into_iter().map(E::val).eq(m.iter().copied()) && s.iter().rev().map(E::val).eq(m.iter().rev().copied()), "coll:view", "{name}: iteration differs from {m:?}");
                ensure!(s.as_ptr() == s.as_slice().as_ptr(), "coll:view", "{name}: as_ptr is not where the elements are");
                ensure!(s.first().map(E::val) == m.first().copied() && s.last().map(E::val) == m.last().copied(), "coll:view", "{name}: first or last differ from {m:?}");
                Ok("views")
            }
            6 => {
                let how = cx.src.below(4);
                cx.say(|| format!("{name}: collection {i}: into a vector (way {how})"));
                let (s, m) = self.ss.swap_remove(i);
                let v: Vec<E> = match run(cx, "coll", "conversion into a vector", || match how { 0 => s.into_vec(), 1 => Vec::from(s.into_boxed_slice()), 2 => Vec::from(s), _ => Box::<[E]>::from(s).into_vec() })? { Some(v) => v, None => return Ok("nothing") };
                let mut v = v;
                ensure!(vals(&v) == m, "coll:converted", "{name}: {m:?} became the vector {:?}", vals(&v));
                // The vector must be an ordinary one.
                if cx.src.chance(1, 3) { v.push(E::mk(9)); v.shrink_to_fit(); let mut m = m; m.push(E::norm(9)); if self.vs.len() < 2 { self.vs.push((v, m)) } }
                else if self.vs.len() < 2 { self.vs.push((v, m)) }
                Ok("into vector")
            }
            7 | 8 => self.compare(cx, i),
            9 => {
                let m = self.ss[i].1.clone();
                cx.say(|| format!("{name}: collection {i}: hash {m:?}"));
                let plain = mk_all::<E>(&m);
                arm(cx);
                let r = { let s = &self.ss[i].0; run(cx, "coll", "hashing", || h2(s))? };
                if let Some(h) = r { ensure!(h == h2(&plain[..]), "coll:hash", "{name}: {m:?} hashes unlike the slice of its elements") }
                // Found by what it borrows as.
                arm(cx);
                let (a, r) = {
                    let s = &self.ss[i].0;
                    let mut a = None;
                    let r = run(cx, "coll", "lookup", || { let mut h: HashMap<SizedSlice<E, N>, u8, SimHash> = HashMap::default(); let mut b = BTreeMap::new(); h.insert(s.clone(), 1); b.insert(s.clone(), 2); a = Some(true); (h.get(&plain[..]).copied(), b.get(&plain[..]).copied()) })?;
                    (a, r)
                };
                let _ = a;
                if let Some(r) = r { ensure!(r == (Some(1), Some(2)), "coll:lookup", "{name}: {m:?} as a key is not found by the slice of its elements: {r:?}") }
                Ok("hash")
            }
            10 => {
                let m = self.ss[i].1.clone();
                let plain = mk_all::<E>(&m);
                cx.say(|| format!("{name}: collection {i}: print"));
                arm(cx);
                let r = { let s = &self.ss[i].0; run(cx, "coll", "formatting", || [format!("{s:?}"), format!("{s:#?}"), format!("{s:04?}"), format!("{s:#x?}")])? };
                if let Some(r) = r { let w = [format!("{plain:?}"), format!("{plain:#?}"), format!("{plain:04?}"), format!("{plain:#x?}")]; ensure!(r == w, "coll:format", "{name}: prints as {r:?} rather than {w:?}") }
                Ok("print")
            }
            11 => {
                let (a, b, how) = (cx.src.below(N + 3), cx.src.below(N + 3), cx.src.below(6));
                let m = self.ss[i].1.clone();
                cx.say(|| format!("{name}: collection {i}: index {a} {b} (way {how})"));
                let want: Option<Vec<u8>> = match how { 0 | 5 => m.get(a).map(|v| vec![*v]), 1 => m.get(a..b).map(|v| v.to_vec()), 2 => m.get(a..).map(|v| v.to_vec()), 3 => m.get(..b).map(|v| v.to_vec()), _ => m.get(a..=b).map(|v| v.to_vec()) };
                let got = { let s = &mut self.ss[i].0; guard_op(|| match how { 0 => vec![s[a].val()], 1 => vals(&s[a..b]), 2 => vals(&s[a..]), 3 => vals(&s[..b]), 4 => vals(&s[a..=b]), _ => { let x = &mut s[a]; vec![x.val()] } }) };
                match (&want, &got) {
                    (Some(w), Ok(g)) => ensure!(w == g, "coll:index", "{name}: indexing {m:?} gave {g:?} rather than {w:?}"),
                    (None, Err(_)) => { cx.probe("index_out_of_range") }
                    (Some(w), Err(p)) => return viol("coll:index", format!("{name}: indexing {m:?} for {w:?} panicked at {}", p.at)),
                    (None, Ok(g)) => return viol("coll:index", format!("{name}: indexing {m:?} with {a}, {b} out of range gave {g:?}")),
                }
                Ok("index")
            }
            12 => { cx.say(|| format!("{name}: collection {i}: dropped")); drop(self.ss.swap_remove(i)); if cx.src.chance(1, 3) { self.vs.pop(); } Ok("drop") }
            13 => {
                let j = cx.src.below(self.ss.len());
                cx.say(|| format!("{name}: collections {i} and {j} change places"));
                if i != j { let (x, y) = (i.min(j), i.max(j)); let (l, r) = self.ss.split_at_mut(y); std::mem::swap(&mut l[x], &mut r[0]) }
                else { let (s, m) = &mut self.ss[i]; let old = std::mem::take(s); ensure!(vals(&old) == *m && s.is_empty(), "coll:content", "{name}: taking {m:?} gave {:?}", vals(&old)); m.clear() }
                Ok("swap")
            }
            _ => self.open_iter(cx),
        }
    }
    fn compare(&mut self, cx: &mut Cx, i: usize) -> R<&'static str> {
        use std::cmp::Ordering;
        let name = self.name();
        let m = self.ss[i].1.clone();
        let near = cx.src.below(5);
        let how = cx.src.below(6);
        let mut o = match near {
            0 => m.clone(),
            1 => { let mut o = m.clone(); o.pop(); o }
            2 => { let mut o = m.clone(); if !o.is_empty() { let k = cx.src.below(o.len()); o[k] = E::norm(o[k] ^ 1) } o }
            3 => { let mut o = m.clone(); o.push(E::norm(cx.src.below(3) as u8)); o }
            _ => self.gen(cx, N + 2),
        };
        match how { 0 => o.truncate(M), 1 => o.resize(3, E::norm(2)), 4 => o.truncate(N), _ => {} }
        cx.say(|| format!("{name}: collection {i}: compare {m:?} with {o:?} (way {how})"));
        let plain = mk_all::<E>(&o);
        let a: [E; 3] = std::array::from_fn(|k| E::mk(o.get(k).copied().unwrap_or(0)));
        let b: SizedSlice<E, M> = if how == 0 { mk_all::<E>(&o).into_iter().collect() } else { Default::default() };
        let c: SizedSlice<E, N> = if how >= 4 { o.truncate(N); mk_all::<E>(&o).into_iter().collect() } else { Default::default() };
        arm(cx);
        let r = {
            let s = &self.ss[i].0;
            run(cx, "coll", "comparing", || match how {
                0 => (*s == b, *s != b, s.partial_cmp(&b), [*s < b, *s <= b, *s > b, *s >= b]),
                1 => (*s == a, *s != a, s.partial_cmp(&a), [*s < a, *s <= a, *s > a, *s >= a]),
                2 => { let p = &plain[..]; (*s == p, *s != p, PartialOrd::<&[E]>::partial_cmp(s, &p), [*s < p, *s <= p, *s > p, *s >= p]) }
                3 => (*s == plain, *s != plain, s.partial_cmp(&plain), [*s < plain, *s <= plain, *s > plain, *s >= plain]),
                4 => (*s == c, *s != c, s.partial_cmp(&c), [*s < c, *s <= c, *s > c, *s >= c]),
                _ => { let x = s.cmp(&c); (x == Ordering::Equal, x != Ordering::Equal, Some(x), [x.is_lt(), x.is_le(), x.is_gt(), x.is_ge()]) }
            })?
        };
        if let Some(r) = r { let x = m.cmp(&o); let w = (m == o, m != o, Some(x), [x.is_lt(), x.is_le(), x.is_gt(), x.is_ge()]); ensure!(r == w, "coll:compare", "{name}: {m:?} compares with {o:?} (way {how}) as {r:?} rather than {w:?}") }
        Ok("compare")
    }

    fn open_iter(&mut self, cx: &mut Cx) -> R<&'static str> {
        if self.ss.is_empty() { return Ok("nothing") }
        if self.its.len() >= 3 { return self.use_iter(cx) }
        let name = self.name();
        let i = cx.src.below(self.ss.len());
        cx.say(|| format!("{name}: collection {i} becomes an iterator"));
        let (s, m) = self.ss.swap_remove(i);
        let it = s.into_iter();
        self.its.push((it, m.into()));
        Ok("into_iter")
    }
    fn use_iter(&mut self, cx: &mut Cx) -> R<&'static str> {
        let name = self.name();
        let i = cx.src.below(self.its.len());
        let left = self.its[i].1.len();
        let say = |cx: &mut Cx, s: &str| { let s = s.to_string(); cx.say(|| format!("{name}: iterator {i} ({left} left): {s}")) };
        match cx.src.below(if E::TRACKED { 14 } else { 15 }) {
            0 | 1 => {
                say(cx, "next");
                let (it, m) = &mut self.its[i];
                let (g, w) = (it.next().map(|x| x.val()), m.pop_front());
                ensure!(g == w, "iter:next", "{name}: next gave {g:?} rather than {w:?}, {m:?} being left");
                Ok("next")
            }
            2 | 3 => {
                say(cx, "next_back");
                let (it, m) = &mut self.its[i];
                let (g, w) = (it.next_back().map(|x| x.val()), m.pop_back());
                ensure!(g == w, "iter:next_back", "{name}: next_back gave {g:?} rather than {w:?}, {m:?} being left");
                Ok("next_back")
            }
            4 | 5 => {
                if self.its.len() >= 3 { return Ok("nothing") }
                say(cx, "clone");
                let at = tok::mark();
                arm(cx);
                let r = { let it = &self.its[i].0; run(cx, "iter", "cloning an iterator", || it.clone())? };
                match r {
                    Some(it) => { let m = self.its[i].1.clone(); self.its.push((it, m)) }
                    None => {
                        // Known finding `iter-drop`: what had been cloned is leaked.
                        let n = tok::forgive(at, true);
                        ensure!(n <= left as i64, "own:leak", "{name}: {n} elements are left over from cloning {left}");
                    }
                }
                Ok("clone")
            }
            6 => {
                let (it, m) = &mut self.its[i];
                ensure!(vals(it.as_ref()).iter().eq(m.iter()) && vals(it.as_mut()).iter().eq(m.iter()) && vals(it.as_mut_slice()).iter().eq(m.iter()), "iter:content", "{name}: a view of the remainder differs from {m:?}");
                if left == 0 { return Ok("views") }
                let (j, v, how) = (cx.src.below(left), E::norm(cx.src.below(250) as u8), cx.src.below(4));
                cx.say(|| format!("{name}: iterator {i} ({left} left): element {j} becomes {v}"));
                match how { 0 => it.as_mut_slice()[j] = E::mk(v), 1 => it.as_mut()[j].set(v), 2 => { it.as_mut_slice().reverse(); m.make_contiguous().reverse(); it.as_mut()[j].set(v) } _ => drop(std::mem::replace(&mut it.as_mut_slice()[j], E::mk(v))) }
                m[j] = v;
                Ok("modify")
            }
            7 => {
                // Stays exhausted.
                if left > 0 { return Ok("nothing") }
                say(cx, "asked again after its end");
                let it = &mut self.its[i].0;
                for k in 0..4 { let g = if k % 2 == 0 { it.next() } else { it.next_back() }; if let Some(g) = g { return viol("iter:fused", format!("{name}: an exhausted iterator yielded {}", g.val())) } }
                if it.as_slice().len() != 0 { return viol("iter:fused", format!("{name}: an exhausted iterator has a remainder")) }
                if cx.src.chance(1, 2) { drop(self.its.swap_remove(i)) }
                cx.probe("exhausted");
                Ok("fused")
            }
            8 => {
                // Take a few through adaptors; the rest stays.
                let (k, how) = (cx.src.below(left + 2), cx.src.below(6));
                say(cx, &format!("take {k} (way {how})"));
                let (it, m) = &mut self.its[i];
                let (g, w): (Vec<u8>, Vec<u8>) = match how {
                    0 => (it.by_ref().take(k).map(|x| x.val()).collect(), { let n = k.min(left); m.drain(..n).collect() }),
                    1 => (it.by_ref().rev().take(k).map(|x| x.val()).collect(), { let n = k.min(left); let mut v: Vec<u8> = m.drain(left - n..).collect(); v.reverse(); v }),
                    2 => { let mut n = 0; (it.by_ref().take_while(|_| { n += 1; n <= k }).map(|x| x.val()).collect(), { let n = k.min(left); let v: Vec<u8> = m.drain(..n).collect(); m.pop_front(); v }) }
                    3 => (it.by_ref().map(|x| x.val()).zip(0..k).map(|(x, _)| x).collect(), { let n = k.min(left); let v: Vec<u8> = m.drain(..n).collect(); m.pop_front(); v }),
                    4 => (it.nth_back(k).map(|x| x.val()).into_iter().collect(), { if k < left { let v = m[left - 1 - k]; m.truncate(left - 1 - k); vec![v] } else { m.clear(); vec![] } }),
                    _ => { let mut p = it.by_ref().peekable(); let pk = p.peek().map(|x| x.val()); let n = p.next().map(|x| x.val()); (pk.into_iter().chain(n).collect(), m.pop_front().map_or(vec![], |v| vec![v, v])) }
                };
                ensure!(g == w, "iter:take", "{name}: taking {k} (way {how}) gave {g:?} rather than {w:?}");
                Ok("take")
            }
            9 => {
                // A closure of the caller panics; nothing is repeated or lost.
                let (k, how) = (cx.src.below(left + 2), cx.src.below(4));
                say(cx, &format!("consumed by a closure that panics at {k} (way {how})"));
                let mut seen: Vec<u8> = Vec::with_capacity(left + 4);
                let (it, m) = &mut self.its[i];
                let r = {
                    let mut f = |x: E| { let v = x.val(); if seen.len() == k { seen.push(v); inject_panic(k as u64) } seen.push(v); };
                    run(cx, "iter", "consuming an iterator", || match how { 0 => it.by_ref().for_each(&mut f), 1 => it.by_ref().rev().for_each(&mut f), 2 => { it.by_ref().fold((), |(), x| f(x)); } _ => { while let Some(x) = it.next_back() { f(x) } } })?
                };
                let n = if k < left { k + 1 } else { left };
                let w: Vec<u8> = if how % 2 == 0 { m.drain(..n).collect() } else { let mut v: Vec<u8> = m.drain(left - n..).collect(); v.reverse(); v };
                ensure!(seen == w && r.is_some() == (k >= left), "iter:visited", "{name}: visited {seen:?} rather than {w:?}");
                Ok("closure")
            }
            10 => {
                // Consume it whole.
                let how = cx.src.below(10);
                say(cx, &format!("consumed whole (way {how})"));
                let (it, m) = self.its.swap_remove(i);
                let m: Vec<u8> = m.into();
                let rev: Vec<u8> = m.iter().rev().copied().collect();
                macro_rules! same { ($a:expr, $b:expr) => {{ let (a, b) = (&$a, &$b); ensure!(a == b, "iter:whole", "{name}: consumed whole (way {how}) gave {a:?} rather than {b:?}") }} }
                match how {
                    0 => { let v: Vec<E> = it.collect(); same!(vals(&v), m); if self.vs.len() < 2 { self.vs.push((v, m)) } }
                    1 => same!(it.count(), m.len()),
                    2 => same!(it.last().map(|x| x.val()), m.last().copied()),
                    3 => same!(it.rev().map(|x| x.val()).collect::<Vec<_>>(), rev),
                    4 => same!(it.fold(vec![], |mut a, x| { a.push(x.val()); a }), m),
                    5 => same!(it.rfold(vec![], |mut a, x| { a.push(x.val()); a }), rev),
                    6 => same!(it.max().map(|x| x.val()), m.iter().max().copied()),
                    7 => { let mut a = vec![]; for (k, x) in it.enumerate() { a.push((k, x.val())) } same!(a, m.into_iter().enumerate().collect::<Vec<_>>()) }
                    8 => { let s: SizedSlice<E, N> = it.collect(); self.add(cx, s, m) }
                    _ => same!(it.map(|x| x.val() as u32).sum::<u32>(), m.iter().map(|x| *x as u32).sum()),
                }
                Ok("whole")
            }
            11 => {
                // Move a prefix into a smaller or larger collection.
                say(cx, "partly collected");
                let (it, m) = &mut self.its[i];
                let s: SizedSlice<E, M> = it.by_ref().collect();
                let n = left.min(M);
                let w: Vec<u8> = m.drain(..n).collect();
                ensure!(vals(s.as_slice()) == w, "iter:collect", "{name}: collecting into {M} gave {:?} rather than {w:?}", vals(s.as_slice()));
                if it.len() + 1 == m.len() { m.pop_front(); }
                Ok("part")
            }
            12 => {
                let k = cx.src.below(left + 1);
                say(cx, &format!("searched for element {k}"));
                let (it, m) = &mut self.its[i];
                let v = m.get(k).copied();
                let back = cx.src.chance(1, 2);
                let w = if back { m.iter().rposition(|x| Some(*x) == v) } else { m.iter().position(|x| Some(*x) == v) };
                let g = if back { it.by_ref().rposition(|x| Some(x.val()) == v) } else { it.by_ref().position(|x| Some(x.val()) == v) };
                ensure!(g == w, "iter:position", "{name}: found at {g:?} rather than {w:?} in {m:?}");
                match (w, back) { (Some(p), false) => { m.drain(..=p); } (Some(p), true) => m.truncate(p), _ => m.clear() }
                Ok("search")
            }
            13 => {
                say(cx, "drained and dropped");
                let (mut it, m) = self.its.swap_remove(i);
                let (mut front, mut back) = (vec![], vec![]);
                loop { if cx.src.chance(1, 2) { match it.next_back() { Some(x) => back.push(x.val()), None => break } } else { match it.next() { Some(x) => front.push(x.val()), None => break } } }
                back.reverse();
                front.extend(back);
                ensure!(m.iter().eq(front.iter()), "iter:whole", "{name}: drained {front:?} rather than {m:?}");
                Ok("drain")
            }
            _ => {
                // Skipping is right, or deviates exactly as recorded (known finding `iter-nth`): the element
                // returned is then the one at that index of the whole and the remainder starts with the one meant.
                let k = match cx.src.below(4) { 0 => left + 1 + cx.src.below(3), _ => 1 + cx.src.below(left.max(2) - 1) };
                if k == left { return Ok("nothing") }
                say(cx, &format!("nth({k})"));
                let (it, m) = &mut self.its[i];
                let g = it.nth(k).map(|x| x.val());
                let rest = vals(it.as_slice());
                let right: Vec<u8> = m.iter().copied().skip(k + 1).collect();
                let known: Vec<u8> = m.iter().copied().skip(if k < left { k } else { 0 }).collect();
                if k < left { ensure!(rest == right && g == Some(m[k]) || rest == known && g.is_some(), "iter:nth", "{name}: nth({k}) of {m:?} gave {g:?} and left {rest:?}") }
                else { ensure!(g.is_none() && (rest == right || rest == known), "iter:nth", "{name}: nth({k}) of {m:?} gave {g:?} and left {rest:?}") }
                *m = rest.into();
                Ok("nth")
            }
        }
    }
}

/// Comparison where elements need not equal themselves, and of different element types.
fn partial(cx: &mut Cx) -> R {
    const X: [f32; 5] = [1.0, f32::NAN, -0.0, 0.0, f32::INFINITY];
    let a: Vec<f32> = (0..cx.src.below(4)).map(|_| *cx.src.of(&X)).collect();
    let b: Vec<f32> = if cx.src.chance(1, 2) { a.clone() } else { (0..cx.src.below(4)).map(|_| *cx.src.of(&X)).collect() };
    let (s, t): (SizedSlice<f32, 3>, SizedSlice<f32, 4>) = (a.iter().copied().collect(), b.iter().copied().collect());
    cx.check();
    ensure!((s == t) == (a == b) && (s == &b[..]) == (a == b) && (s == b) == (a == b) && (s != b) == (a != b), "coll:compare", "{a:?} == {b:?} is decided differently");
    ensure!(s.partial_cmp(&t) == a.partial_cmp(&b) && PartialOrd::<&[f32]>::partial_cmp(&s, &&b[..]) == a.partial_cmp(&b) && s.partial_cmp(&b) == a.partial_cmp(&b), "coll:compare", "{a:?} and {b:?} are ordered differently");
    if let Ok(c) = <[f32; 2]>::try_from(&b[..]) { ensure!((s == c) == (a == b) && s.partial_cmp(&c) == a.partial_cmp(&b), "coll:compare", "{a:?} and the array {b:?} compare differently") }
    let w = ["a", "b", "ab", ""];
    let x: Vec<String> = (0..cx.src.below(4)).map(|_| cx.src.of(&w).to_string()).collect();
    let y: Vec<&str> = if cx.src.chance(1, 2) { x.iter().map(|s| &s[..]).collect() } else { (0..cx.src.below(4)).map(|_| *cx.src.of(&w)).collect() };
    let (s, t): (SizedSlice<String, 3>, SizedSlice<&str, 4>) = (x.iter().cloned().collect(), y.iter().copied().collect());
    ensure!((s == t) == (x == y) && (s == &y[..]) == (x == y) && (s == y) == (x == y), "coll:compare", "{x:?} == {y:?} is decided differently");
    Ok(())
}

fn coll<E: Elem, const N: usize, const M: usize>(cx: &mut Cx, mode: Mode) -> R {
    let mut s = Sim::<E, N, M> { ss: Vec::with_capacity(8), vs: Vec::with_capacity(4), its: Vec::with_capacity(8), mode };
    cx.note(N as u64 * 64 + M as u64);
    cx.note(hash_str(E::NAME));
    let steps = cx.src.range(1, 40);
    let mut r = Ok(());
    for _ in 0..steps {
        if !tok::room() { break }
        cx.src.open();
        cx.step();
        let op = s.step(cx);
        r = op.and_then(|op| { cx.note(hash_str(op)); s.settle(cx, op) });
        cx.src.close();
        cx.ev(s.ss.len() as u64, s.its.len() as u64);
        let h = s.ss.iter().map(|(_, m)| hash_bytes(m)).chain(s.its.iter().map(|(i, m)| hash_bytes(&Vec::from(m.clone())) ^ i.len() as u64)).fold(N as u64 * 131 + hash_str(E::NAME), |a, b| a.rotate_left(7) ^ b);
        cx.state(h);
        cx.ev(1, h);
        if r.is_err() { break }
    }
    // Iterators are exhausted before they go (known finding `iter-drop`).
    for (it, _) in &mut s.its { let mut n = 0; while it.next().is_some() && n < 1000 { n += 1 } }
    if r.is_ok() { for (_, m) in &mut s.its { m.clear() } r = s.settle(cx, "the iterators were drained") }
    drop(s);
    if r.is_ok() {
        if let Some(b) = tok::take_bad() { r = viol("own:dead", format!("when everything was dropped: {b}")) }
        else if tok::live() != 0 { r = viol("own:leak", format!("SizedSlice<{}, {N}>: {} elements are alive after everything was dropped", E::NAME, tok::live())) }
    }
    r
}

// ---- strings --------------------------------------------------------------------------------

fn gen_text(cx: &mut Cx, max: usize) -> String {
    let aim = if cx.src.chance(1, 3) { max.saturating_sub(cx.src.below(4)) } else { cx.src.below(max + 1) };
    let mut s = String::new();
    while s.len() < aim {
        let c = if cx.src.chance(1, 2) { (b'a' + cx.src.below(4) as u8) as char } else { char::from_u32(gen_char(&mut cx.src)).unwrap_or('x') };
        if s.len() + c.len_utf8() > max { break }
        s.push(c);
    }
    s
}
fn str_is<const N: usize>(s: &SizedStr<N>, m: &str, op: &str) -> R {
    let b = s.as_bytes();
    ensure!(std::str::from_utf8(b).is_ok(), "str:utf8", "SizedStr<{N}>: after {op} it holds the ill-formed {}", hex(b));
    ensure!(b == m.as_bytes() && s.as_str() == m, "str:content", "SizedStr<{N}>: after {op} it holds {:?} rather than {m:?}", s.as_str());
    ensure!(s.len() == m.len() && s.is_empty() == m.is_empty() && s.is_full() == (m.len() == N) && s.capacity() == N, "str:len", "SizedStr<{N}>: after {op} it reports length {} (empty {}, full {}, capacity {}) for {m:?}", s.len(), s.is_empty(), s.is_full(), s.capacity());
    Ok(())
}
/// An error must say what it is about.
fn says(name: &str, e: &(dyn std::error::Error + 'static), t: &ErrT) -> R { match guard(|| conveys(t, &crate::zoo::chain_of(e))) { Ok(Ok(())) => Ok(()), Ok(Err(m)) => viol("coll:message", format!("{name}: an error about {t:?} {m}")), Err(p) => viol("coll:message", format!("{name}: displaying an error panicked at {}", p.at)) } }
/// Judges a fallible construction from something well-formed.
fn made<const N: usize>(r: Result<SizedStr<N>, StringError>, m: &str, op: &str) -> R<Option<SizedStr<N>>> {
    match r {
        Ok(s) => { ensure!(m.len() <= N, "str:capacity", "SizedStr<{N}>: {op} accepted {} bytes", m.len()); str_is(&s, m, op)?; Ok(Some(s)) }
        Err(StringError::SmallBuffer(LengthError { capacity, len })) => { ensure!(m.len() > N && capacity == N && len == m.len(), "str:refused", "SizedStr<{N}>: {op} refused {m:?} with capacity {capacity}, length {len}"); says("SizedStr", &StringError::SmallBuffer(LengthError { capacity, len }), &ErrT::BadLen(Box::new(ErrT::Len { cap: N, len: m.len() })))?; Ok(None) }
        Err(e) => viol("str:refused", format!("SizedStr<{N}>: {op} refused {m:?} with {e:?}")),
    }
}
fn strs<const N: usize, const M: usize>(cx: &mut Cx, _mode: Mode) -> R {
    let mut pool: Vec<(SizedStr<N>, String)> = Vec::new();
    cx.note(0x5712 + N as u64);
    for _ in 0..cx.src.range(1, 30) {
        cx.src.open();
        cx.step();
        let k = if pool.is_empty() { cx.src.below(9) } else { cx.src.below(21) };
        cx.note(k as u64);
        let i = if pool.is_empty() { 0 } else { cx.src.below(pool.len()) };
        let m = pool.get(i).map(|p| p.1.clone()).unwrap_or_default();
        let mut new: Option<(SizedStr<N>, String)> = None;
        match k {
            0 | 1 => {
                let (t, how) = (gen_text(cx, N + 4), cx.src.below(4));
                cx.say(|| format!("SizedStr<{N}>: from {t:?} (way {how})"));
                let r = run(cx, "str", "construction", || match how { 0 => SizedStr::<N>::new(&t), 1 => t.parse(), 2 => SizedStr::try_from(&t[..]), _ => SizedStr::try_from(t.clone()) })?.expect("no element code");
                new = made(r, &t, "construction")?.map(|s| (s, t));
            }
            2 => {
                let c = char::from_u32(gen_char(&mut cx.src)).unwrap_or('y');
                cx.say(|| format!("SizedStr<{N}>: from {c:?}"));
                let t = c.to_string();
                new = made(SizedStr::try_from(c), &t, "construction from a character")?.map(|s| (s, t));
            }
            3 | 4 => {
                let mut b = gen_text(cx, N + 3).into_bytes();
                for _ in 0..cx.src.below(3) { match cx.src.below(4) { 0 => { b.pop(); } 1 => if !b.is_empty() { let j = cx.src.below(b.len()); b[j] = cx.src.below(256) as u8 }, 2 => b.push(*cx.src.of(&[0x80u8, 0xC3, 0xE2, 0xF0, 0xFF, 0xED])), _ => if !b.is_empty() { let j = cx.src.below(b.len()); b.remove(j); } } }
                let bad = utf8_fault(&b);
                cx.say(|| format!("SizedStr<{N}>: from the bytes {} ({bad:?})", hex(&b)));
                if bad.is_some() { cx.fault("ill_formed_text") }
                let r = run(cx, "str", "from_utf8", || SizedStr::<N>::from_utf8(&b))?.expect("no element code");
                match r {
                    Ok(s) => {
                        ensure!(bad.is_none(), "str:utf8", "SizedStr<{N}>: from_utf8 accepted the ill-formed {}", hex(&b));
                        ensure!(b.len() <= N, "str:capacity", "SizedStr<{N}>: from_utf8 accepted {} bytes", b.len());
                        let t = String::from_utf8(b).unwrap_or_default();
                        str_is(&s, &t, "from_utf8")?;
                        new = Some((s, t));
                    }
                    Err(StringError::SmallBuffer(LengthError { capacity, len })) => ensure!(b.len() > N && capacity == N && len == b.len(), "str:refused", "SizedStr<{N}>: from_utf8 refused {} bytes with capacity {capacity}, length {len}", b.len()),
                    Err(StringError::BadUtf8(e)) => { let Some(at) = bad else { return viol("str:refused", format!("SizedStr<{N}>: from_utf8 refused {} with {e:?}", hex(&b))) }; ensure!(e.index == at && e.value == b[at], "str:refused", "SizedStr<{N}>: the octet {:#x} at {} was reported, but it is at {at} that {} fails", e.value, e.index, hex(&b)); says("SizedStr", &StringError::BadUtf8(e), &ErrT::BadItem(Box::new(ErrT::Utf8(b[at], at))))? }
                    Err(e) => return viol("str:refused", format!("SizedStr<{N}>: from_utf8 refused {} with {e:?}", hex(&b))),
                }
            }
            5 | 6 => {
                let t = gen_text(cx, N + 6);
                let (f, d) = feed(cx, t.chars().collect(), |k| char::from_u32(0x61 + k % 5).unwrap_or('e'));
                let endless = f.endless.is_some();
                cx.say(|| format!("SizedStr<{N}>: collect {d}: {t:?}"));
                let r = run(cx, "str", "collecting characters", || { let mut f = f; let s: SizedStr<N> = (&mut f).collect(); (s, f.given) })?;
                if let Some((s, given)) = r {
                    // Whole characters from the front, as many as fit, nothing after the first that does not.
                    let n = t.chars().count();
                    let src: Vec<char> = t.chars().chain((n as u32 + 1..).take(if endless { N + 1 } else { 0 }).map(|k| char::from_u32(0x61 + k % 5).unwrap_or('e'))).collect();
                    let mut want = String::new();
                    for c in src { if want.len() + c.len_utf8() > N { break } want.push(c) }
                    ensure!(given < 5000, "str:endless", "SizedStr<{N}>: collecting an endless iterator takes {given} characters");
                    str_is(&s, &want, "collecting")?;
                    new = Some((s, want));
                }
            }
            7 => { let s = SizedStr::<N>::default(); cx.say(|| format!("SizedStr<{N}>: default")); str_is(&s, "", "default")?; new = Some((s, String::new())) }
            8 => {
                let t = gen_text(cx, N);
                cx.say(|| format!("SizedStr<{N}>: unchecked {t:?}"));
                let s = if cx.src.chance(1, 2) { unsafe { SizedStr::<N>::from_utf8_unchecked(t.as_bytes()) } } else { let mut b = [0xFFu8; N]; b[..t.len()].copy_from_slice(t.as_bytes()); unsafe { SizedStr::<N>::from_raw_parts(b, t.len()) } };
                str_is(&s, &t, "unchecked construction")?;
                new = Some((s, t));
            }
            9 => { cx.say(|| format!("string {i}: clone")); let s = pool[i].0.clone(); str_is(&s, &m, "cloning")?; new = Some((s, m)) }
            10 => {
                let how = cx.src.below(6);
                cx.say(|| format!("string {i}: change case (way {how})"));
                let (s, m) = &mut pool[i];
                match how { 0 => s.as_mut_str().make_ascii_uppercase(), 1 => AsMut::<str>::as_mut(s).make_ascii_lowercase(), 2 => BorrowMut::<str>::borrow_mut(s).make_ascii_uppercase(), 3 => s[..].make_ascii_lowercase(), 4 => (**s).make_ascii_uppercase(), _ => s.make_ascii_lowercase() }
                if how % 2 == 0 { m.make_ascii_uppercase() } else { m.make_ascii_lowercase() }
            }
            11 => {
                let (a, b, how) = (cx.src.below(N.min(40) + 3), cx.src.below(N.min(40) + 3), cx.src.below(5));
                cx.say(|| format!("string {i}: index {a} {b} (way {how}) of {m:?}"));
                let want = match how { 0 => m.get(a..b), 1 => m.get(a..), 2 => m.get(..b), 3 => m.get(a..=b), _ => m.get(a..) }.map(|s| s.to_string());
                let s = &mut pool[i].0;
                let got = guard_op(|| match how { 0 => s[a..b].to_string(), 1 => s[a..].to_string(), 2 => s[..b].to_string(), 3 => s[a..=b].to_string(), _ => { let x: &mut str = &mut s[a..]; x.to_string() } });
                match (&want, &got) { (None, Err(_)) => cx.probe("index_refused"), (Some(w), Ok(g)) if w == g => {} _ => return viol("str:index", format!("SizedStr<{N}>: indexing {m:?} with {a}, {b} (way {how}) gave {:?} rather than {want:?}", got.ok())) }
            }
            12 => {
                let how = cx.src.below(6);
                cx.say(|| format!("string {i}: converted (way {how})"));
                let (s, m) = pool.swap_remove(i);
                let got: Vec<u8> = match how {
                    0 => { let b = s.into_bytes(); ensure!(b.capacity() == N, "str:converted", "SizedStr<{N}>: into_bytes changed the capacity"); b.to_vec() }
                    1 => s.into_boxed_str().into_string().into_bytes(), 2 => { let mut t = s.into_string(); t.push('!'); t.pop(); t.into_bytes() } 3 => String::from(s).into_bytes(), 4 => Box::<str>::from(s).as_bytes().to_vec(),
                    _ => { let (b, n) = s.into_raw_parts(); ensure!(n <= N, "str:converted", "SizedStr<{N}>: into_raw_parts has length {n}");
                        // All octets are the caller's to use; the memory sanitizer sees to it that they are there.
                        if b.iter().fold(0u8, |a, x| a ^ x) == 0xFF { std::hint::black_box(()); }
                        b[..n].to_vec() }
                };
                ensure!(got == m.as_bytes(), "str:converted", "SizedStr<{N}>: {m:?} was converted (way {how}) to {}", hex(&got));
            }
            13 | 14 => {
                let near = cx.src.below(4);
                let mut o = match near { 0 => m.clone(), 1 => { let mut o = m.clone(); o.pop(); o } 2 => { let mut o = m.clone(); o.push('a'); o } _ => gen_text(cx, N + 2) };
                let b: SizedStr<M> = o.chars().collect();
                let c: SizedStr<N> = o.chars().collect();
                cx.say(|| format!("string {i}: compare {m:?} with {o:?}"));
                let s = &pool[i].0;
                let all = |o: &str| { let x = m[..].cmp(o); (m == o, m != o, Some(x), [x.is_lt(), x.is_le(), x.is_gt(), x.is_ge()]) };
                let p = &o[..];
                let g = (*s == p, *s != p, PartialOrd::<&str>::partial_cmp(s, &p), [*s < p, *s <= p, *s > p, *s >= p]);
                ensure!(g == all(&o), "str:compare", "SizedStr<{N}>: {m:?} compares with the text {o:?} as {g:?}");
                let g = (*s == o, *s != o, s.partial_cmp(&o), [*s < o, *s <= o, *s > o, *s >= o]);
                ensure!(g == all(&o), "str:compare", "SizedStr<{N}>: {m:?} compares with the string {o:?} as {g:?}");
                let g = (*s == b, *s != b, s.partial_cmp(&b), [*s < b, *s <= b, *s > b, *s >= b]);
                ensure!(g == all(b.as_str()), "str:compare", "SizedStr<{N}>: {m:?} compares with SizedStr<{M}> {:?} as {g:?}", b.as_str());
                ensure!(s.cmp(&c) == m[..].cmp(c.as_str()) && (*s == c) == (m == c.as_str()), "str:compare", "SizedStr<{N}>: {m:?} and {:?} compare differently", c.as_str());
                o.clear();
            }
            15 => {
                cx.say(|| format!("string {i}: hash"));
                let s = &pool[i].0;
                ensure!(h2(s) == h2(&m[..]), "str:hash", "SizedStr<{N}>: {m:?} hashes unlike its text");
                let mut h: HashMap<SizedStr<N>, u8, SimHash> = HashMap::default();
                let mut b = BTreeMap::new();
                for (k, (s, _)) in pool.iter().enumerate() { h.insert(s.clone(), k as u8); b.insert(s.clone(), k as u8); }
                let want = pool.iter().rposition(|p| p.1 == m).map(|k| k as u8);
                ensure!(h.get(&m[..]).copied() == want && b.get(&m[..]).copied() == want, "str:lookup", "SizedStr<{N}>: {m:?} as a key is not found by its text");
            }
            16 => {
                let (w, p) = (cx.src.below(12), cx.src.below(6));
                cx.say(|| format!("string {i}: print"));
                let s = &pool[i].0;
                let g = [format!("{s}"), format!("{s:?}"), format!("{s:w$}"), format!("{s:>w$.p$}"), format!("{s:*^w$}"), format!("{s:#?}"), s.to_string()];
                let x = [format!("{m}"), format!("{m:?}"), format!("{m:w$}"), format!("{m:>w$.p$}"), format!("{m:*^w$}"), format!("{m:#?}"), m.to_string()];
                ensure!(g == x, "str:format", "SizedStr<{N}>: {m:?} prints as {g:?}");
            }
            17 => {
                cx.say(|| format!("string {i}: all ways of looking at it"));
                let s = &pool[i].0;
                ensure!(s.chars().eq(m.chars()) && s.char_indices().eq(m.char_indices()) && s.chars().rev().eq(m.chars().rev()), "str:chars", "SizedStr<{N}>: the characters of {m:?} differ");
                ensure!(AsRef::<str>::as_ref(s) == m && AsRef::<[u8]>::as_ref(s) == m.as_bytes() && AsRef::<std::ffi::OsStr>::as_ref(s) == std::ffi::OsStr::new(&m) && AsRef::<std::path::Path>::as_ref(s) == std::path::Path::new(&m) && Borrow::<str>::borrow(s) == m && &**s == m && &s[..] == m, "str:view", "SizedStr<{N}>: a view of {m:?} differs");
                ensure!(s.as_ptr() == s.as_bytes().as_ptr(), "str:view", "SizedStr<{N}>: as_ptr is not where the text is");
                let s = &mut pool[i].0;
                ensure!(s.as_mut_ptr() as *const u8 == s.as_ptr() && *s.as_mut_str() == *m, "str:view", "SizedStr<{N}>: a mutable view of {m:?} differs");
                ensure!(s.trim() == m.trim() && s.find('b') == m.find('b') && s.parse::<u32>() == m.parse::<u32>(), "str:view", "SizedStr<{N}>: {m:?} is searched differently");
            }
            18 => {
                use std::net::ToSocketAddrs;
                let t = *cx.src.of(&["1.2.3.4:5", "[::1]:80", "255.255.255.255:65535", "1.2.3.4:65536", "[::1%3]:1", "0.0.0.0:0"]);
                if t.len() > N { cx.src.close(); continue }
                cx.say(|| format!("SizedStr<{N}>: socket address {t}"));
                let s = SizedStr::<N>::new(t).map_err(|e| Viol { class: "str:refused".into(), msg: format!("{t:?} was refused with {e:?}") })?;
                // Only texts that need no resolver.
                if let Ok(w) = t.parse::<std::net::SocketAddr>() { let g = s.to_socket_addrs().map(|a| a.collect::<Vec<_>>()).ok(); ensure!(g == Some(vec![w]), "str:socket", "SizedStr<{N}>: {t} resolved to {g:?}") }
                new = Some((s, t.into()));
            }
            19 => { let j = cx.src.below(pool.len()); cx.say(|| format!("strings {i} and {j} change places")); if i == j { let (s, m) = &mut pool[i]; let o = std::mem::take(s); str_is(&o, m, "being taken")?; m.clear() } else { pool.swap(i, j) } }
            _ => { cx.say(|| format!("string {i}: dropped")); pool.swap_remove(i); }
        }
        if let Some(n) = new { if pool.len() >= 4 { let j = cx.src.below(4); pool[j] = n } else { pool.push(n) } }
        cx.check();
        for (s, m) in &pool { str_is(s, m, "an operation")? }
        let h = pool.iter().fold(N as u64, |a, p| a.rotate_left(9) ^ hash_str(&p.1));
        cx.state(h);
        cx.ev(2, h);
        cx.src.close();
    }
    Ok(())
}

type F = fn(&mut Cx, Mode) -> R;
macro_rules! table { ($($e:ty),*; $nm:tt) => { &[$(table!(@ $e, $nm)),*] }; (@ $e:ty, [$(($n:literal, $m:literal)),*]) => { &[$(coll::<$e, $n, $m> as F),*] as &[F] } }
const SLICES: &[&[F]] = table!(Tok, ATok, Ztok, u16; [(3, 5), (0, 3), (1, 2), (2, 1), (5, 3), (8, 5), (33, 8), (130, 33), (300, 130)]);
const STRS: &[F] = &[strs::<4, 8>, strs::<0, 3>, strs::<1, 2>, strs::<2, 1>, strs::<3, 5>, strs::<8, 3>, strs::<16, 33>, strs::<33, 16>, strs::<300, 64>, strs::<1100, 300>];

pub fn history(cx: &mut Cx, w: &mut World, mode: Mode) -> R {
    let _ = w;
    tok::reset();
    cx.forced = mode != Mode::Own;
    let r = match if mode == Mode::Coll { cx.src.below(8) } else { 0 } {
        0..=4 => { let e = cx.src.pick(&[6, 3, 2, if mode == Mode::Own { 0 } else { 2 }]); let k = cx.src.below(SLICES[e].len()); SLICES[e][k](cx, mode) }
        5 => partial(cx),
        _ => { let k = cx.src.below(STRS.len()); STRS[k](cx, mode) }
    };
    let l = tok::live();
    tok::panic_in(0);
    if r.is_ok() && l != 0 { return viol("own:leak", format!("{l} elements alive at the end")) }
    // Each property reports what is its own; other mismatches end the run.
    match r {
        Err(v) => {
            let mine = match mode { Mode::Own => v.class.starts_with("own:"), Mode::Coll => v.class.starts_with("coll:") || v.class.starts_with("str:") || v.class == "own:dead", Mode::Iter => v.class.starts_with("iter:") || v.class == "own:dead" || v.class == "own:lost" };
            if mine { Err(v) } else { cx.probe("ended_by_another_property"); crate::alloc::take_error(); Ok(()) }
        }
        r => r,
    }
}
pub fn c08(cx: &mut Cx, w: &mut World) -> R { history(cx, w, Mode::Coll) }
pub fn c09(cx: &mut Cx, w: &mut World) -> R { history(cx, w, Mode::Iter) }
