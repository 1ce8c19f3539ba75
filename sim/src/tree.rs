//! The reference model: a neutral value tree, a description of each type's wire layout, and an
//! independent encoder and decoder of the documented format. Nothing here uses the library.
use crate::choice::Src;
use std::rc::Rc;

/// A value of any supported type.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tree {
    /// Any integer (sign-extended), boolean, float bits, character.
    N(u128),
    /// Byte strings and texts.
    B(Vec<u8>),
    /// Products and sequences.
    L(Vec<Tree>),
    /// Sums.
    V(u32, Vec<Tree>),
}
pub use Tree::*;
impl Tree {
    pub fn n(&self) -> u128 { match self { N(v) => *v, t => panic!("not a number: {t:?}") } }
    pub fn b(&self) -> &[u8] { match self { B(v) => v, t => panic!("not bytes: {t:?}") } }
    pub fn l(&self) -> &[Tree] { match self { L(v) => v, t => panic!("not a list: {t:?}") } }
    pub fn v(&self) -> (u32, &[Tree]) { match self { V(i, v) => (*i, v), t => panic!("not a variant: {t:?}") } }
    pub fn brief(&self) -> String { let s = format!("{self:?}"); if s.len() > 400 { let mut k = 400; while !s.is_char_boundary(k) { k -= 1 } format!("{}..", &s[..k]) } else { s } }
    pub fn weight(&self) -> usize { match self { N(_) => 1, B(b) => 1 + b.len() / 8, L(v) | V(_, v) => 1 + v.iter().map(Tree::weight).sum::<usize>() } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Repr { U8, I8, U16, I16, U32, I32, U64, I64, U128, I128, Usize, Isize }
impl Repr {
    fn schema(self) -> S {
        match self {
            Repr::U8 => S::Int(1, false), Repr::I8 => S::Int(1, true), Repr::U16 => S::Int(2, false), Repr::I16 => S::Int(2, true),
            Repr::U32 => S::Int(4, false), Repr::I32 => S::Int(4, true), Repr::U64 => S::Int(8, false), Repr::I64 => S::Int(8, true),
            Repr::U128 => S::Int(16, false), Repr::I128 => S::Int(16, true), Repr::Usize => S::Usz, Repr::Isize => S::Isz,
        }
    }
}

/// Wire layout of a type.
#[derive(Clone, Debug)]
pub enum S {
    Unit,
    Int(u8, bool),
    Usz,
    Isz,
    Bool,
    Char,
    Nz(Rc<S>),
    /// Text: length prefix, UTF-8; at most `cap` bytes.
    Str(Option<usize>),
    CStr,
    /// Byte sequence: length prefix, bytes.
    Bytes(Option<usize>),
    /// Length prefix, items.
    Seq(Rc<S>, Option<usize>),
    Arr(Rc<S>, usize),
    Prod(Vec<S>),
    Opt(Rc<S>),
    Res(Rc<S>, Rc<S>),
    Bnd(Rc<S>),
    Dur,
    Time,
    Ip,
    Sa,
    Map(Rc<S>, Rc<S>),
    Set(Rc<S>),
    RefC(Rc<S>),
    Struct(Vec<S>),
    Enum(Repr, Vec<(u128, Vec<S>)>),
    /// A type that contains itself.
    Rec(fn() -> S),
}
pub fn rc(s: S) -> Rc<S> { Rc::new(s) }
pub const U8: S = S::Int(1, false);
pub const U16: S = S::Int(2, false);
pub const U32: S = S::Int(4, false);
pub const U64: S = S::Int(8, false);
pub const U128: S = S::Int(16, false);
pub const I64: S = S::Int(8, true);
pub fn ip4() -> S { U32 }
pub fn ip6() -> S { U128 }
pub fn sa4() -> S { S::Prod(vec![U32, U16]) }
pub fn sa6() -> S { S::Prod(vec![U128, U16, U32, U32]) }

/// Why something was refused, as the library's error types express it.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ErrT {
    NonZero,
    Char(u32),
    CStr(usize),
    Utf8(u8, usize),
    Len { cap: usize, len: usize },
    Time(i64),
    Disc(u128),
    Usize(usize),
    Isize(isize),
    Borrow,
    Item(usize, Box<ErrT>),
    Field(Box<ErrT>),
    BadDisc(Box<ErrT>),
    BadLen(Box<ErrT>),
    BadItem(Box<ErrT>),
    Value(Box<ErrT>),
    Gen(Box<ErrT>),
    /// Seconds overflow while normalising nanoseconds.
    DurOverflow,
    Other(String),
}
impl ErrT {
    pub fn leaf(&self) -> &ErrT {
        match self {
            ErrT::Item(_, e) | ErrT::Field(e) | ErrT::BadDisc(e) | ErrT::BadLen(e) | ErrT::BadItem(e) | ErrT::Value(e) | ErrT::Gen(e) => e.leaf(),
            e => e,
        }
    }
    /// What remains of an error once converted to a derived type's common error.
    pub fn generic(&self) -> ErrT { match self { ErrT::Gen(e) => ErrT::Gen(e.clone()), e => ErrT::Gen(Box::new(e.leaf().clone())) } }
}
/// The numbers a text mentions, read both as decimal and as hexadecimal.
pub fn numbers(t: &str) -> Vec<u128> {
    let b = t.as_bytes();
    let (mut v, mut i) = (Vec::new(), 0);
    while i < b.len() {
        if !b[i].is_ascii_alphanumeric() { i += 1; continue }
        let from = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
        let w = t[from..i].replace('_', "");
        let neg = from > 0 && b[from - 1] == b'-';
        let sign = |n: u128| if neg { n.wrapping_neg() } else { n };
        if let Ok(n) = w.parse::<u128>() { v.push(sign(n)) }
        let h = w.strip_prefix("0x").or(w.strip_prefix("0X")).or(w.strip_prefix("U")).unwrap_or(&w);
        if let Ok(n) = u128::from_str_radix(h, 16) { v.push(sign(n)) }
    }
    v
}
/// Whether the texts of an error and its sources convey everything the error is about.
pub fn conveys(e: &ErrT, chain: &[String]) -> Result<(), String> {
    fn facts(e: &ErrT, f: &mut Vec<u128>) -> usize {
        1 + match e {
            ErrT::Item(i, e) => { f.push(*i as u128); return 1 + facts(e, f) }
            ErrT::Gen(e) if matches!(**e, ErrT::Disc(_)) => { facts(e, f); 0 }
            ErrT::Field(e) | ErrT::BadDisc(e) | ErrT::BadLen(e) | ErrT::BadItem(e) | ErrT::Value(e) | ErrT::Gen(e) => facts(e, f),
            ErrT::Char(c) => { f.push(*c as u128); 0 }
            ErrT::CStr(i) => { f.push(*i as u128); 0 }
            ErrT::Utf8(b, i) => { f.extend([*b as u128, *i as u128]); 0 }
            ErrT::Len { cap, len } => { f.extend([*cap as u128, *len as u128]); 0 }
            ErrT::Time(t) => { f.push(*t as u128); 0 }
            ErrT::Disc(d) => { f.push(*d); 0 }
            ErrT::Usize(n) => { f.push(*n as u128); 0 }
            ErrT::Isize(n) => { f.push(*n as u128); 0 }
            _ => 0,
        }
    }
    let mut f = Vec::new();
    let depth = facts(e, &mut f);
    if chain.len() < depth { return Err(format!("names {} causes rather than {}: {chain:?}", chain.len(), depth)) }
    // Every level, the outermost first, must say what is wrong, itself or by its sources.
    let said: Vec<u128> = chain.iter().flat_map(|t| numbers(t)).collect();
    for x in f {
        let narrow = |b: u32| x & ((1u128 << b) - 1);
        if !said.iter().any(|n| *n == x || (x >> 127 == 1 && (*n == narrow(8) || *n == narrow(16) || *n == narrow(32) || *n == narrow(64)))) { return Err(format!("does not mention {}: {chain:?}", x as i128)) }
    }
    if chain.iter().any(|t| t.trim().is_empty()) { return Err(format!("says nothing: {chain:?}")) }
    Ok(())
}
fn bx(e: ErrT) -> Box<ErrT> { Box::new(e) }
fn item(i: usize, e: ErrT) -> ErrT { ErrT::BadItem(bx(ErrT::Item(i, bx(e)))) }

// ---- reference encoder ----------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mk { Len, Disc, Bool, Char, Utf8, CStr, Nz, Int, Dur, Time }
#[derive(Clone, Copy, Debug)]
pub struct Mark { pub at: usize, pub len: usize, pub kind: Mk }

/// `held`: which cells, in the order they are met, are mutably borrowed.
#[derive(Default)]
pub struct Enc { pub out: Vec<u8>, pub marks: Vec<Mark>, pub held: Vec<bool>, pub cell: usize }
impl Enc {
    fn int(&mut self, v: u128, n: u8, kind: Mk) { self.marks.push(Mark { at: self.out.len(), len: n as usize, kind }); self.out.extend_from_slice(&v.to_le_bytes()[..n as usize]) }
    fn usz(&mut self, v: u128, kind: Mk) -> Result<(), ErrT> { if v > 65535 { return Err(ErrT::Usize(v as usize)) } self.int(v, 2, kind); Ok(()) }
    fn isz(&mut self, v: u128, kind: Mk) -> Result<(), ErrT> { let s = v as i128; if !(-32768..=32767).contains(&s) { return Err(ErrT::Isize(s as isize)) } self.int(v, 2, kind); Ok(()) }
    fn len(&mut self, n: usize) -> Result<(), ErrT> { self.usz(n as u128, Mk::Len).map_err(|e| ErrT::BadLen(bx(e))) }
    fn raw(&mut self, b: &[u8], kind: Mk) { self.marks.push(Mark { at: self.out.len(), len: b.len(), kind }); self.out.extend_from_slice(b) }

    pub fn put(&mut self, s: &S, t: &Tree) -> Result<(), ErrT> {
        match s {
            S::Unit => {}
            S::Int(n, _) => self.int(t.n(), *n, Mk::Int),
            S::Usz => self.usz(t.n(), Mk::Int)?,
            S::Isz => self.isz(t.n(), Mk::Int)?,
            S::Bool => self.int(t.n(), 1, Mk::Bool),
            S::Char => self.int(t.n(), 4, Mk::Char),
            S::Nz(i) => { let m = self.marks.len(); self.put(i, t)?; self.marks.truncate(m); let n = match **i { S::Int(n, _) => n as usize, _ => 2 }; self.marks.push(Mark { at: self.out.len() - n, len: n, kind: Mk::Nz }) }
            S::Str(_) => { self.len(t.b().len())?; self.raw(t.b(), Mk::Utf8) }
            S::CStr => { self.len(t.b().len())?; self.raw(t.b(), Mk::CStr) }
            S::Bytes(_) => { self.len(t.b().len())?; self.raw(t.b(), Mk::Int) }
            S::Seq(i, _) => { self.len(t.l().len())?; for (k, x) in t.l().iter().enumerate() { self.put(i, x).map_err(|e| item(k, e))? } }
            S::Arr(i, _) => for (k, x) in t.l().iter().enumerate() { self.put(i, x).map_err(|e| item(k, e))? },
            S::Prod(v) => for (f, x) in v.iter().zip(t.l()) { self.put(f, x)? },
            S::Opt(i) => { let (k, v) = t.v(); self.int(k as u128, 1, Mk::Bool); if k == 1 { self.put(i, &v[0])? } }
            S::Res(a, b) => { let (k, v) = t.v(); self.int(k as u128, 1, Mk::Bool); self.put(if k == 0 { a } else { b }, &v[0])? }
            S::Bnd(i) => { let (k, v) = t.v(); self.int(k as u128, 1, Mk::Disc); if k < 2 { self.put(i, &v[0]).map_err(|e| ErrT::Field(bx(e)))? } }
            S::Dur => { let l = t.l(); self.int(l[0].n(), 8, Mk::Dur); self.int(l[1].n(), 4, Mk::Dur) }
            S::Time => { let (s, n) = (t.l()[0].n() as i128, t.l()[1].n()); let s = if s < 0 && n > 0 { s + 1 } else { s }; self.int(s as u128, 8, Mk::Time) }
            S::Ip => { let (k, v) = t.v(); if k == 0 { self.int(4, 1, Mk::Disc); self.put(&ip4(), &v[0])? } else { self.int(6, 1, Mk::Disc); self.put(&ip6(), &v[0])? } }
            S::Sa => { let (k, v) = t.v(); if k == 0 { self.int(4, 1, Mk::Disc); self.put(&sa4(), &v[0])? } else { self.int(6, 1, Mk::Disc); self.put(&sa6(), &v[0])? } }
            S::Map(k, v) => { self.len(t.l().len())?; for (i, e) in t.l().iter().enumerate() { let e = e.l(); self.put(k, &e[0]).and_then(|_| self.put(v, &e[1])).map_err(|e| item(i, e))? } }
            S::Set(k) => { self.len(t.l().len())?; for (i, e) in t.l().iter().enumerate() { self.put(k, e).map_err(|e| item(i, e))? } }
            S::RefC(i) => { let k = self.cell; self.cell += 1; if self.held.get(k) == Some(&true) { return Err(ErrT::Borrow) } self.put(i, t).map_err(|e| ErrT::Value(bx(e)))? }
            S::Struct(v) => for (f, x) in v.iter().zip(t.l()) { self.put(f, x).map_err(|e| e.generic())? },
            S::Enum(r, vs) => {
                let (k, x) = t.v();
                let (d, fs) = &vs[k as usize];
                let m = self.marks.len();
                self.put(&r.schema(), &N(*d)).map_err(|e| ErrT::BadDisc(bx(e)))?;
                for mk in &mut self.marks[m..] { mk.kind = Mk::Disc }
                for (f, x) in fs.iter().zip(x) { self.put(f, x).map_err(|e| ErrT::Field(bx(e.generic())))? }
            }
            S::Rec(f) => self.put(&f(), t)?,
        }
        Ok(())
    }
}
pub fn ref_encode(s: &S, t: &Tree) -> Result<Enc, (ErrT, Vec<u8>)> {
    let mut e = Enc::default();
    match e.put(s, t) { Ok(()) => Ok(e), Err(x) => Err((x, e.out)) }
}

/// As `ref_encode`, while some cells are mutably borrowed.
pub fn ref_encode_held(s: &S, t: &Tree, held: Vec<bool>) -> Result<Enc, (ErrT, Vec<u8>)> {
    let mut e = Enc { held, ..Enc::default() };
    match e.put(s, t) { Ok(()) => Ok(e), Err(x) => Err((x, e.out)) }
}
/// Whether some value of this layout cannot be encoded.
pub fn refusable(s: &S) -> bool {
    match s {
        S::Usz | S::Isz | S::CStr | S::Str(None) | S::Bytes(None) => true,
        S::Nz(i) => refusable(i),
        S::Seq(i, c) => (c.is_none() && min_weight(i) <= 1) || refusable(i),
        S::Arr(i, n) => *n > 0 && refusable(i),
        S::Opt(i) | S::Bnd(i) | S::RefC(i) | S::Set(i) => refusable(i),
        S::Res(a, b) | S::Map(a, b) => refusable(a) || refusable(b),
        S::Prod(f) | S::Struct(f) => f.iter().any(refusable),
        S::Enum(r, v) => (*r == Repr::Usize && v.iter().any(|v| v.0 > 65535)) || (*r == Repr::Isize && v.iter().any(|v| !(-32768..=32767).contains(&(v.0 as i128)))) || v.iter().any(|v| v.1.iter().any(refusable)),
        _ => false,
    }
}
/// The same value with whatever cannot be encoded brought just within what can.
pub fn mend(src: &mut Src, s: &S, t: &Tree) -> Tree {
    let cut = |b: &[u8]| B(b[..b.len().min(65535)].to_vec());
    match (s, t) {
        (S::Usz, N(n)) => N((*n).min(65535)),
        (S::Isz, N(n)) => N((*n as i128).clamp(-32768, 32767) as u128),
        (S::Nz(i) | S::RefC(i), t) => mend(src, i, t),
        (S::Rec(f), t) => mend(src, &f(), t),
        (S::Str(None), B(b)) if b.len() > 65535 => { let mut n = 65535; while utf8_fault(&b[..n]).is_some() { n -= 1 } B(b[..n].to_vec()) }
        (S::CStr | S::Bytes(_), B(b)) => cut(b),
        (S::Seq(i, _), L(v)) => L(v.iter().take(65535).map(|x| mend(src, i, x)).collect()),
        (S::Arr(i, _), L(v)) => L(v.iter().map(|x| mend(src, i, x)).collect()),
        (S::Set(i), L(v)) => { let mut m = std::collections::BTreeMap::new(); for x in v { let x = mend(src, i, x); m.insert(key(&x), x); } L(m.into_values().collect()) }
        (S::Map(a, b), L(v)) => { let mut m = std::collections::BTreeMap::new(); for x in v { let x = x.l(); let k = mend(src, a, &x[0]); let y = mend(src, b, &x[1]); m.insert(key(&k), L(vec![k, y])); } L(m.into_values().collect()) }
        (S::Prod(f) | S::Struct(f), L(v)) => L(f.iter().zip(v).map(|(s, x)| mend(src, s, x)).collect()),
        (S::Opt(i) | S::Bnd(i), V(k, v)) => V(*k, v.iter().map(|x| mend(src, i, x)).collect()),
        (S::Res(a, b), V(k, v)) => V(*k, v.iter().map(|x| mend(src, if *k == 0 { a } else { b }, x)).collect()),
        (S::Enum(r, vs), V(k, v)) => {
            let enc = match r { Repr::Usize => vs[*k as usize].0 <= 65535, Repr::Isize => (-32768..=32767).contains(&(vs[*k as usize].0 as i128)), _ => true };
            if !enc { return gen(src, s, &Gen::default(), 20) }
            V(*k, vs[*k as usize].1.iter().zip(v).map(|(s, x)| mend(src, s, x)).collect())
        }
        (_, t) => t.clone(),
    }
}

// ---- reference decoder ----------------------------------------------------------------------

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum DErr { /** More bytes were needed. */ Eof, /** Complete so far, but invalid. */ Bad(ErrT) }
impl DErr { fn map(self, f: impl FnOnce(ErrT) -> ErrT) -> DErr { match self { DErr::Bad(e) => DErr::Bad(f(e)), e => e } } }
fn bad<T>(e: ErrT) -> Result<T, DErr> { Err(DErr::Bad(e)) }

pub struct Dec<'a> { pub b: &'a [u8], pub pos: usize }
impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], DErr> { if self.b.len() - self.pos < n { return Err(DErr::Eof) } let r = &self.b[self.pos..self.pos + n]; self.pos += n; Ok(r) }
    fn int(&mut self, n: u8, signed: bool) -> Result<u128, DErr> {
        let mut w = [0u8; 16];
        w[..n as usize].copy_from_slice(self.take(n as usize)?);
        let v = u128::from_le_bytes(w);
        let sh = 128 - 8 * n as u32;
        Ok(if signed { (((v << sh) as i128) >> sh) as u128 } else { v })
    }
    fn len(&mut self) -> Result<usize, DErr> { Ok(self.int(2, false)? as usize) }

    pub fn get(&mut self, s: &S) -> Result<Tree, DErr> {
        Ok(match s {
            S::Unit => L(vec![]),
            S::Int(n, sg) => N(self.int(*n, *sg)?),
            S::Usz => N(self.int(2, false)?),
            S::Isz => N(self.int(2, true)?),
            S::Bool => N((self.int(1, false)? != 0) as u128),
            S::Char => { let c = self.int(4, false)? as u32; if c > 0x10FFFF || (0xD800..0xE000).contains(&c) { return bad(ErrT::Char(c)) } N(c as u128) }
            S::Nz(i) => { let t = self.get(i)?; if t.n() == 0 { return bad(ErrT::NonZero) } t }
            S::Str(cap) => {
                let n = self.len()?;
                let d = self.take(n)?;
                if let Some(c) = cap { if n > *c { return bad(ErrT::BadLen(bx(ErrT::Len { cap: *c, len: n }))) } }
                if let Some(i) = utf8_fault(d) { return bad(ErrT::BadItem(bx(ErrT::Utf8(d[i], i)))) }
                B(d.to_vec())
            }
            S::CStr => { let n = self.len()?; let d = self.take(n)?; if let Some(i) = d.iter().position(|b| *b == 0) { return bad(ErrT::CStr(i)) } B(d.to_vec()) }
            S::Bytes(cap) => { let n = self.len()?; if let Some(c) = cap { if n > *c { return bad(ErrT::BadLen(bx(ErrT::Len { cap: *c, len: n }))) } } B(self.take(n)?.to_vec()) }
            S::Seq(i, cap) => {
                let n = self.len()?;
                if let Some(c) = cap { if n > *c { return bad(ErrT::BadLen(bx(ErrT::Len { cap: *c, len: n }))) } }
                let mut v = Vec::new();
                for k in 0..n { v.push(self.get(i).map_err(|e| e.map(|e| item(k, e)))?) }
                L(v)
            }
            S::Arr(i, n) => { let mut v = Vec::new(); for k in 0..*n { v.push(self.get(i).map_err(|e| e.map(|e| item(k, e)))?) } L(v) }
            S::Prod(f) => { let mut v = Vec::new(); for s in f { v.push(self.get(s)?) } L(v) }
            S::Opt(i) => if self.int(1, false)? != 0 { V(1, vec![self.get(i)?]) } else { V(0, vec![]) },
            S::Res(a, b) => { let k = self.int(1, false)? != 0; V(k as u32, vec![self.get(if k { b } else { a }).map_err(|e| e.map(|e| ErrT::Field(bx(e))))?]) }
            S::Bnd(i) => match self.int(1, false)? { k @ (0 | 1) => V(k as u32, vec![self.get(i).map_err(|e| e.map(|e| ErrT::Field(bx(e))))?]), 2 => V(2, vec![]), d => return bad(ErrT::Disc(d)) },
            S::Dur => {
                let (s, n) = (self.int(8, false)?, self.int(4, false)?);
                let (s, n) = (s + n / 1_000_000_000, n % 1_000_000_000);
                if s > u64::MAX as u128 { return bad(ErrT::DurOverflow) }
                L(vec![N(s), N(n)])
            }
            S::Time => L(vec![N(self.int(8, true)?), N(0)]),
            S::Ip => match self.int(1, false)? { 4 => V(0, vec![self.get(&ip4())?]), 6 => V(1, vec![self.get(&ip6())?]), d => return bad(ErrT::Disc(d)) },
            S::Sa => match self.int(1, false)? { 4 => V(0, vec![self.get(&sa4())?]), 6 => V(1, vec![self.get(&sa6())?]), d => return bad(ErrT::Disc(d)) },
            S::Map(k, v) => {
                let n = self.len()?;
                let mut m = std::collections::BTreeMap::new();
                for i in 0..n {
                    let a = self.get(k).map_err(|e| e.map(|e| item(i, e)))?;
                    let b = self.get(v).map_err(|e| e.map(|e| item(i, e)))?;
                    m.insert(key(&a), (a, b));
                }
                L(m.into_values().map(|(a, b)| L(vec![a, b])).collect())
            }
            S::Set(k) => {
                let n = self.len()?;
                let mut m = std::collections::BTreeMap::new();
                for i in 0..n { let a = self.get(k).map_err(|e| e.map(|e| item(i, e)))?; m.insert(key(&a), a); }
                L(m.into_values().collect())
            }
            S::RefC(i) => self.get(i)?,
            S::Struct(f) => { let mut v = Vec::new(); for s in f { v.push(self.get(s).map_err(|e| e.map(|e| e.generic()))?) } L(v) }
            S::Enum(r, vs) => {
                let d = self.get(&r.schema())?.n();
                let Some(k) = vs.iter().position(|v| v.0 == d) else { return bad(ErrT::Disc(d)) };
                let mut v = Vec::new();
                for s in &vs[k].1 { v.push(self.get(s).map_err(|e| e.map(|e| ErrT::Field(bx(e.generic()))))?) }
                V(k as u32, v)
            }
            S::Rec(f) => self.get(&f())?,
        })
    }
}
pub fn ref_decode(s: &S, b: &[u8]) -> Result<(Tree, usize), DErr> { let mut d = Dec { b, pos: 0 }; let t = d.get(s)?; Ok((t, d.pos)) }

/// A total order on keys, for canonical listings.
pub fn key(t: &Tree) -> Vec<u8> {
    fn go(t: &Tree, v: &mut Vec<u8>) {
        match t {
            N(n) => v.extend_from_slice(&n.to_be_bytes()),
            B(b) => { v.extend_from_slice(&(b.len() as u32).to_be_bytes()); v.extend_from_slice(b) }
            L(x) => { v.extend_from_slice(&(x.len() as u32).to_be_bytes()); for t in x { go(t, v) } }
            V(i, x) => { v.extend_from_slice(&i.to_be_bytes()); for t in x { go(t, v) } }
        }
    }
    let mut v = Vec::new();
    go(t, &mut v);
    v
}
/// The same value with maps and sets listed in canonical order.
pub fn canon(s: &S, t: Tree) -> Tree {
    if !has_map(s) { return t }
    match (s, t) {
        (S::Map(k, v), L(x)) => {
            let mut x: Vec<Tree> = x.into_iter().map(|e| match e { L(mut e) => { let b = e.pop().expect("value"); let a = e.pop().expect("key"); L(vec![canon(k, a), canon(v, b)]) } e => e }).collect();
            x.sort_by_cached_key(|e| key(&e.l()[0]));
            L(x)
        }
        (S::Set(k), L(x)) => { let mut x: Vec<Tree> = x.into_iter().map(|e| canon(k, e)).collect(); x.sort_by_cached_key(key); L(x) }
        (S::Seq(i, _) | S::Arr(i, _), L(x)) => L(x.into_iter().map(|e| canon(i, e)).collect()),
        (S::Prod(f) | S::Struct(f), L(x)) => L(x.into_iter().zip(f).map(|(e, s)| canon(s, e)).collect()),
        (S::Enum(_, vs), V(k, x)) => V(k, x.into_iter().zip(&vs[k as usize].1).map(|(e, s)| canon(s, e)).collect()),
        (S::Res(a, b), V(k, x)) => V(k, x.into_iter().map(|e| canon(if k == 0 { a } else { b }, e)).collect()),
        (S::Opt(i) | S::Bnd(i), V(k, x)) => V(k, x.into_iter().map(|e| canon(i, e)).collect()),
        (S::RefC(i), t) => canon(i, t),
        (_, t) => t,
    }
}
pub fn has_map(s: &S) -> bool {
    match s {
        S::Map(..) | S::Set(_) => true,
        S::Seq(i, _) | S::Arr(i, _) | S::Opt(i) | S::Bnd(i) | S::RefC(i) => has_map(i),
        S::Res(a, b) => has_map(a) || has_map(b),
        S::Prod(f) | S::Struct(f) => f.iter().any(has_map),
        S::Enum(_, v) => v.iter().any(|v| v.1.iter().any(has_map)),
        _ => false,
    }
}
/// What a type's encoding looks like, capacities and spelling aside: types that agree are interchangeable on the wire.
pub fn norm(s: &S) -> String {
    let cat = |f: &[S]| f.iter().map(norm).collect::<String>();
    match s {
        S::Unit => String::new(), S::Int(n, _) => format!("i{n} "), S::Usz | S::Isz => "i2 ".into(), S::Bool => "b ".into(), S::Char => "i4 ".into(), S::Nz(i) | S::RefC(i) => norm(i),
        S::Str(_) | S::CStr | S::Bytes(_) => "[i1 ]".into(), S::Seq(i, _) => format!("[{}]", norm(i)), S::Arr(i, n) => norm(i).repeat(*n), S::Prod(f) | S::Struct(f) => cat(f),
        S::Opt(i) => format!("o({})", norm(i)), S::Res(a, b) => format!("r({},{})", norm(a), norm(b)), S::Bnd(i) => format!("B({})", norm(i)), S::Dur => "i8 i4 ".into(), S::Time => "i8 ".into(),
        S::Ip => "ip ".into(), S::Sa => "sa ".into(), S::Map(k, v) => format!("[{}{}]", norm(k), norm(v)), S::Set(k) => format!("[{}]", norm(k)),
        S::Rec(f) => format!("rec{:x} ", *f as usize),
        S::Enum(r, v) => format!("e{r:?}({})", v.iter().map(|(d, f)| format!("{d}:{};", cat(f))).collect::<String>()),
    }
}

/// Offset of the first byte of the first ill-formed sequence (independent UTF-8 validator).
pub fn utf8_fault(d: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < d.len() {
        let b = d[i];
        let (n, lo, hi) = match b {
            0..=0x7F => (0, 0x80, 0xBF), 0xC2..=0xDF => (1, 0x80, 0xBF), 0xE0 => (2, 0xA0, 0xBF), 0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F), 0xF0 => (3, 0x90, 0xBF), 0xF1..=0xF3 => (3, 0x80, 0xBF), 0xF4 => (3, 0x80, 0x8F), _ => return Some(i),
        };
        for k in 1..=n {
            let Some(c) = d.get(i + k) else { return Some(i) };
            let ok = if k == 1 { (lo..=hi).contains(c) } else { (0x80..=0xBF).contains(c) };
            if !ok { return Some(i) }
        }
        i += n + 1;
    }
    None
}

/// The value that arrives when `t` is sent: only time points lose something.
pub fn arrives(s: &S, t: &Tree) -> Tree {
    let e = ref_encode(s, t).expect("encodable");
    ref_decode(s, &e.out).expect("reference codec agrees with itself").0
}

/// Longest possible encoding, if bounded.
pub fn max_size(s: &S) -> Option<usize> {
    fn all(v: &[S]) -> Option<usize> { v.iter().map(max_size).try_fold(0usize, |a, b| Some(a + b?)) }
    Some(match s {
        S::Unit => 0, S::Int(n, _) => *n as usize, S::Usz | S::Isz => 2, S::Bool => 1, S::Char => 4, S::Nz(i) => max_size(i)?,
        S::Str(c) | S::Bytes(c) => 2 + (*c)?, S::CStr => return None,
        S::Seq(i, c) => 2 + (*c)? * max_size(i)?, S::Arr(i, n) => n * max_size(i)?, S::Prod(v) | S::Struct(v) => all(v)?,
        S::Opt(i) | S::Bnd(i) => 1 + max_size(i)?, S::Res(a, b) => 1 + max_size(a)?.max(max_size(b)?), S::Dur => 12, S::Time => 8, S::Ip => 17, S::Sa => 27,
        S::Map(..) | S::Set(_) | S::Rec(_) => return None, S::RefC(i) => max_size(i)?,
        S::Enum(r, vs) => max_size(&r.schema())? + vs.iter().map(|v| all(&v.1)).try_fold(0, |a: usize, b| Some(a.max(b?)))?,
    })
}

// ---- generator ------------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct Gen {
    /// Per-mille chance, at each opportunity, of a value that cannot be encoded.
    pub unenc: u64,
    /// Per-mille chance of the longest or extreme choice.
    pub edge: u64,
    /// Allow very long sequences.
    pub long: bool,
}
impl Default for Gen { fn default() -> Self { Gen { unenc: 0, edge: 250, long: false } } }

pub fn gen_int(src: &mut Src, n: u8, signed: bool) -> u128 {
    let bits = 8 * n as u32;
    let mask = if n == 16 { u128::MAX } else { (1u128 << bits) - 1 };
    let v = match src.pick(&[6, 6, 4, 4, 3]) {
        4 => gen_special(src, n),
        0 => src.draw(4) as u128,
        1 => *src.of(&[1, 0xFF, 0x80, 0x7F, 0x100, 0x1FF, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0xD800, 0xFFFF_FFFF, 0x8000_0000, 1 << 63, (1 << 64) - 1, 1 << 64, 1 << 127, mask, mask >> 1, (mask >> 1) + 1, mask - 1, 0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10]),
        2 => (src.u64() as u128) << 64 | src.u64() as u128,
        _ => { let b = src.draw(bits as u64) as u32; let r = (src.u64() as u128) << 64 | src.u64() as u128; r >> (127 - b) }
    } & mask;
    if signed { let sh = 128 - bits; (((v << sh) as i128) >> sh) as u128 } else { v }
}
/// Values that mean something to someone: special addresses, ports, float bit patterns.
fn gen_special(src: &mut Src, n: u8) -> u128 {
    match n {
        16 => { let low = src.u64() as u32 as u128; *src.of(&[0xFFFF_0000_0000 | low, low, 1, 0, 0x64_FF9B << 96 | low, 0x2002 << 112 | low << 80, 0xFE80 << 112 | low, 0xFF02 << 112 | 1, 0x2001_0DB8 << 96 | low, 0xFC00 << 112 | low, 0xFFFF_0000_0000 | 0x7F00_0001, 0xFFFF_0000_0000]) }
        8 => *src.of(&[0x7FF0_0000_0000_0000u64, 0xFFF0_0000_0000_0000, 0x7FF8_0000_0000_0000, 0x7FF0_0000_0000_0001, 0xFFF8_0000_0000_0001, 0x7FF4_0000_0000_0000, 0xFFFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000, 1, 0x000F_FFFF_FFFF_FFFF, 0x3FF0_0000_0000_0000, 0x7FEF_FFFF_FFFF_FFFF]) as u128,
        4 => *src.of(&[0x7F80_0000u32, 0xFF80_0000, 0x7FC0_0000, 0x7F80_0001, 0xFFC0_0001, 0x7FA0_0000, 0x8000_0000, 1, 0x007F_FFFF, 0x3F80_0000, 0x7F00_0001, 0x0A00_0001, 0xA9FE_0001, 0xC0A8_0001, 0xE000_0001, 0xFFFF_FFFF, 0xAC10_0001]) as u128,
        _ => *src.of(&[0x1FFu32, 80, 443, 65535, 0x3C00, 0x7C00, 0x8000, 0xFEFF, 0xFFFE]) as u128,
    }
}
pub fn gen_char(src: &mut Src) -> u32 {
    match src.pick(&[4, 3, 2]) {
        0 => 97 + src.draw(26) as u32,
        1 => *src.of(&[0u32, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0xE9, 0xFEFF, 0x20, 0x0A, 0x0D, 0x09, 0x22, 0x27, 0x5C, 0x85, 0xA0, 0xAD, 0x301, 0x200D, 0x202E, 0x2028, 0xFFFE, 0xFDD0, 0x130, 0xDF, 0x41, 0x2F, 0xFF, 0x3FF, 0x400]),
        _ => { let v = src.draw(0x110000 - 0x800) as u32; if v >= 0xD800 { v + 0x800 } else { v } }
    }
}
fn gen_len(src: &mut Src, g: &Gen, cap: Option<usize>, item_weight: usize, budget: usize) -> usize {
    let room = budget / item_weight.max(1);
    let most = cap.unwrap_or(usize::MAX);
    let n = if src.chance(g.edge, 1000) {
        match cap {
            Some(c) if c <= room.max(8) => match src.below(3) { 0 => c, 1 => c.saturating_sub(1), _ => c / 2 },
            _ => *src.of(&[5usize, 8, 16, 31, 127, 128, 255, 256, 257, 300, 511]),
        }
    } else { src.pick(&[2, 3, 3, 2, 1]) };
    if g.long && cap.is_none() {
        // At and around the powers of two that buffers and chunks tend to have.
        if item_weight <= 1 && src.chance(20, 1000) { return *src.of(&[65535usize, 65534, 32768, 32767, 4096, 1024, 1025, 2048, 8192, 16385, 40000]) }
        if item_weight <= 6 && src.chance(8, 1000) { return *src.of(&[1024usize, 1025, 600, 2049, 4096, 513, 1023, 3000]) }
    }
    n.min(most).min(room.max(1)).min(most)
}
fn bytes(src: &mut Src, n: usize) -> Vec<u8> {
    if n <= 24 { (0..n).map(|_| if src.chance(1, 2) { src.draw(256) as u8 } else { *src.of(&[0u8, 1, 0x7F, 0x80, 0xFF, 0x20]) }).collect() }
    else { let mut r = crate::choice::Rng::new(src.u64()); (0..n).map(|_| r.next() as u8).collect() }
}
fn text(src: &mut Src, n: usize, exact: bool) -> Vec<u8> {
    let mut s = String::new();
    if n > 64 { let unit = char::from_u32(gen_char(src)).unwrap(); for _ in 0..src.below(4) { s.push('a') } while s.len() + unit.len_utf8() <= n { s.push(unit) } while exact && s.len() < n { s.push('z') } return s.into_bytes() }
    for _ in 0..n {
        let c = char::from_u32(gen_char(src)).unwrap();
        if s.len() + c.len_utf8() > n { if exact { while s.len() < n { s.push('z') } } break }
        s.push(c);
    }
    s.into_bytes()
}

/// A random value of the described type.
pub fn gen(src: &mut Src, s: &S, g: &Gen, budget: usize) -> Tree {
    src.open();
    let t = gen_(src, s, g, budget);
    src.close();
    t
}
fn gen_(src: &mut Src, s: &S, g: &Gen, budget: usize) -> Tree {
    match s {
        S::Unit => L(vec![]),
        S::Int(n, sg) => N(gen_int(src, *n, *sg)),
        S::Usz => N(if src.chance(g.unenc, 1000) { *src.of(&[65536u128, 65537, 1 << 31, 1 << 32, u64::MAX as u128, 0x1_0000_0001, 0x8000_0000_0000_0000, 131071, 70000]) } else { gen_int(src, 2, false) }),
        S::Isz => N(if src.chance(g.unenc, 1000) { *src.of(&[32768i128, -32769, 65535, 65536, -65536, i64::MAX as i128, i64::MIN as i128, 1 << 32, 40000, -40000]) as u128 } else { gen_int(src, 2, true) }),
        S::Bool => N(src.draw(2) as u128),
        S::Char => N(gen_char(src) as u128),
        S::Nz(i) => { let t = gen_(src, i, g, budget); if t.n() == 0 { N(1) } else { t } }
        S::Str(cap) => {
            if cap.is_none() && g.long && src.chance(25, 1000) { let n = *src.of(&[1024usize, 1025, 2047, 1500, 4097, 600, 3000]); return B(text(src, n, true)) }
            if cap.is_none() && src.chance(g.unenc, 2000) { let n = *src.of(&[65536usize, 65537, 70001]); let mut b = text(src, n, true); if b.len() < 65536 { b.resize(65536, b'q') } return B(b) }
            let n = gen_len(src, g, *cap, 1, 600); let e = src_bool(src); B(text(src, n, e))
        }
        S::CStr => {
            if src.chance(g.unenc, 2000) { return B(vec![b'c'; *src_of(src, &[65536usize, 65537, 131072])]) }
            let n = gen_len(src, g, None, 1, 600); let mut b = bytes(src, n); for x in &mut b { if *x == 0 { *x = 1 } } B(b)
        }
        S::Bytes(cap) => {
            if cap.is_none() && src.chance(g.unenc, 2000) { let n = *src_of(src, &[65536usize, 65537, 131072, 65536 + 256]); return B(bytes(src, n)) }
            let n = gen_len(src, g, *cap, 1, 600); B(bytes(src, n))
        }
        S::Seq(i, cap) => {
            let w = min_weight(i);
            if cap.is_none() && w <= 1 && src.chance(g.unenc, 3000) { let n = *src_of(src, &[65536usize, 65537, 131072]); let x = gen_(src, i, &Gen { unenc: 0, ..*g }, 8); return L(vec![x; n]) }
            let n = gen_len(src, g, *cap, w, budget.min(300));
            if n > 400 {
                // Few distinct items, but never the same one at the same remainder.
                let bad = g.unenc;
                let g = Gen { unenc: 0, long: false, ..*g };
                let k = *src.of(&[3usize, 1, 7]);
                let xs: Vec<Tree> = (0..k).map(|_| gen_(src, i, &g, 8)).collect();
                let mut l: Vec<Tree> = (0..n).map(|j| xs[j % k].clone()).collect();
                // An obstacle deep inside.
                if bad > 0 && refusable(i) && src.chance(400, 1000) { let j = match src.below(3) { 0 => n - 1, 1 => *src.of(&[255usize, 256, 257, 300]), _ => src.below(n) }; l[j] = gen_(src, i, &Gen { unenc: 700, ..g }, 8) }
                return L(l);
            }
            L((0..n).map(|_| gen(src, i, g, budget / (n + 1))).collect())
        }
        S::Arr(i, n) => L((0..*n).map(|_| gen(src, i, g, budget / (n + 1))).collect()),
        S::Prod(v) | S::Struct(v) => L(gen_fields(src, v, g, budget)),
        S::Opt(i) => if src.chance(2, 3) { V(1, vec![gen_(src, i, g, budget)]) } else { V(0, vec![]) },
        S::Res(a, b) => { let k = src.below(2) as u32; V(k, vec![gen_(src, if k == 0 { a } else { b }, g, budget)]) }
        S::Bnd(i) => { let k = src.below(3) as u32; if k == 2 { V(2, vec![]) } else { V(k, vec![gen_(src, i, g, budget)]) } }
        S::Dur => L(vec![N(gen_int(src, 8, false)), N(match src.pick(&[1, 1, 2]) { 0 => 0, 1 => *src.of(&[999_999_999u128, 1, 500_000_000, 256, 65536]), _ => src.draw(1_000_000_000) as u128 })]),
        S::Time => {
            let s = match src.pick(&[2, 2, 1]) { 0 => src.draw(4_000_000_000) as i64 - 1_000_000_000, 1 => *src.of(&[0i64, -1, 1, i64::MAX, i64::MIN, i64::MIN + 1, -2, 1 << 32, 1 << 31, -(1 << 31), -(1 << 40)]), _ => src.u64() as i64 };
            let n = match src.pick(&[2, 1, 1]) { 0 => 0, 1 => *src.of(&[1u64, 999_999_999, 500_000_000, 499_999_999]), _ => src.draw(1_000_000_000) };
            L(vec![N(s as i128 as u128), N(n as u128)])
        }
        S::Ip => if src.chance(1, 2) { V(1, vec![N(gen_int(src, 16, false))]) } else { V(0, vec![N(gen_int(src, 4, false))]) },
        S::Sa => if src.chance(1, 2) { V(1, vec![gen_(src, &sa6(), g, budget)]) } else { V(0, vec![gen_(src, &sa4(), g, budget)]) },
        S::Map(k, v) => {
            let n = map_len(src, g, k, min_weight(k) + min_weight(v), budget);
            let mut m = std::collections::BTreeMap::new();
            if n > 200 { let y: Vec<Tree> = (0..3).map(|_| gen_(src, v, &Gen { unenc: 0, long: false, ..*g }, 8)).collect(); let (a, st) = (src.u64() as u128, *src.of(&[1u128, 257, 65537, 3])); for j in 0..n { let a = N(int_of(k, a.wrapping_add(j as u128 * st))); m.insert(key(&a), (a, y[j % 3].clone())); } }
            else { for _ in 0..n { let a = gen(src, k, g, budget / (n + 1)); let b = gen(src, v, g, budget / (n + 1)); m.insert(key(&a), (a, b)); } }
            L(m.into_values().map(|(a, b)| L(vec![a, b])).collect())
        }
        S::Set(k) => {
            let n = map_len(src, g, k, min_weight(k), budget);
            let mut m = std::collections::BTreeMap::new();
            if n > 200 { let (a, st) = (src.u64() as u128, *src.of(&[1u128, 257, 65537, 3])); for j in 0..n { let a = N(int_of(k, a.wrapping_add(j as u128 * st))); m.insert(key(&a), a); } }
            else { for _ in 0..n { let a = gen(src, k, g, budget / (n + 1)); m.insert(key(&a), a); } }
            L(m.into_values().collect())
        }
        S::RefC(i) => gen_(src, i, g, budget),
        S::Rec(f) => if budget < 10 { least(&f()) } else { gen_(src, &f(), g, budget) },
        S::Enum(r, vs) => {
            let enc = |d: u128| match r { Repr::Usize => d <= 65535, Repr::Isize => (-32768..=32767).contains(&(d as i128)), _ => true };
            let ok: Vec<usize> = (0..vs.len()).filter(|k| enc(vs[*k].0)).collect();
            let no: Vec<usize> = (0..vs.len()).filter(|k| !enc(vs[*k].0)).collect();
            let k = if !no.is_empty() && src.chance(g.unenc * 3, 1000) { *src.of(&no) } else { *src.of(&ok) };
            V(k as u32, gen_fields(src, &vs[k].1, g, budget))
        }
    }
}
/// A chain passes most of its budget on, so that it grows long.
fn gen_fields(src: &mut Src, v: &[S], g: &Gen, budget: usize) -> Vec<Tree> {
    fn chain(s: &S) -> bool { match s { S::Rec(_) => true, S::Opt(i) | S::RefC(i) => chain(i), _ => false } }
    let links = v.iter().filter(|s| chain(s)).count();
    v.iter().map(|s| gen(src, s, g, if links == 1 && chain(s) { budget * 7 / 8 } else { budget / (v.len() + 1) })).collect()
}
fn map_len(src: &mut Src, g: &Gen, k: &S, w: usize, budget: usize) -> usize {
    if g.long && w <= 4 && matches!(k, S::Int(2.., _)) && src.chance(10, 1000) { return *src.of(&[256usize, 257, 300, 1000, 1024, 1025, 1500]) }
    gen_len(src, &Gen { long: false, ..*g }, None, 2, budget.min(200))
}
fn int_of(s: &S, v: u128) -> u128 { match s { S::Int(n, sg) => { let sh = 128 - 8 * *n as u32; if *sg { (((v << sh) as i128) >> sh) as u128 } else { v << sh >> sh } } _ => v } }
/// The smallest value, which contains no further one of its kind.
pub fn least(s: &S) -> Tree {
    match s {
        S::Unit => L(vec![]), S::Int(..) | S::Usz | S::Isz | S::Bool | S::Char => N(0), S::Nz(_) => N(1), S::Str(_) | S::CStr | S::Bytes(_) => B(vec![]),
        S::Seq(..) | S::Map(..) | S::Set(_) => L(vec![]), S::Arr(i, n) => L((0..*n).map(|_| least(i)).collect()), S::Prod(v) | S::Struct(v) => L(v.iter().map(least).collect()),
        S::Opt(_) => V(0, vec![]), S::Res(a, _) => V(0, vec![least(a)]), S::Bnd(_) => V(2, vec![]), S::Dur | S::Time => L(vec![N(0), N(0)]), S::Ip => V(0, vec![N(0)]), S::Sa => V(0, vec![L(vec![N(0), N(0)])]),
        S::RefC(i) => least(i), S::Rec(f) => least(&f()),
        S::Enum(_, vs) => { fn rec(s: &S) -> bool { match s { S::Rec(_) => true, S::Arr(i, _) | S::RefC(i) => rec(i), S::Prod(v) | S::Struct(v) => v.iter().any(rec), _ => false } } let k = vs.iter().position(|v| !v.1.iter().any(rec)).expect("a variant that ends"); V(k as u32, vs[k].1.iter().map(least).collect()) }
    }
}
fn src_of<'t, T>(src: &mut Src, xs: &'t [T]) -> &'t T { src.of(xs) }
fn src_bool(src: &mut Src) -> bool { src.chance(1, 2) }
pub fn min_weight(s: &S) -> usize { match s { S::Unit | S::Int(..) | S::Usz | S::Isz | S::Bool | S::Char | S::Nz(_) => 1, S::Arr(i, n) => 1 + n * min_weight(i), S::Prod(v) | S::Struct(v) => 1 + v.iter().map(min_weight).sum::<usize>(), _ => 4 } }

// ---- damage ---------------------------------------------------------------------------------

/// Damages `b` once, as a faulty transport or disk would. Returns the fault's name.
pub fn damage(src: &mut Src, b: &mut Vec<u8>, marks: &[Mark], other: &[u8]) -> &'static str {
    let live: Vec<&Mark> = marks.iter().filter(|m| m.len > 0 && m.at + m.len <= b.len()).collect();
    match src.pick(&[3, 3, 8, 2, 1, 1, 1, 1, 1]) {
        0 => { let n = src.below(b.len() + 1); b.truncate(n); "truncate" }
        1 if !b.is_empty() => { let i = src.below(b.len()); b[i] ^= 1 << src.below(8); "bit_flip" }
        2 if !live.is_empty() => {
            // Aim at one field; prefer the rarer kinds.
            let strange: Vec<&&Mark> = live.iter().filter(|m| m.kind != Mk::Int).collect();
            let m = **if !strange.is_empty() && src.chance(5, 6) { let i = src.below(strange.len()); strange[i] } else { let i = src.below(live.len()); &live[i] };
            let put = |b: &mut Vec<u8>, v: u128| b[m.at..m.at + m.len].copy_from_slice(&v.to_le_bytes()[..m.len]);
            match m.kind {
                Mk::Len => { let cur = u16::from_le_bytes([b[m.at], b[m.at + 1]]) as i64; let v = match src.below(6) { 0 => cur + 1, 1 => cur - 1, 2 => 0, 3 => 0xFFFF, 4 => cur + src.draw(9) as i64, _ => src.draw(65536) as i64 }; put(b, v as u16 as u128); "bad_length" }
                Mk::Bool => { let v = *src.of(&[2u8, 0xFF, 0x80, 1, 0, 3, 0xFE]); put(b, v as u128); "bad_bool" }
                Mk::Disc => { let v = match src.below(4) { 0 => src.draw(16) as u128, 1 => *src.of(&[u128::MAX, 0x80, 0xFF, 0xFFFF, 0x8000, 0x7FFF, 0x7F, 1 << 31, 1 << 63]), 2 => { let mut w = [0u8; 16]; w[..m.len].copy_from_slice(&b[m.at..m.at + m.len]); let v = u128::from_le_bytes(w); if src.chance(1, 2) { v.wrapping_add(1) } else { v.wrapping_sub(1) } } _ => src.u64() as u128 }; put(b, v); "bad_discriminant" }
                Mk::Char => { let v = match src.below(3) { 0 => *src.of(&[0xD800u32, 0xDFFF, 0xDBFF, 0xDC00, 0xDDFF, 0xDE00, 0xD7FF, 0xE000, 0x10FFFF, 0x110000, 0xFFFF_FFFF, 0x8000_0000, 0x1_0000, 0x11_FFFF, 0x7FFF_FFFF]), 1 => 0xD800 + src.draw(0x800) as u32, _ => src.u64() as u32 }; put(b, v as u128); "bad_char" }
                Mk::Utf8 => {
                    const BAD: [&[u8]; 16] = [b"\x80", b"\xFF", b"\xC0\x80", b"\xC1\xBF", b"\xE0\x80\x80", b"\xED\xA0\x80", b"\xED\xBF\xBF", b"\xF0\x80\x80\x80", b"\xF4\x90\x80\x80", b"\xF5\x80\x80\x80", b"\xC3", b"\xE2\x82", b"\xF0\x9F\x98", b"\xC3\x28", b"\xE2\x28\xA1", b"\xFE"];
                    let s = *src.of(&BAD);
                    // Anywhere; at the very end or the very beginning; where a chunk would meet the next.
                    let i = m.at + match src.pick(&[4, 3, 1, 2]) { 0 => src.below(m.len), 1 => m.len - 1 - src.below(m.len.min(5)), 2 => src.below(m.len.min(9)), _ => { let c = *src.of(&[1024usize, 8, 16, 64, 256, 4096]); let k = m.len / c; if k == 0 { m.len - 1 } else { ((1 + src.below(k)) * c).saturating_sub(src.below(4)).min(m.len - 1) } } };
                    for (k, c) in s.iter().enumerate() { if i + k < m.at + m.len { b[i + k] = *c } }
                    "bad_utf8"
                }
                Mk::CStr => { let i = m.at + src.below(m.len); b[i] = 0; "null_in_cstr" }
                Mk::Nz => { if src.chance(3, 4) { put(b, 0); "zeroed_nonzero" } else { let i = m.at + src.below(m.len); b[i] = 0; "bad_byte" } }
                Mk::Dur => { let v = *src.of(&[u128::MAX, 1_000_000_000, 999_999_999, 4_000_000_000, 0, 0x8000_0000_0000_0000]); put(b, v); "bad_duration" }
                Mk::Time => { let v = *src.of(&[1u128 << 63, u128::MAX, (1 << 63) - 1, 0, 1 << 62, (1 << 63) + 1]); put(b, v); "bad_time" }
                Mk::Int => { let i = m.at + src.below(m.len); b[i] = src.draw(256) as u8; "bad_byte" }
            }
        }
        3 => { let n = 1 + src.below(8); for _ in 0..n { let v = src.draw(256) as u8; b.push(v) } "extend" }
        4 if !other.is_empty() => { let i = src.below(b.len() + 1); let j = src.below(other.len()); b.truncate(i); b.extend_from_slice(&other[j..]); "splice" }
        5 if b.len() > 1 => { let i = src.below(b.len()); let n = 1 + src.below(b.len() - i); let c = b[i..i + n].to_vec(); let at = src.below(b.len()); for (k, x) in c.into_iter().enumerate() { b.insert(at + k, x) } "chunk_repeat" }
        6 if !b.is_empty() => { let i = src.below(b.len()); for x in &mut b[i..] { *x = 0 } "zero_tail" }
        7 if !b.is_empty() => { let i = src.below(b.len()); let n = 1 + src.below(b.len() - i); b.drain(i..i + n); "cut_out" }
        8 => { let n = src.below(40); *b = (0..n).map(|_| src.draw(256) as u8).collect(); "noise" }
        _ => { let v = src.draw(256) as u8; b.push(v); "extend" }
    }
}

/// A value of (nearly) the longest encoding its type allows.
pub fn gen_long(src: &mut Src, s: &S) -> Tree {
    src.open();
    let g = Gen { unenc: 0, edge: 600, long: false };
    let t = match s {
        S::Str(Some(c)) => B(text(src, *c, true)),
        S::Bytes(Some(c)) => B(bytes(src, *c)),
        S::Seq(i, Some(c)) => L((0..*c).map(|_| gen_long(src, i)).collect()),
        S::Arr(i, n) => L((0..*n).map(|_| gen_long(src, i)).collect()),
        S::Prod(v) | S::Struct(v) => L(v.iter().map(|s| gen_long(src, s)).collect()),
        S::Opt(i) => V(1, vec![gen_long(src, i)]),
        S::Bnd(i) => { let k = src.below(2) as u32; V(k, vec![gen_long(src, i)]) }
        S::Res(a, b) => {
            let (x, y) = (max_size(a), max_size(b));
            let k = if x == y { src.below(2) as u32 } else { (y > x) as u32 };
            V(k, vec![gen_long(src, if k == 0 { a } else { b })])
        }
        S::Ip | S::Sa => { let i = if matches!(s, S::Ip) { ip6() } else { sa6() }; V(1, vec![gen_(src, &i, &g, 100)]) }
        S::RefC(i) => gen_long(src, i),
        S::Enum(r, vs) => {
            let enc = |d: u128| match r { Repr::Usize => d <= 65535, Repr::Isize => (-32768..=32767).contains(&(d as i128)), _ => true };
            let size = |k: usize| vs[k].1.iter().map(max_size).try_fold(0usize, |a, b| Some(a + b?)).unwrap_or(0);
            let best = (0..vs.len()).filter(|k| enc(vs[*k].0)).map(size).max().unwrap_or(0);
            let ks: Vec<usize> = (0..vs.len()).filter(|k| enc(vs[*k].0) && size(*k) == best).collect();
            let k = *src.of(&ks);
            V(k as u32, vs[k].1.iter().map(|s| gen_long(src, s)).collect())
        }
        s => gen_(src, s, &g, 100),
    };
    src.close();
    t
}
