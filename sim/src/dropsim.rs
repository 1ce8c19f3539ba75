//! Who owns what (C04): containers of tracked elements decoded, encoded, copied and converted
//! with failures at every element, and the heap memory of every type under damaged input.
use crate::collsim::{history, Mode};
use crate::ctx::*;
use crate::ensure;
use crate::tok;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::Input;
use oct::encode::Output;
use oct::{SizedSlice, SizedStr, Slot};
use std::rc::Rc;

thread_local! { static TOKS: Rc<Vec<Ty>> = Rc::new(crate::zoo_derived::toks()); }

/// How an operation ended.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End { Done, Refused, Panicked, Injected }
/// Runs an operation that keeps nothing, and checks that it kept nothing.
fn balanced(cx: &mut Cx, what: &dyn Fn() -> String, panic_at: u64, op: &mut dyn FnMut() -> Result<bool, ()>) -> R<End> {
    let mut once = |n: u64| {
        let (t, h) = (tok::live(), crate::alloc::live());
        tok::panic_in(n);
        let r = guard_op(&mut *op);
        tok::panic_in(0);
        let end = match r { Ok(Ok(_)) => End::Done, Ok(Err(())) => End::Refused, Err(p) => if p.origin == Origin::Injected { End::Injected } else { End::Panicked } };
        let h2 = crate::alloc::live();
        (end, tok::live() - t, (h2.0 - h.0, h2.1 - h.1))
    };
    let (end, left, heap) = once(panic_at);
    cx.check();
    if let Some(b) = tok::take_bad() { return viol("own:dead", format!("{}: {b} ({end:?})", what())) }
    if let Some(e) = crate::alloc::take_error() { return viol(format!("heap:{e:?}"), format!("{}: the heap was misused: {e:?} ({end:?})", what())) }
    ensure!(left == 0, if left > 0 { "own:leak" } else { "own:lost" }, "{}: {left} more elements are alive afterwards ({end:?})", what());
    if heap != (0, 0) {
        // Something may be set up once; a leak happens again.
        let again = once(panic_at).2;
        ensure!(again == (0, 0), "own:heap", "{}: {} blocks with {} bytes were never returned ({end:?})", what(), again.0, again.1);
    }
    Ok(end)
}

/// Decoding containers of tracked elements.
fn decode(cx: &mut Cx, w: &mut World) -> R {
    let tys = TOKS.with(Rc::clone);
    for _ in 0..cx.src.range(1, 10) {
        cx.src.open();
        cx.step();
        let ty = cx.src.of(&tys);
        let t = gen(&mut cx.src, &ty.schema, &Gen::default(), 120);
        let e = ref_encode(&ty.schema, &t).ok().expect("encodable");
        let mut b = e.out.clone();
        let nz: Vec<&Mark> = e.marks.iter().filter(|m| m.kind == Mk::Nz).collect();
        let mut at = 0;
        let mut fault = "none";
        match cx.src.below(6) {
            0 => {}
            1 => if !nz.is_empty() { b[nz[cx.src.below(nz.len())].at] = 0; fault = "invalid_element" },
            2 => if !b.is_empty() { let n = cx.src.below(b.len()); b.truncate(n); fault = "truncate" },
            3 => { at = cx.src.range(1, 12) as u64; fault = "element_panic" }
            4 => fault = damage(&mut cx.src, &mut b, &e.marks, &[]),
            _ => { at = cx.src.range(1, 9) as u64; fault = damage(&mut cx.src, &mut b, &e.marks, &[]) }
        }
        let mut how = cx.src.below(4) as u8;
        if how == 3 { how = cx.src.below(DEC_AS as usize) as u8 }
        let slot = cx.src.chance(1, 6);
        cx.say(|| format!("decode {} from {}{}{}", ty.name, hex(&b), if fault != "none" { format!(", FAULT {fault}") } else { String::new() }, if at > 0 { format!(", element code panics at call {at}") } else { String::new() }));
        let what = || format!("decoding {} from {} ({fault}, panic at {at})", ty.name, hex(&b));
        let buf = w.gin.load(&b);
        let vt = ty.vt;
        let end = if slot {
            let mut s = vt.slot(b.len());
            let _ = s.copy(&b);
            balanced(cx, &what, at, &mut || s.read().map_err(|p| if p.origin == Origin::Injected { inject_panic(0) }).and_then(|r| r.map(|_| true).map_err(|_| ())))?
        } else { balanced(cx, &what, at, &mut || { let mut i = Input::new(&*buf); if how == 0 { vt.dec(&mut i) } else { vt.dec_as(&mut i, how) }.map(|_| true).map_err(|_| ()) })? };
        if fault != "none" { cx.fault(fault) }
        if end == End::Injected { cx.fault("user_panic") }
        let name = hash_str(ty.name);
        cx.note(name); cx.note(end as u64); cx.note(at.min(b.len() as u64));
        cx.state(name ^ (end as u64) << 8 ^ (at.min(12)) << 16 ^ hash_str(fault));
        cx.ev_bytes(&b);
        cx.ev(end as u64, 7);
        cx.src.close();
    }
    Ok(())
}
/// Encoding them, and copying into slots.
fn encode(cx: &mut Cx, w: &mut World) -> R {
    let tys = TOKS.with(Rc::clone);
    for _ in 0..cx.src.range(1, 8) {
        cx.src.open();
        cx.step();
        let ty = cx.src.of(&tys);
        let t = gen(&mut cx.src, &ty.schema, &Gen::default(), 80);
        let e = ref_encode(&ty.schema, &t).ok().expect("encodable");
        let view = cx.src.below(ty.vt.views() as usize) as u8;
        let short = cx.src.chance(1, 3);
        let n = if short { cx.src.below(e.out.len() + 1) } else { e.out.len() };
        let at = if cx.src.chance(1, 2) { cx.src.range(1, 10) as u64 } else { 0 };
        cx.say(|| format!("encode {} {} (view {view}) into {n} bytes{}", ty.name, t.brief(), if at > 0 { format!(", element code panics at call {at}") } else { String::new() }));
        let what = || format!("encoding {} {} (view {view}) into {n} bytes, panic at {at}", ty.name, t.brief());
        let out = w.gout.take(n, 0x5C);
        let vt = ty.vt;
        let slot = cx.src.chance(1, 4);
        let end = if slot { balanced(cx, &what, at, &mut || { let mut s = vt.slot(n); match s.write(&t, view % 2 == 1) { Err(p) if p.origin == Origin::Injected => inject_panic(0), Err(_) => Err(()), Ok(r) => r.map(|_| true).map_err(|_| ()) } })? }
            else { balanced(cx, &what, at, &mut || { let f = vt.mk(&t, view); let mut o = Output::new(&mut *out); f(&mut o).map(|_| true).map_err(|_| ()) })? };
        if n < e.out.len() { cx.fault("no_room") }
        if end == End::Injected { cx.fault("user_panic") }
        cx.note(hash_str(ty.name)); cx.note(end as u64);
        cx.ev(end as u64, n as u64);
        cx.src.close();
    }
    Ok(())
}
/// The heap under every supported type and damaged input.
fn heap(cx: &mut Cx, w: &mut World) -> R {
    let tys = w.tys.clone();
    for _ in 0..cx.src.range(1, 6) {
        cx.src.open();
        cx.step();
        let ty = cx.src.of(&tys);
        let t = gen(&mut cx.src, &ty.schema, &Gen::default(), 120);
        let e = match ref_encode(&ty.schema, &t) { Ok(e) => e, Err(_) => { cx.src.close(); continue } };
        let mut b = e.out.clone();
        let fault = if cx.src.chance(3, 4) { damage(&mut cx.src, &mut b, &e.marks, &[]) } else { "none" };
        cx.say(|| format!("decode {} from {} FAULT {fault}", ty.name, hex(&b)));
        let buf = w.gin.load(&b);
        let vt = ty.vt;
        let end = balanced(cx, &|| format!("decoding {} from {} ({fault})", ty.name, hex(&b)), 0, &mut || vt.dec(&mut Input::new(&*buf)).map(|_| true).map_err(|_| ()))?;
        if fault != "none" { cx.fault(fault) }
        if cx.src.chance(1, 3) {
            let (view, n) = (cx.src.below(ty.vt.views() as usize) as u8, cx.src.below(e.out.len() + 1));
            let out = w.gout.take(n, 0x5C);
            balanced(cx, &|| format!("encoding {} {} (view {view}) into {n} bytes", ty.name, t.brief()), 0, &mut || { let f = vt.mk(&t, view); let mut o = Output::new(&mut *out); f(&mut o).map(|_| true).map_err(|_| ()) })?;
        }
        cx.note(hash_str(ty.name)); cx.note(end as u64);
        cx.state(hash_str(ty.name) ^ (end as u64) << 8 ^ hash_str(fault));
        cx.ev_bytes(&b);
        cx.src.close();
    }
    Ok(())
}
fn conv<T: tok::Elem, const K: usize>(cx: &mut Cx, how: usize, n: usize) -> R {
    let n = n.min(K);
    let mk = move || -> SizedSlice<T, K> { (0..n).map(|k| T::mk(1 + k as u8)).collect() };
    let at = if cx.src.chance(1, 3) { cx.src.range(1, 2 * n + 1) as u64 } else { 0 };
    let what = || format!("converting a SizedSlice<{}, {K}> of {n} (way {how}, panic at {at})", T::NAME);
    let end = balanced(cx, &what, at, &mut || {
        let s = mk();
        match how {
            0 => drop(s.into_boxed_slice()),
            1 => { let mut v = s.into_vec(); v.push(T::mk(1)); v.truncate(1) }
            2 => { let v = Vec::from(s); let c = v.clone(); drop(v); drop(c) }
            3 => drop(Box::<[T]>::from(s)),
            4 => { let (b, l) = s.into_raw_parts(); drop(unsafe { SizedSlice::<T, K>::from_raw_parts(b, l) }) }
            5 => { let c = s.clone(); drop(s); drop(c) }
            6 => { for x in s { drop(x) } }
            7 => { let mut i = s.into_iter(); let mut c = Vec::with_capacity(K); let mut k = 0; while let Some(x) = if k % 2 == 0 { i.next() } else { i.next_back() } { k += 1; c.push(x) } }
            8 => { let c: std::collections::LinkedList<T> = s.into_iter().collect(); drop(c) }
            9 => { let x = std::cell::Cell::new(Some(s)); drop(x.take()) }
            10 => { let a: Vec<SizedSlice<T, K>> = vec![s.clone(), s]; drop(a) }
            _ => { if let Ok(c) = SizedSlice::<T, 2>::new(&s) { drop(c) } }
        }
        Ok(true)
    });
    // Collecting an iterator mid-way leaves one unexhausted only when nothing panics in it.
    let end = end?;
    if end == End::Injected { cx.fault("user_panic") }
    cx.note(how as u64 * 100 + n as u64);
    cx.ev(how as u64, end as u64);
    Ok(())
}
/// Conversions, with the memory they hand over.
fn convert(cx: &mut Cx) -> R {
    for _ in 0..cx.src.range(1, 8) {
        cx.src.open();
        cx.step();
        let (how, n) = (cx.src.below(12), if cx.src.chance(1, 8) { cx.src.below(301) } else { cx.src.below(10) });
        let k = cx.src.below(15);
        cx.say(|| format!("conversion {how} of {n} (kind {k})"));
        match k {
            0 => conv::<tok::Tok, 5>(cx, how, n)?, 1 => conv::<tok::Tok, 0>(cx, how, n)?, 2 => conv::<tok::Tok, 1>(cx, how, n)?, 3 => conv::<tok::ATok, 3>(cx, how, n)?, 4 => conv::<tok::Ztok, 4>(cx, how, n)?,
            5 => conv::<u16, 0>(cx, how, n)?, 6 => conv::<u16, 9>(cx, how, n)?, 7 => conv::<tok::Ztok, 0>(cx, how, n)?, 13 => conv::<tok::Tok, 300>(cx, how, n)?, 14 => conv::<tok::ATok, 70>(cx, how, n)?,
            8 => { let m = "é".repeat(n.min(4)); balanced(cx, &|| format!("converting SizedStr<8> {m:?} (way {how})"), 0, &mut || { let Ok(s) = SizedStr::<8>::new(&m) else { return Err(()) }; match how % 5 { 0 => drop(s.into_boxed_str()), 1 => { let mut t = s.into_string(); t.push('x') } 2 => drop(String::from(s)), 3 => drop(Box::<str>::from(s)), _ => drop(s.into_bytes().into_vec()) } Ok(true) })?; }
            9 => { let m = "a".repeat(n); balanced(cx, &|| format!("converting text {m:?} (way {how})"), 0, &mut || { let r = if how % 2 == 0 { SizedStr::<4>::try_from(m.clone()) } else { m.parse() }; r.map(|s| { drop(s.clone()); true }).map_err(|_| ()) })?; }
            10 | 11 => {
                let cap = *cx.src.of(&[0usize, 1, 8, 64, 300, 1024]);
                let len = cx.src.below(cap + 1);
                balanced(cx, &|| format!("a slot of {cap} bytes holding {len} (way {how})"), 0, &mut || {
                    let mut s = match how % 4 {
                        0 => Slot::<u64>::with_capacity(cap), 1 => Slot::<u64>::new(), 2 => Slot::<u64>::default(),
                        _ => { let b: Box<[u8]> = vec![7; cap].into(); if cap == 0 { Slot::<u64>::with_capacity(0) } else { unsafe { Slot::<u64>::from_raw_parts(Box::into_raw(b) as *mut u8, cap, len) } } }
                    };
                    if how % 3 == 0 { let _ = guard_op(|| s.write(5u64).map(|_| ())); }
                    if how % 3 == 1 { let _ = guard_op(|| s.copy_from_slice(&[1; 9])); }
                    Ok(true)
                })?;
            }
            _ => {
                // Texts and paths through derived accessors never allocate for good.
                let m = "1.2.3.4:5";
                balanced(cx, &|| "resolving a socket address".into(), 0, &mut || { use std::net::ToSocketAddrs; let Ok(s) = SizedStr::<16>::new(m) else { return Err(()) }; s.to_socket_addrs().map(|a| a.count() == 1).map_err(|_| ()) })?;
            }
        }
        cx.src.close();
    }
    Ok(())
}

pub fn c04(cx: &mut Cx, w: &mut World) -> R {
    let k = cx.src.pick(&[4, 8, 2, 2, 2]);
    cx.note(k as u64);
    if k == 0 { return history(cx, w, Mode::Own) }
    tok::reset();
    cx.forced = k == 4;
    crate::zoo::set_hashing(1 + cx.src.draw(5), cx.src.below(4) as u8);
    match k { 1 => decode(cx, w), 2 => encode(cx, w), 3 => heap(cx, w), _ => convert(cx) }
}
