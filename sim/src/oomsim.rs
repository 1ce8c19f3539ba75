//! Memory runs out (C14): every allocation of an operation is a place where it can stop. The
//! operation is first run to count them; then a chosen one (or it and all later ones) fails in a
//! process of its own, which may complete correctly, panic or abort, and nothing else.
use crate::alloc;
use crate::codec;
use crate::ctx::*;
use crate::sys::*;
use crate::tok;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::Input;
use oct::encode::Output;
use oct::{SizedSlice, SizedStr, Slot};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::*};

extern "C" { fn close(fd: c_int) -> c_int; }
static WINDOW: AtomicBool = AtomicBool::new(false);
pub fn in_window() -> bool { WINDOW.load(SeqCst) }
pub fn is_precondition(m: &str) -> bool { m.contains("unsafe precondition") || m.contains("null pointer dereference") || m.contains("misaligned pointer") }
/// A standard-library function was used outside its contract; only checked builds notice.
pub fn precondition(f: &str, l: u32) { report(&format!("{f}:{l}")); unsafe { _exit(24) } }
thread_local! { static SHM: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) }; static TOKS: Rc<Vec<Ty>> = Rc::new(crate::zoo_derived::toks()); }
const SHM_SIZE: usize = 4096;
fn report(m: &str) { let p = SHM.with(|s| s.get()); if p.is_null() { return } let n = m.len().min(SHM_SIZE - 8); unsafe { *(p as *mut u64) = n as u64; std::ptr::copy_nonoverlapping(m.as_ptr(), p.add(8), n) } }
fn reported() -> String { let p = SHM.with(|s| s.get()); unsafe { let n = *(p as *mut u64) as usize; let t = String::from_utf8_lossy(std::slice::from_raw_parts(p.add(8), n)).into_owned(); *(p as *mut u64) = 0; t } }

/// Prepares, calls its argument, operates, calls `alloc::settle`, and says what is wrong.
type Op<'a> = Box<dyn FnMut(&dyn Fn()) -> Result<(), String> + 'a>;

fn conv_op<T: tok::Elem, const K: usize>(how: usize, n: usize) -> Op<'static> {
    let n = n.min(K);
    Box::new(move |arm| {
        let want: Vec<u8> = (0..n).map(|k| T::norm(1 + (k % 250) as u8)).collect();
        let s: SizedSlice<T, K> = (0..n).map(|k| T::mk(1 + (k % 250) as u8)).collect();
        let check = |what: &str, got: &[T]| { let g: Vec<u8> = got.iter().map(|x| x.val()).collect(); if g == want { Ok(()) } else { Err(format!("{what} holds {g:?} rather than {want:?}")) } };
        arm();
        match how {
            0 => { let b = s.into_boxed_slice(); alloc::settle(); check("the boxed slice", &b) }
            1 => { let b = s.into_vec(); alloc::settle(); check("the vector", &b) }
            2 => { let b = Vec::from(s); alloc::settle(); check("the vector", &b) }
            3 => { let b = Box::<[T]>::from(s); alloc::settle(); check("the boxed slice", &b) }
            4 => { let b = s.clone(); alloc::settle(); check("the copy", &b)?; check("the original", &s) }
            5 => { let b: Vec<T> = s.into_iter().collect(); alloc::settle(); check("what was collected", &b) }
            6 => { let b: SizedSlice<T, K> = s.into_iter().rev().collect(); alloc::settle(); let mut r = b.into_vec(); r.reverse(); check("what was collected", &r) }
            7 => { let b = format!("{s:?}"); alloc::settle(); let w = format!("{:?}", &*s); if b == w { Ok(()) } else { Err(format!("printed as {b} rather than {w}")) } }
            8 => { let r = SizedSlice::<T, 3>::new(&s); alloc::settle(); match r { Ok(b) if n <= 3 => check("the copy", &b), Err(_) if n > 3 => check("the original", &s), Ok(_) => Err("a slice that does not fit was accepted".into()), Err(_) => Err("a slice that fits was refused".into()) } }
            _ => { let b = s.into_boxed_slice().into_vec().into_boxed_slice(); alloc::settle(); check("the boxed slice", &b) }
        }
    })
}
fn str_op<const K: usize>(how: usize, n: usize) -> Op<'static> {
    Box::new(move |arm| {
        let mut m = String::new();
        while m.len() < n { m.push(['a', 'é', '\u{20AC}', '\u{1D11E}'][m.len() % 4]) }
        while m.len() > K { m.pop(); }
        let s = SizedStr::<K>::new(&m).map_err(|_| "a text that fits was refused".to_string())?;
        let check = |got: &str| if got == m { Ok(()) } else { Err(format!("{got:?} instead of {m:?}")) };
        let m2 = m.clone();
        arm();
        match how {
            0 => { let b = s.into_boxed_str(); alloc::settle(); check(&b) }
            1 => { let b = s.into_string(); alloc::settle(); check(&b) }
            2 => { let b = String::from(s); alloc::settle(); check(&b) }
            3 => { let b = Box::<str>::from(s); alloc::settle(); check(&b) }
            4 => { let b = s.to_string(); alloc::settle(); check(&b) }
            5 => { let r = SizedStr::<K>::try_from(m2); alloc::settle(); match r { Ok(b) => check(&b), Err(_) => Err("a text that fits was refused".into()) } }
            6 => { let b = s.into_bytes().into_vec(); alloc::settle(); if b == m.as_bytes() { Ok(()) } else { Err(format!("{} instead of {m:?}", hex(&b))) } }
            _ => { let r = m2.parse::<SizedStr<K>>(); alloc::settle(); match r { Ok(b) => check(&b), Err(_) => Err("a text that fits was refused".into()) } }
        }
    })
}
/// `Slot` constructors.
fn slot_op(how: usize, cap: usize) -> Op<'static> {
    Box::new(move |arm| {
        arm();
        let mut s: Slot<(u64, u32)> = match how % 3 { 0 => Slot::with_capacity(cap), 1 => Slot::new(), _ => Slot::default() };
        alloc::settle();
        let want = if how % 3 == 0 { cap } else { 12 };
        if s.capacity() != want || s.len() != 0 || s.as_mut_slice().len() != want { return Err(format!("a slot for {want} bytes has {} and {} in use", s.capacity(), s.len())) }
        if s.as_mut_slice().iter().any(|b| *b != 0) { return Err("a new slot's memory is not zeroed".into()) }
        if want >= 12 { if s.write((5u64, 7u32)).is_err() || s.as_slice() != [5, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0] { return Err("a new slot does not take a value".into()) } }
        for (i, b) in s.as_mut_slice().iter_mut().enumerate() { *b = i as u8 }
        Ok(())
    })
}

fn case<'a>(cx: &mut Cx, w: &World) -> (String, u64, Op<'a>) {
    match cx.src.pick(&[10, 3, 3, 2, 4, 2, 2]) {
        k @ (0 | 1 | 2) => {
            let tys = if k == 1 { TOKS.with(Rc::clone) } else { w.tys.clone() };
            // Half of the time among the types that own memory.
            let ty = { let mut ty = cx.src.of(&tys); for _ in 0..3 { if ty.name.contains(['V', 'B', 'L', 'H', 'R', 'A', 'M', 'C']) || ty.name.contains("tr") { break } ty = cx.src.of(&tys) } ty };
            let budget = *cx.src.of(&[40usize, 120, 400]);
            let t = gen(&mut cx.src, &ty.schema, &Gen::default(), budget);
            let e = match ref_encode(&ty.schema, &t) { Ok(e) => e, Err((e, _)) => panic!("model cannot encode {} {}: {e:?}", ty.name, t.brief()) };
            let mut b = e.out.clone();
            if cx.src.chance(1, 5) { let f = damage(&mut cx.src, &mut b, &e.marks, &[]); cx.fault(f) }
            let exp = codec::expect(&ty.schema, &b);
            let (vt, name, schema) = (ty.vt, ty.name, ty.schema.clone());
            let how = if cx.src.chance(1, 4) { cx.src.below(DEC_AS as usize) as u8 } else { 0 };
            let slot = k == 2;
            let what = format!("decoding {name} from {} (as {})", hex(&b), if slot { "read from a slot".into() } else { how.to_string() });
            let id = hash_str(name) ^ (how as u64) << 4 ^ slot as u64;
            (what, id, Box::new(move |arm| {
                let (got, used) = if slot {
                    let mut s = vt.slot(b.len());
                    let _ = s.copy(&b);
                    arm();
                    (s.read(), None)
                } else {
                    let mut i = Input::new(&b);
                    arm();
                    let r = guard_op(|| if how == 0 { vt.dec(&mut i) } else { vt.dec_as(&mut i, how) });
                    alloc::settle();
                    (r, Some(i.position()))
                };
                alloc::settle();
                if got.is_err() && in_window() { return Ok(()) }
                codec::judge(name, &schema, &b, exp.clone(), got, used, false).map(|_| ()).map_err(|v| v.msg)
            }))
        }
        3 => {
            let ty = cx.src.of(&w.tys).clone();
            let t = gen(&mut cx.src, &ty.schema, &Gen::default(), 80);
            let Ok(e) = ref_encode(&ty.schema, &t) else { panic!("model cannot encode {}", ty.name) };
            let view = cx.src.below(ty.vt.views() as usize) as u8;
            let (vt, name, schema, maps) = (ty.vt, ty.name, ty.schema.clone(), ty.maps);
            (format!("encoding {name} {} (view {view})", t.brief()), hash_str(name) ^ 0xE, Box::new(move |arm| {
                let f = vt.mk(&t, view);
                let mut buf = vec![0x5C; e.out.len() + 8];
                let mut o = Output::new(&mut buf);
                arm();
                let r = f(&mut o);
                alloc::settle();
                let n = o.position();
                if let Err(e) = r { return Err(format!("refused with {e:?}")) }
                if !codec::same_encoding(&schema, maps, &e.out, &buf[..n]) || buf[n..].iter().any(|b| *b != 0x5C) { return Err(format!("encoded as {} rather than {}", hex(&buf), hex(&e.out))) }
                Ok(())
            }))
        }
        4 => {
            let (k, how, n) = (cx.src.below(9), cx.src.below(10), *cx.src.of(&[1usize, 0, 2, 3, 5, 9, 64, 300, 1000]));
            let op = match k { 0 => conv_op::<u16, 9>(how, n), 1 => conv_op::<u16, 1000>(how, n), 2 => conv_op::<tok::Tok, 5>(how, n), 3 => conv_op::<tok::Tok, 64>(how, n), 4 => conv_op::<tok::ATok, 3>(how, n), 5 => conv_op::<tok::Ztok, 4>(how, n), 6 => conv_op::<u16, 0>(how, n), 7 => conv_op::<u16, 1>(how, n), _ => conv_op::<tok::ATok, 9>(how, n) };
            (format!("converting a SizedSlice (kind {k}) of {n} (way {how})"), (k * 16 + how) as u64, op)
        }
        5 => {
            let (k, how, n) = (cx.src.below(3), cx.src.below(8), *cx.src.of(&[1usize, 0, 2, 8, 15, 64, 300]));
            let op = match k { 0 => str_op::<8>(how, n), 1 => str_op::<64>(how, n), _ => str_op::<400>(how, n) };
            (format!("converting a SizedStr (kind {k}) of {n} (way {how})"), (k * 16 + how) as u64 ^ 0x500, op)
        }
        _ => {
            let (how, cap) = (cx.src.below(3), *cx.src.of(&[1usize, 0, 12, 64, 511, 4096, 70000]));
            (format!("making a slot of {cap} (way {how})"), (how * 8) as u64 ^ 0x900 ^ cap as u64, slot_op(how, cap))
        }
    }
}

pub fn c14(cx: &mut Cx, w: &mut World) -> R {
    if SHM.with(|s| s.get()).is_null() { SHM.with(|s| s.set(map(SHM_SIZE, true))) }
    tok::reset();
    crate::zoo::set_hashing(1 + cx.src.draw(3), cx.src.below(4) as u8);
    let near: Vec<Box<[u8]>> = (0..6u8).map(|k| vec![k ^ 0x3C; 1 + 11 * k as usize].into()).collect();
    let kept: SizedSlice<tok::Tok, 4> = (1..4).map(tok::Tok::new).collect();
    for _ in 0..cx.src.range(1, 3) {
        cx.src.open();
        let (what, id, mut op) = case(cx, w);
        // Counted in the second run: something may be set up once.
        let mut n = 0;
        for _ in 0..2 {
            let start = Cell::new(0);
            let r = guard_op(|| op(&|| start.set(alloc::begin())));
            if let Ok(Err(m)) = r { return viol("oom:without", format!("{what}, with memory to spare: {m}")) }
            n = alloc::settled().saturating_sub(start.get());
            if r.is_err() && start.get() == 0 { n = 0 }
        }
        if n == 0 { cx.probe("no_allocation"); cx.src.close(); continue }
        for _ in 0..cx.src.range(1, 3) {
            cx.src.open();
            cx.step();
            let (k, sticky) = (cx.src.draw(n), cx.src.chance(1, 2));
            cx.say(|| format!("{what}, FAULT allocation {} of {n} fails{}", k + 1, if sticky { " and all later ones" } else { "" }));
            let end = in_child(20, || {
                unsafe { close(2); }
                WINDOW.store(true, SeqCst);
                let r = guard_op(|| op(&|| alloc::fail_in(k as i64, sticky)));
                alloc::fail_off();
                let failed = alloc::failed() > 0;
                alloc::sweep();
                if let Some(e) = alloc::take_error() { report(&format!("the heap was misused: {e:?}")); return 21 }
                if near.iter().enumerate().any(|(k, b)| b.len() != 1 + 11 * k || b.iter().any(|x| *x != k as u8 ^ 0x3C)) { report("memory allocated earlier was changed"); return 22 }
                if kept.len() != 3 || kept.iter().enumerate().any(|(k, t)| t.get() != k as u8 + 1) { report("elements made earlier were changed"); return 22 }
                if let Some(b) = tok::take_bad() { report(b); return 22 }
                match r { Ok(Err(m)) => { report(&m); 20 } Ok(Ok(())) => if failed { 11 } else { 12 }, Err(_) => 10 }
            });
            cx.check();
            let code = match end {
                End::Code(c @ (10 | 11)) => { cx.fault(if sticky { "memory_exhausted" } else { "allocation_failed" }); c }
                End::Code(12) => { cx.probe("fault_not_reached"); 12 }
                End::Signal(6) => { cx.fault(if sticky { "memory_exhausted" } else { "allocation_failed" }); cx.probe("aborted"); 6 }
                End::Code(20) => return viol("oom:wrong", format!("{what} went on after allocation {} of {n} failed: {}", k + 1, reported())),
                End::Code(24) => return viol("oom:unchecked", format!("{what} used memory it did not get when allocation {} of {n} failed (at {})", k + 1, reported())),
                End::Code(c) => return viol("oom:corrupt", format!("{what}, when allocation {} of {n} failed: {} ({c})", k + 1, reported())),
                End::Signal(s) => return viol("oom:crash", format!("{what} used memory it did not get when allocation {} of {n} failed: {}", k + 1, sig_name(s))),
            };
            if code == 10 { cx.probe("panicked") }
            if code == 11 { cx.probe("completed") }
            cx.note(id); cx.note(k.min(40) << 8 | (sticky as u64) << 7 | code as u64);
            cx.state(id ^ (k.min(60)) << 32);
            cx.ev(id ^ k << 8, code as u64 | n << 8);
            cx.src.close();
        }
        cx.src.close();
    }
    Ok(())
}
