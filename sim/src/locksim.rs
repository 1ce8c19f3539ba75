//! Encoding what other threads are using (C05): real threads on the simulated machine of `sched`
//! update, read and encode shared locks, lazy values and atomics, with panics while locked,
//! failing and panicking encodings, exhausted output, spurious wake-ups and preemption between
//! instructions. Every state a value really had is recorded; every encoding has to be one of them.
use crate::ctx::*;
use crate::sched::{self, point, uninterrupted};
use crate::world::World;
use oct::encode::{Encode, Output};
use oct::Slot;
use std::cell::{Cell, LazyCell, UnsafeCell};
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, PoisonError, RwLock, TryLockError};

/// The error of user code.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Boom(u32);
/// A record that takes several steps to update and to encode.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Rec { a: u16, b: u16, c: u16 }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Flt { No, Err(u32), Panic(u32), Short(usize) }
thread_local! { static FAULT: Cell<(u8, u32)> = const { Cell::new((0, 0)) } }
/// User code runs: others may get a turn, and it may fail.
fn user() -> Result<(), Boom> {
    point();
    let (k, n) = FAULT.with(|f| f.get());
    if k != 0 {
        if n <= 1 { FAULT.with(|f| f.set((0, 0))); if k == 1 { return Err(Boom(7)) } inject_panic(7) }
        FAULT.with(|f| f.set((k, n - 1)));
    }
    Ok(())
}
fn put(o: &mut Output, v: u16) { let Ok(()) = v.encode(o); }
impl Encode for Rec {
    type Error = Boom;
    fn encode(&self, o: &mut Output) -> Result<(), Boom> { user()?; put(o, self.a); user()?; put(o, self.b); user()?; put(o, self.c); user() }
}
impl Rec {
    fn of(v: u16) -> Rec { Rec { a: v, b: v, c: v } }
    fn bytes(&self, v: &mut Vec<u8>) { for x in [self.a, self.b, self.c] { v.extend_from_slice(&x.to_le_bytes()) } }
}
fn listed(r: &[Rec]) -> Vec<u8> { let mut v = (r.len() as u16).to_le_bytes().to_vec(); for x in r { x.bytes(&mut v) } v }
fn single(r: &Rec) -> Vec<u8> { let mut v = vec![]; r.bytes(&mut v); v }

static INITS: AtomicU32 = AtomicU32::new(0);
static INIT_PANICS: AtomicBool = AtomicBool::new(false);
fn init() -> Rec {
    INITS.fetch_add(1, Ordering::SeqCst);
    point();
    point();
    if INIT_PANICS.load(Ordering::SeqCst) { inject_panic(8) }
    Rec::of(7)
}

macro_rules! atoms { ($($k:ident $a:ident $t:ty, |$v:ident| $e:expr;)*) => {
    enum Atom { $($k($a)),* }
    const ATOMS: usize = [$(stringify!($k)),*].len();
    impl Atom {
        fn new(i: usize) -> Atom { let mut n = 0; $(if n == i { return Atom::$k($a::new((|$v: u8| -> $t { $e })(0))) } n += 1;)* let _ = n; Atom::U64(AtomicU64::new(0)) }
        fn store(&self, v: u8, how: u8) { match self { $(Atom::$k(x) => { let v = (|$v: u8| -> $t { $e })(v); if how == 0 { x.store(v, Ordering::SeqCst) } else { x.swap(v, Ordering::SeqCst); } }),* } }
        fn bytes(&self, v: u8) -> Vec<u8> { match self { $(Atom::$k(_) => wire((|$v: u8| -> $t { $e })(v) as i128, stringify!($k))),* } }
        fn encode(&self, o: &mut Output) { match self { $(Atom::$k(x) => { if x.encode(o).is_err() { unreachable!() } }),* } }
        fn name(&self) -> &'static str { match self { $(Atom::$k(_) => stringify!($a)),* } }
    }
} }
/// How an atomic number of the given kind is laid out.
fn wire(x: i128, k: &str) -> Vec<u8> { let n = match k { "Bool" | "U8" | "I8" => 1, "U16" | "I16" | "Us" | "Is" => 2, "U32" | "I32" => 4, _ => 8 }; x.to_le_bytes()[..n].to_vec() }
atoms! {
    U64 AtomicU64 u64, |v| v as u64 * 0x0101_0101_0101_0101; I64 AtomicI64 i64, |v| (v as u64 * 0x0101_0101_0101_0101) as i64;
    U32 AtomicU32 u32, |v| v as u32 * 0x0101_0101; I32 AtomicI32 i32, |v| (v as u32 * 0x0101_0101) as i32;
    U16 AtomicU16 u16, |v| v as u16 * 0x0101; I16 AtomicI16 i16, |v| (v as u16 * 0x0101) as i16;
    U8 AtomicU8 u8, |v| v; I8 AtomicI8 i8, |v| v as i8; Bool AtomicBool bool, |v| v & 1 == 1;
    Us AtomicUsize usize, |v| v as usize * 0x0101; Is AtomicIsize isize, |v| (v & 0x7F) as isize * 0x0101;
}

enum Obj { Mx(Mutex<Rec>), Rw(RwLock<Rec>), MxS(Box<Mutex<[Rec]>>), RwS(Box<RwLock<[Rec]>>), RwMx(RwLock<Mutex<Rec>>), MxV(Mutex<Vec<RwLock<Rec>>>), Lz(LazyLock<Rec>), At(Atom) }
struct Thing {
    obj: Obj,
    /// The states it really had, oldest first.
    commits: UnsafeCell<Vec<Vec<u8>>>,
    /// Operations between asking for it and having let go of it.
    inside: Cell<u32>,
    writers: bool,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Enc { o: usize, via: u8, fault: Flt, step: Option<(i64, i64)>, own: bool, signal: Option<u32> },
    Mut { o: usize, panic_at: u32, how: u8 },
    Hold { o: usize, n: u32 },
    Until { o: usize, c: u32 },
    Try { o: usize },
    Local { n: u32 },
}
struct World5 { things: Vec<Thing>, viol: UnsafeCell<Option<Viol>>, log: UnsafeCell<Vec<String>>, verbose: bool, version: Cell<u16>, judged: Cell<u64>, overlapped: Cell<u64>, faults: UnsafeCell<Vec<&'static str>>, digest: Cell<u64> }
// Only the thread holding the baton touches it.
unsafe impl Sync for World5 {}
unsafe impl Send for World5 {}
#[allow(clippy::mut_from_ref)]
impl World5 {
    fn fail(&self, class: &str, msg: String) { let v = unsafe { &mut *self.viol.get() }; if v.is_none() { *v = Some(Viol { class: class.into(), msg }) } }
    fn say(&self, f: impl FnOnce() -> String) { if self.verbose { uninterrupted(|| unsafe { (*self.log.get()).push(format!("thread {}: {}", sched::me().unwrap_or(9), f())) }) } }
    fn fault(&self, k: &'static str) { unsafe { (*self.faults.get()).push(k) } }
    fn ev(&self, a: u64) { self.digest.set(crate::choice::mix(self.digest.get(), a)) }
}
impl Thing {
    fn commits(&self) -> &Vec<Vec<u8>> { unsafe { &*self.commits.get() } }
    fn commit(&self, b: Vec<u8>) { uninterrupted(|| unsafe { (*self.commits.get()).push(b) }) }
    fn name(&self) -> &'static str { match &self.obj { Obj::Mx(_) => "Mutex", Obj::Rw(_) => "RwLock", Obj::MxS(_) => "Mutex<[_]>", Obj::RwS(_) => "RwLock<[_]>", Obj::RwMx(_) => "RwLock<Mutex<_>>", Obj::MxV(_) => "Mutex<Vec<RwLock<_>>>", Obj::Lz(_) => "LazyLock", Obj::At(a) => a.name() } }
    /// Whether nobody holds it.
    fn is_free(&self) -> bool {
        fn m<T: ?Sized>(x: &Mutex<T>) -> bool { !matches!(x.try_lock(), Err(TryLockError::WouldBlock)) }
        fn r<T: ?Sized>(x: &RwLock<T>) -> bool { !matches!(x.try_write(), Err(TryLockError::WouldBlock)) }
        match &self.obj {
            Obj::Mx(x) => m(x), Obj::MxS(x) => m(x), Obj::Rw(x) => r(x), Obj::RwS(x) => r(x),
            Obj::RwMx(x) => r(x) && m(&x.read().unwrap_or_else(PoisonError::into_inner)),
            Obj::MxV(x) => m(x) && x.lock().unwrap_or_else(PoisonError::into_inner).iter().all(r),
            Obj::Lz(_) | Obj::At(_) => true,
        }
    }
    fn encode(&self, o: &mut Output, via: u8) -> Result<(), Option<Boom>> {
        fn go<T: Encode<Error = E> + ?Sized, E>(x: &T, o: &mut Output, via: u8, f: fn(E) -> Option<Boom>) -> Result<(), Option<Boom>> {
            match via { 0 => x.encode(o), 1 => (&&x).encode(o), _ => std::borrow::Borrow::<T>::borrow(x).encode(o) }.map_err(f)
        }
        fn seq<L, I: InnerBoom>(e: oct::error::CollectionEncodeError<L, I>) -> Option<Boom> { match e { oct::error::CollectionEncodeError::BadItem(e) => Some(e.boom()), _ => None } }
        match &self.obj {
            Obj::Mx(x) => go(x, o, via, Some), Obj::Rw(x) => go(x, o, via, Some), Obj::RwMx(x) => go(x, o, via, Some), Obj::Lz(x) => go(x, o, via, Some),
            Obj::MxS(x) => go(&**x, o, via, seq), Obj::RwS(x) => go(&**x, o, via, seq), Obj::MxV(x) => go(x, o, via, seq),
            Obj::At(a) => { a.encode(o); Ok(()) }
        }
    }
}
trait InnerBoom { fn boom(self) -> Boom; }
impl InnerBoom for oct::error::ItemEncodeError<usize, Boom> { fn boom(self) -> Boom { self.error } }
impl InnerBoom for (usize, Boom) { fn boom(self) -> Boom { self.1 } }

fn encode_op(w: &World5, o: usize, via: u8, fault: Flt, step: Option<(i64, i64)>, own: bool) {
    let t = &w.things[o];
    let mut buf = [0x5Cu8; 64];
    let cap = if let Flt::Short(n) = fault { n } else { 64 };
    let mut out = Output::new(&mut buf[..cap]);
    FAULT.with(|f| f.set(match fault { Flt::Err(n) => (1, n), Flt::Panic(n) => (2, n), _ => (0, 0) }));
    t.inside.set(t.inside.get() + 1);
    let lo = t.commits().len() - 1;
    let sw = sched::sim().switches;
    w.say(|| format!("encode {} {o} (way {via}){}{}", t.name(), if fault != Flt::No { format!(", FAULT {fault:?}") } else { String::new() }, if step.is_some() { ", preempted between instructions" } else { "" }));
    let r = guard_op(|| {
        let g = if own { match &t.obj { Obj::Rw(x) => Some(x.read().unwrap_or_else(PoisonError::into_inner)), _ => None } } else { None };
        if let Some((total, first)) = step { sched::step_from_here(total, first) }
        let r = t.encode(&mut out, via);
        sched::step_off();
        drop(g);
        r
    });
    sched::step_off();
    FAULT.with(|f| f.set((0, 0)));
    let pos = out.position();
    drop(out);
    uninterrupted(|| {
        t.inside.set(t.inside.get() - 1);
        let hi = t.commits().len() - 1;
        w.judged.set(w.judged.get() + 1);
        let what = || format!("encoding {} {o} ({fault:?})", t.name());
        if sched::sim().switches != sw { w.overlapped.set(w.overlapped.get() + 1) }
        w.ev((hi - lo) as u64 | (pos as u64) << 16);
        let lazy_dead = matches!(t.obj, Obj::Lz(_)) && INIT_PANICS.load(Ordering::SeqCst);
        match (&r, fault) {
            (Ok(Ok(())), _) => {
                let got = &buf[..pos];
                w.say(|| format!("encoded {o} as {}", hex(got)));
                if lazy_dead { return w.fail("lock:lazy", format!("{}: succeeded although its initialiser panicked", what())) }
                if !t.commits()[lo..=hi].iter().any(|c| c == got) {
                    let mixed = if t.commits().iter().any(|c| c == got) { "which it had only before or after" } else { "which it never had" };
                    return w.fail("lock:snapshot", format!("{} gave {}, {mixed}; meanwhile it was {}", what(), hex(got), t.commits()[lo..=hi].iter().map(|c| hex(c)).collect::<Vec<_>>().join(" then ")));
                }
                if buf[pos..].iter().any(|b| *b != 0x5C) { return w.fail("lock:beyond", format!("{} wrote beyond its position", what())) }
                if let Flt::Short(n) = fault { if n < t.commits()[lo].len() { return w.fail("lock:short", format!("{} succeeded in {n} bytes", what())) } }
            }
            (Ok(Err(Some(Boom(7)))), Flt::Err(_)) => w.fault("encode_error"),
            (Err(p), Flt::Panic(_)) if p.origin == Origin::Injected => w.fault("encode_panic"),
            (Ok(Err(_)) | Err(_), Flt::Short(_)) => w.fault("output_exhausted"),
            (Err(_), _) if lazy_dead => w.fault("init_panic"),
            (Ok(Err(e)), _) => return w.fail("lock:error", format!("{} failed with {e:?}", what())),
            (Err(p), _) => return w.fail("lock:panic", format!("{} panicked at {}", what(), p.at)),
        }
        if t.inside.get() == 0 && !t.is_free() { w.fail("lock:kept", format!("{} ended but {} is still locked", what(), t.name())) }
    });
}
fn mutate(w: &World5, o: usize, panic_at: u32, how: u8) {
    let t = &w.things[o];
    let v = w.version.get() + 1;
    w.version.set(v);
    t.inside.set(t.inside.get() + 1);
    w.say(|| format!("update {} {o} to {v}{}", t.name(), if panic_at > 0 { format!(", FAULT panics at step {panic_at}") } else { String::new() }));
    let r = guard_op(|| {
        // Updates a record in steps; `log` tells the whole state.
        fn steps(t: &Thing, panic_at: u32, n: usize, v: u16, mut set: impl FnMut(usize, u16), log: impl Fn() -> Vec<u8>, held: &mut dyn FnMut()) {
            held();
            for k in 0..n { point(); if panic_at as usize == k + 1 { t.commit(log()); inject_panic(9) } set(k, v); point() }
            t.commit(log());
        }
        fn part(r: &mut Rec, k: usize, v: u16) { match k % 3 { 0 => r.a = v, 1 => r.b = v, _ => r.c = v } }
        macro_rules! up { ($g:expr, $n:expr, |$r:ident, $k:ident, $v:ident| $set:expr, |$l:ident| $log:expr) => {{ point(); let g = std::cell::RefCell::new($g); steps(t, panic_at, $n, v, |$k, $v| { let $r = &mut **g.borrow_mut(); $set }, || { let $l = &**g.borrow(); $log }, &mut || ()); drop(g); }} }
        match &t.obj {
            Obj::Mx(x) => up!(x.lock().unwrap_or_else(PoisonError::into_inner), 3, |r, k, v| part(r, k, v), |r| single(r)),
            Obj::Rw(x) => up!(x.write().unwrap_or_else(PoisonError::into_inner), 3, |r, k, v| part(r, k, v), |r| single(r)),
            Obj::MxS(x) => up!(x.lock().unwrap_or_else(PoisonError::into_inner), 6, |r, k, v| part(&mut r[k / 3], k, v), |r| listed(r)),
            Obj::RwS(x) => up!(x.write().unwrap_or_else(PoisonError::into_inner), 6, |r, k, v| part(&mut r[k / 3], k, v), |r| listed(r)),
            Obj::RwMx(x) => if how == 0 {
                point();
                let og = x.read().unwrap_or_else(PoisonError::into_inner);
                up!(og.lock().unwrap_or_else(PoisonError::into_inner), 3, |r, k, v| part(r, k, v), |r| single(r))
            } else { up!(x.write().unwrap_or_else(PoisonError::into_inner), 3, |r, k, v| part(r.get_mut().unwrap_or_else(PoisonError::into_inner), k, v), |r| { let Ok(g) = r.try_lock() else { return single(&match r.try_lock() { Err(TryLockError::Poisoned(e)) => *e.into_inner(), _ => Rec::of(0) }) }; single(&g) }) },
            Obj::MxV(x) => {
                // The outer lock is held throughout.
                point();
                let og = x.lock().unwrap_or_else(PoisonError::into_inner);
                let all = || { let v: Vec<Rec> = og.iter().map(|r| match r.try_read() { Ok(g) => *g, Err(TryLockError::Poisoned(e)) => *e.into_inner(), Err(TryLockError::WouldBlock) => Rec::of(0xDEAD) }).collect(); listed(&v) };
                steps(t, panic_at, 6, v, |k, v| part(&mut og[k / 3].write().unwrap_or_else(PoisonError::into_inner), k, v), all, &mut || ());
            }
            Obj::Lz(x) => { point(); let _ = x.a; }
            Obj::At(a) => { for k in 0..1 + how { point(); uninterrupted(|| { let v = (v as u8).wrapping_mul(7).wrapping_add(k * 31); a.store(v, how & 1); t.commit(a.bytes(v)) }) } }
        }
    });
    uninterrupted(|| {
        t.inside.set(t.inside.get() - 1);
        if let Err(p) = r { if p.origin == Origin::Injected { w.fault("panic_while_locked") } else if !matches!(t.obj, Obj::Lz(_)) { w.fail("lock:update", format!("updating {} {o} panicked at {}", t.name(), p.at)) } }
    });
}
fn hold(w: &World5, o: usize, f: &mut dyn FnMut()) {
    let t = &w.things[o];
    t.inside.set(t.inside.get() + 1);
    point();
    match &t.obj {
        Obj::Mx(x) => { let g = x.lock().unwrap_or_else(PoisonError::into_inner); f(); drop(g) }
        Obj::MxS(x) => { let g = x.lock().unwrap_or_else(PoisonError::into_inner); f(); drop(g) }
        Obj::MxV(x) => { let g = x.lock().unwrap_or_else(PoisonError::into_inner); f(); drop(g) }
        Obj::Rw(x) => { let g = x.read().unwrap_or_else(PoisonError::into_inner); f(); drop(g) }
        Obj::RwS(x) => { let g = x.read().unwrap_or_else(PoisonError::into_inner); f(); drop(g) }
        Obj::RwMx(x) => { let g = x.read().unwrap_or_else(PoisonError::into_inner); f(); drop(g) }
        Obj::Lz(_) | Obj::At(_) => f(),
    }
    t.inside.set(t.inside.get() - 1);
}
fn perform(w: &World5, op: Op) {
    match op {
        Op::Enc { o, via, fault, step, own, signal } => { point(); encode_op(w, o, via, fault, step, own); if let Some(c) = signal { sched::signal(c) } }
        Op::Mut { o, panic_at, how } => mutate(w, o, panic_at, how),
        Op::Hold { o, n } => { w.say(|| format!("hold {} {o}", w.things[o].name())); hold(w, o, &mut || for _ in 0..n { point() }) }
        Op::Until { o, c } => { w.say(|| format!("read {} {o} until another thread has encoded it", w.things[o].name())); hold(w, o, &mut || sched::await_cond(c)) }
        Op::Try { o } => {
            point();
            let t = &w.things[o];
            let busy = uninterrupted(|| match &t.obj { Obj::Rw(x) => matches!(x.try_read(), Err(TryLockError::WouldBlock)), Obj::RwS(x) => matches!(x.try_read(), Err(TryLockError::WouldBlock)), Obj::RwMx(x) => matches!(x.try_read(), Err(TryLockError::WouldBlock)), _ => false });
            w.say(|| format!("try to read {} {o}: {}", t.name(), if busy { "refused" } else { "fine" }));
            if busy { uninterrupted(|| w.fail("lock:excludes", format!("{} {o}, which nobody ever writes, could not be read while it was being encoded", t.name()))) }
        }
        Op::Local { n } => {
            thread_local! { static COUNT: Cell<u32> = const { Cell::new(0) } }
            fn init() -> Rec { COUNT.with(|c| c.set(c.get() + 1)); point(); Rec::of(5) }
            COUNT.with(|c| c.set(0));
            let c: LazyCell<Rec> = LazyCell::new(init);
            for _ in 0..n {
                let mut b = [0u8; 6];
                let mut o = Output::new(&mut b);
                let r = c.encode(&mut o).map(|_| o.position());
                let k = COUNT.with(|c| c.get());
                if r != Ok(6) || b != [5, 0, 5, 0, 5, 0] || k != 1 { uninterrupted(|| w.fail("lock:lazycell", format!("a LazyCell encoded as {r:?} {} and was initialised {k} times", hex(&b)))) }
            }
            w.judged.set(w.judged.get() + 1);
        }
    }
}
pub fn c05(cx: &mut Cx, _w: &mut World) -> R {
    let rec = Rec::of(0);
    let kind_of = |cx: &mut Cx| -> Obj {
        match cx.src.pick(&[6, 6, 2, 2, 2, 2, 3, 4]) {
            0 => Obj::Mx(Mutex::new(rec)), 1 => Obj::Rw(RwLock::new(rec)), 2 => Obj::MxS(Box::new(Mutex::new([rec; 2]))), 3 => Obj::RwS(Box::new(RwLock::new([rec; 2]))),
            4 => Obj::RwMx(RwLock::new(Mutex::new(rec))), 5 => Obj::MxV(Mutex::new(vec![RwLock::new(rec), RwLock::new(rec)])), 6 => Obj::Lz(LazyLock::new(init)), _ => Obj::At(Atom::new(cx.src.below(ATOMS))),
        }
    };
    let nthings = 1 + cx.src.pick(&[4, 2]);
    let mut things: Vec<Thing> = vec![];
    for _ in 0..nthings {
        let obj = kind_of(cx);
        let first = match &obj { Obj::Mx(_) | Obj::Rw(_) | Obj::RwMx(_) => single(&rec), Obj::MxS(_) | Obj::RwS(_) | Obj::MxV(_) => listed(&[rec; 2]), Obj::Lz(_) => single(&Rec::of(7)), Obj::At(a) => a.bytes(0) };
        let writers = !cx.src.chance(1, 3);
        things.push(Thing { obj, commits: UnsafeCell::new(vec![first]), inside: Cell::new(0), writers });
    }
    INITS.store(0, Ordering::SeqCst);
    INIT_PANICS.store(cx.src.chance(1, 5), Ordering::SeqCst);
    let n = 2 + cx.src.pick(&[4, 3, 1]);
    let fine = cx.src.chance(1, 6);
    let mut progs: Vec<Vec<Op>> = vec![];
    for _ in 0..n {
        let mut p = vec![];
        for _ in 0..cx.src.range(1, 4) {
            cx.src.open();
            let o = cx.src.below(nthings);
            let t = &things[o];
            let rw = matches!(t.obj, Obj::Rw(_) | Obj::RwS(_) | Obj::RwMx(_));
            let at = matches!(t.obj, Obj::At(_));
            p.push(match cx.src.pick(&[8, 6, 2, 2, 1]) {
                1 if t.writers => Op::Mut { o, panic_at: if cx.src.chance(1, 5) { 1 + cx.src.below(6) as u32 } else { 0 }, how: cx.src.below(2) as u8 },
                2 => Op::Hold { o, n: cx.src.below(4) as u32 },
                3 if rw && !t.writers => Op::Try { o },
                4 => Op::Local { n: 1 + cx.src.below(2) as u32 },
                _ => {
                    let fault = if at { Flt::No } else { match cx.src.pick(&[10, 2, 2, 2]) { 0 => Flt::No, 1 => Flt::Err(1 + cx.src.below(6) as u32), 2 => Flt::Panic(1 + cx.src.below(6) as u32), _ => Flt::Short(cx.src.below(14)) } };
                    let step = if fine || (at && cx.src.chance(3, 4)) { let top = *cx.src.of(&[8usize, 40, 150, 600]); let first = 1 + cx.src.below(top); Some((first as i64 + cx.src.below(150) as i64, first as i64)) } else { None };
                    let own = matches!(t.obj, Obj::Rw(_)) && !t.writers && cx.src.chance(1, 4);
                    Op::Enc { o, via: cx.src.below(3) as u8, fault, step, own, signal: None }
                }
            });
            cx.src.close();
        }
        progs.push(p);
    }
    // A reader that stays until somebody else has encoded what it reads.
    let quiet: Vec<usize> = (0..nthings).filter(|o| !things[*o].writers && matches!(things[*o].obj, Obj::Rw(_) | Obj::RwS(_) | Obj::RwMx(_))).collect();
    if !quiet.is_empty() && cx.src.chance(1, 2) {
        let o = *cx.src.of(&quiet);
        let (a, b) = (0, 1);
        let at = cx.src.below(progs[a].len() + 1);
        progs[a].insert(at, Op::Until { o, c: 1 });
        progs[b].push(Op::Enc { o, via: 0, fault: if cx.src.chance(1, 4) { Flt::Err(2) } else { Flt::No }, step: None, own: false, signal: Some(1) });
    }
    let style = cx.src.draw(4);
    let spurious = if cx.src.chance(1, 3) { 3 } else { 0 };
    let w = Arc::new(World5 { things, viol: UnsafeCell::new(None), log: UnsafeCell::new(vec![]), verbose: cx.verbose, version: Cell::new(0), judged: Cell::new(0), overlapped: Cell::new(0), faults: UnsafeCell::new(Vec::with_capacity(64)), digest: Cell::new(0) });
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for p in progs {
        let w = w.clone();
        for op in &p { let k = match *op { Op::Enc { o, .. } => o as u64, Op::Mut { o, .. } => 8 + o as u64, Op::Hold { o, .. } => 16 + o as u64, Op::Until { .. } => 24, Op::Try { .. } => 25, Op::Local { .. } => 26 }; cx.note(k) }
        jobs.push(Box::new(move || for op in p { perform(&w, op) }));
    }
    let end = sched::run(&mut cx.src, style, spurious, jobs);
    let s = sched::sim();
    let log: Vec<String> = std::mem::take(unsafe { &mut *w.log.get() });
    for l in log { cx.say(|| l) }
    for f in std::mem::take(unsafe { &mut *w.faults.get() }) { cx.fault(f) }
    for _ in 0..s.spurious_done { cx.fault("spurious_wakeup") }
    if s.preempted > 0 { for _ in 0..s.preempted { cx.fault("preempted_mid_instruction_stream") } }
    if s.rescued > 0 { cx.probe("spinning_thread_preempted") }
    for _ in 0..w.judged.get() { cx.check() }
    for _ in 0..s.switches { cx.step() }
    if s.waits > 0 { cx.probe("blocked_on_a_lock") }
    if w.overlapped.get() > 0 { cx.probe("encoding_interleaved"); cx.forced = true }
    for t in &w.things { cx.note(hash_str(t.name())); }
    cx.note(s.hash); cx.note(w.digest.get());
    cx.ev(s.hash, w.digest.get());
    cx.state(crate::choice::mix(w.digest.get(), w.things.iter().map(|t| hash_str(t.name()) ^ t.commits().len() as u64).fold(0, |a, b| a.rotate_left(7) ^ b)));
    let v = unsafe { (*w.viol.get()).take() };
    match end {
        sched::End::Finished => {}
        e => {
            cx.say(|| format!("{e:?}"));
            std::mem::forget(w.clone());
            if let Some(v) = v { return Err(v) }
            return if e == sched::End::Deadlock { viol("lock:deadlock", "every thread waits for a lock although none of the program's own operations leaves one behind".to_string()) } else { viol("lock:endless", "the threads made no progress for 60000 scheduling points".to_string()) };
        }
    }
    if let Some(v) = v { return Err(v) }
    let lazies = w.things.iter().filter(|t| matches!(t.obj, Obj::Lz(_))).count() as u32;
    let inits = INITS.load(Ordering::SeqCst);
    if inits > lazies { return viol("lock:init", format!("{lazies} lazy values were initialised {inits} times")) }
    for (o, t) in w.things.iter().enumerate() {
        if !t.is_free() { return viol("lock:kept", format!("{} {o} is still locked when everybody is done", t.name())) }
        let last = t.commits().last().expect("a state").clone();
        let now = match &t.obj {
            Obj::Mx(x) => single(&x.lock().unwrap_or_else(PoisonError::into_inner)), Obj::Rw(x) => single(&x.read().unwrap_or_else(PoisonError::into_inner)),
            Obj::MxS(x) => listed(&x.lock().unwrap_or_else(PoisonError::into_inner)), Obj::RwS(x) => listed(&x.read().unwrap_or_else(PoisonError::into_inner)),
            _ => last.clone(),
        };
        if now != last { return viol("lock:changed", format!("{} {o} holds {} after the last update made it {}", t.name(), hex(&now), hex(&last))) }
    }
    // Through a slot, with nobody else around.
    if let Obj::Mx(x) = &w.things[0].obj {
        let mut s = Slot::<&Mutex<Rec>>::with_capacity(6);
        let r = guard_op(|| s.write(x));
        let want = w.things[0].commits().last().expect("a state");
        if !matches!(r, Ok(Ok(()))) || s.as_slice() != &want[..] { return viol("lock:slot", format!("writing a Mutex into a slot gave {r:?} and {} rather than {}", hex(s.as_slice()), hex(want))) }
    }
    Ok(())
}
