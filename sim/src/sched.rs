//! The simulated machine for threads: real threads, of which only the one holding the baton ever
//! runs. Blocking goes through the `futex` system call, which is answered here; which thread
//! continues is a recorded choice at every scheduling point. Scheduling points are futex calls,
//! yields and sleeps, `point()` in user code, and, where asked for, any machine instruction
//! (the processor's trap flag counts them).
use crate::choice::Src;
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::ffi::c_void;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::*};

pub const MAX: usize = 5;
#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Idle, Ready, Futex(usize), Cond(u32), Done }
pub struct Sim {
    src: *mut Src,
    st: [St; MAX],
    n: usize,
    cur: usize,
    style: u64,
    spurious: u32,
    cond: u64,
    /// Which thread ran, in order (a digest).
    pub hash: u64,
    pub switches: u64,
    pub waits: u64,
    pub spurious_done: u64,
    pub preempted: u64,
    pub stepped: u64,
    pub rescued: u64,
    end: Option<End>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End { Finished, Deadlock, Endless }
struct Cell0(UnsafeCell<Sim>);
unsafe impl Sync for Cell0 {}
static SIM: Cell0 = Cell0(UnsafeCell::new(Sim { src: std::ptr::null_mut(), st: [St::Idle; MAX], n: 0, cur: 0, style: 0, spurious: 0, cond: 0, hash: 0, switches: 0, waits: 0, spurious_done: 0, preempted: 0, stepped: 0, rescued: 0, end: None }));
/// Only the thread holding the baton (or nobody but the main thread) may look.
#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM.0.get() } }
static BATON: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static TIDS: [AtomicI32; MAX] = [const { AtomicI32::new(0) }; MAX];
static MAIN: AtomicU32 = AtomicU32::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
static JOBS: Jobs = Jobs(UnsafeCell::new([const { None }; MAX]));
type Job = Box<dyn FnOnce() + Send>;
struct Jobs(UnsafeCell<[Option<Job>; MAX]>);
unsafe impl Sync for Jobs {}
thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static BUSY: Cell<u32> = const { Cell::new(0) };
    static STEPS: Cell<i64> = const { Cell::new(0) };
    static NEXT: Cell<i64> = const { Cell::new(0) };
}
const POINTS_MAX: u64 = 60_000;

// ---- the operating system, directly ------------------------------------------------------------
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
const FUTEX: i64 = 202;
fn futex_wait(w: &AtomicU32, v: u32, ms: Option<i64>) {
    let ts = [ms.unwrap_or(0) / 1000, ms.unwrap_or(0) % 1000 * 1_000_000];
    unsafe { raw(FUTEX, w as *const _ as i64, 128, v as i64, if ms.is_some() { ts.as_ptr() as i64 } else { 0 }, 0, 0); }
}
fn futex_wake(w: &AtomicU32) { unsafe { raw(FUTEX, w as *const _ as i64, 129, 1, 0, 0, 0); } }
extern "C" { fn __errno_location() -> *mut i32; fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32; }
#[repr(C)]
struct Sa { f: usize, mask: [u64; 16], flags: i32, restorer: usize }

/// What the standard library blocks with. Simulated threads never reach the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == FUTEX && ME.with(|m| m.get()) >= 0 {
        match b & 0x7f {
            0 | 9 => { if !sim_wait(a as usize, c as u32) { *__errno_location() = 11; return -1 } return 0 }
            1 | 10 => return sim_wake(a as usize, c),
            _ => {}
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 { *__errno_location() = -r as i32; return -1 }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 { if ME.with(|m| m.get()) >= 0 { point(); 0 } else { raw(24, 0, 0, 0, 0, 0, 0) as i32 } }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> i32 { if ME.with(|m| m.get()) >= 0 { point(); 0 } else { raw(35, a as i64, b as i64, 0, 0, 0, 0) as i32 } }
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: *const c_void, b: *mut c_void) -> i32 { if ME.with(|m| m.get()) >= 0 { point(); 0 } else { -(raw(230, c as i64, fl as i64, a as i64, b as i64, 0, 0) as i32) } }

// ---- scheduling --------------------------------------------------------------------------------
struct Busy;
impl Busy { fn new() -> Busy { BUSY.with(|b| b.set(b.get() + 1)); Busy } }
impl Drop for Busy { fn drop(&mut self) { BUSY.with(|b| b.set(b.get() - 1)) } }
/// Preemption does not happen while this is held.
pub fn uninterrupted<T>(f: impl FnOnce() -> T) -> T { let _b = Busy::new(); f() }

fn draw(n: usize) -> usize { unsafe { (*sim().src).draw(n as u64) as usize } }
/// Hands the baton to a drawn thread; returns when it comes back.
fn switch() {
    let s = sim();
    let me = s.cur;
    let p = POINTS.fetch_add(1, SeqCst);
    let ready = |s: &Sim| -> ([usize; MAX], usize) { let mut v = [0; MAX]; let mut k = 0; if s.st[me] == St::Ready { v[0] = me; k = 1 } for i in 0..s.n { if i != me && s.st[i] == St::Ready { v[k] = i; k += 1 } } (v, k) };
    let (v, k) = ready(s);
    // A futex may return for no reason.
    if s.spurious > 0 && k > 0 {
        let blocked = (0..s.n).filter(|i| matches!(s.st[*i], St::Futex(_))).count();
        if blocked > 0 && draw(24) == 23 {
            s.spurious -= 1;
            s.spurious_done += 1;
            let w = draw(blocked);
            let i = (0..s.n).filter(|i| matches!(s.st[*i], St::Futex(_))).nth(w).unwrap_or(0);
            s.st[i] = St::Ready;
        }
    }
    let (v, k) = if s.spurious_done > 0 { ready(s) } else { (v, k) };
    if p > POINTS_MAX { finish(End::Endless, me); return }
    if k == 0 {
        let done = (0..s.n).all(|i| s.st[i] == St::Done);
        finish(if done { End::Finished } else { End::Deadlock }, me);
        return;
    }
    let mut next = 0;
    if k > 1 {
        // The lowest number goes on with the same thread.
        let stay = s.st[me] == St::Ready && match s.style { 0 => false, 1 => draw(4) < 3, 2 => draw(16) < 15, _ => draw(2) == 0 };
        if !stay { next = draw(k) }
    }
    let next = v[next];
    s.hash = crate::choice::mix(s.hash, next as u64 + 1);
    if next == me { return }
    s.switches += 1;
    s.cur = next;
    // Nothing here may be looked at any more once the baton is away.
    let done = s.st[me] == St::Done;
    BATON[next].store(1, SeqCst);
    futex_wake(&BATON[next]);
    if !done { wait_baton(me) }
}
fn wait_baton(me: usize) { while BATON[me].swap(0, SeqCst) != 1 { futex_wait(&BATON[me], 0, None) } }
fn finish(e: End, me: usize) {
    sim().end = Some(e);
    MAIN.store(1, SeqCst);
    futex_wake(&MAIN);
    // Whoever is stuck stays so.
    if e != End::Finished { loop { wait_baton(me) } }
}
/// A scheduling point in user code.
pub fn point() { if ME.with(|m| m.get()) < 0 { return } let _b = Busy::new(); switch(); }
fn sim_wait(addr: usize, val: u32) -> bool {
    let _b = Busy::new();
    let s = sim();
    s.waits += 1;
    switch();
    if unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != val { return false }
    s.st[s.cur] = St::Futex(addr);
    switch();
    true
}
fn sim_wake(addr: usize, n: i64) -> i64 {
    let _b = Busy::new();
    let s = sim();
    let mut woken = 0;
    while woken < n {
        let k = (0..s.n).filter(|i| s.st[*i] == St::Futex(addr)).count();
        if k == 0 { break }
        let w = if k > 1 { draw(k) } else { 0 };
        let i = (0..s.n).filter(|i| s.st[*i] == St::Futex(addr)).nth(w).unwrap_or(0);
        s.st[i] = St::Ready;
        woken += 1;
    }
    switch();
    woken
}
/// Waits until `signal(c)`.
pub fn await_cond(c: u32) {
    let _b = Busy::new();
    let s = sim();
    if s.cond >> c & 1 == 0 { s.st[s.cur] = St::Cond(c); switch() }
}
pub fn signal(c: u32) {
    let _b = Busy::new();
    let s = sim();
    s.cond |= 1 << c;
    for i in 0..s.n { if s.st[i] == St::Cond(c) { s.st[i] = St::Ready } }
}
/// The running thread, or none outside of a simulation.
pub fn me() -> Option<usize> { let m = ME.with(|m| m.get()); if m >= 0 { Some(m as usize) } else { None } }

// ---- preemption at any instruction ---------------------------------------------------------------
/// From here on, at most `total` instructions are counted and the thread is preempted after drawn
/// numbers of them.
pub fn step_from_here(total: i64, first: i64) {
    STEPS.with(|s| s.set(total));
    NEXT.with(|s| s.set(first));
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
pub fn step_off() {
    STEPS.with(|s| if s.get() > 0 { s.set(0); unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") } });
}
unsafe extern "C" fn on_trap(_s: i32, _i: *mut c_void, ctx: *mut c_void) {
    let eflags = (ctx as *mut u8).add(176) as *mut u64;
    let left = STEPS.with(|s| s.get());
    if left <= 0 || ME.with(|m| m.get()) < 0 { *eflags &= !0x100; return }
    if BUSY.with(|b| b.get()) > 0 || crate::alloc::inside() { return }
    STEPS.with(|s| s.set(left - 1));
    let n = NEXT.with(|s| { s.set(s.get() - 1); s.get() });
    sim().stepped += 1;
    if n == 0 {
        sim().preempted += 1;
        let _b = Busy::new();
        switch();
        NEXT.with(|s| s.set(1 + draw(60) as i64));
    }
    if left <= 1 { *eflags &= !0x100 }
}
/// The main thread found that the running thread does nothing but spin.
unsafe extern "C" fn on_spin(_s: i32, _i: *mut c_void, _ctx: *mut c_void) {
    if ME.with(|m| m.get()) < 0 || ME.with(|m| m.get()) as usize != sim().cur || BUSY.with(|b| b.get()) > 0 || crate::alloc::inside() { return }
    let _b = Busy::new();
    sim().rescued += 1;
    switch();
}

/// Processor time of this process.
fn cpu_ms() -> i64 { let mut ts = [0i64; 2]; unsafe { raw(228, 2, ts.as_mut_ptr() as i64, 0, 0, 0, 0); } ts[0] * 1000 + ts[1] / 1_000_000 }

// ---- runs ----------------------------------------------------------------------------------------
fn body(me: usize) {
    TIDS[me].store(unsafe { raw(186, 0, 0, 0, 0, 0, 0) } as i32, SeqCst);
    loop {
        wait_baton(me);
        let job = unsafe { (*JOBS.0.get())[me].take() };
        ME.with(|m| m.set(me as i32));
        if let Some(j) = job { j() }
        step_off();
        ME.with(|m| m.set(-1));
        let _b = Busy::new();
        sim().st[me] = St::Done;
        switch();
    }
}
fn start_threads() {
    static STARTED: AtomicU32 = AtomicU32::new(0);
    let pid = std::process::id();
    if STARTED.load(SeqCst) == pid { return }
    STARTED.store(pid, SeqCst);
    unsafe {
        // SA_SIGINFO; SA_RESTART for the second.
        sigaction(5, &Sa { f: on_trap as usize, mask: [0; 16], flags: 4, restorer: 0 }, std::ptr::null_mut());
        sigaction(12, &Sa { f: on_spin as usize, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 }, std::ptr::null_mut());
    }
    for i in 0..MAX { TIDS[i].store(0, SeqCst); std::thread::Builder::new().stack_size(1 << 20).spawn(move || body(i)).expect("cannot start a thread"); }
    for t in &TIDS { while t.load(SeqCst) == 0 { std::thread::yield_now() } }
}
/// Runs the jobs to their end under drawn schedules.
pub fn run(src: &mut Src, style: u64, spurious: u32, jobs: Vec<Job>) -> End {
    start_threads();
    let n = jobs.len();
    let s = sim();
    *s = Sim { src, st: [St::Idle; MAX], n, cur: 0, style, spurious, cond: 0, hash: 0, switches: 0, waits: 0, spurious_done: 0, preempted: 0, stepped: 0, rescued: 0, end: None };
    for (i, j) in jobs.into_iter().enumerate() { s.st[i] = St::Ready; unsafe { (*JOBS.0.get())[i] = Some(j) } }
    MAIN.store(0, SeqCst);
    POINTS.store(0, SeqCst);
    let first = draw(n);
    s.cur = first;
    BATON[first].store(1, SeqCst);
    futex_wake(&BATON[first]);
    // A thread that uses the processor without ever reaching a scheduling point is spinning.
    let (mut seen, mut used, mut rescued) = (u64::MAX, 0, false);
    while MAIN.load(SeqCst) == 0 {
        futex_wait(&MAIN, 0, Some(if rescued { 1 } else { 20 }));
        let (p, t) = (POINTS.load(SeqCst), cpu_ms());
        if p != seen { seen = p; used = t; continue }
        if MAIN.load(SeqCst) == 0 && t - used >= if rescued { 2 } else { 80 } {
            rescued = true;
            used = t;
            let t = TIDS[unsafe { (*SIM.0.get()).cur }].load(SeqCst);
            unsafe { raw(234, std::process::id() as i64, t as i64, 12, 0, 0, 0); }
        }
    }
    sim().end.unwrap_or(End::Endless)
}
