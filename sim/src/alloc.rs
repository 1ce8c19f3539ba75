//! The simulated heap: the global allocator of the whole process.
//!
//! Every block carries a header and a trailing red zone, fresh memory is filled with a
//! fixed pattern, freed memory is poisoned and kept in quarantine for a while, live blocks
//! are counted, and any chosen allocation can be made to fail.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub struct SimAlloc;

#[repr(C)]
struct Hdr { magic: u64, size: u64, align: u64, pad: u64 }
const HDR: usize = 32;
/// Under a sanitizer its own red zones and quarantine take over: the address sanitizer catches stray
/// reads too, the memory sanitizer decisions that depend on what was never written.
const SAN: bool = cfg!(any(vsim_asan, vsim_msan));
const TAIL: usize = if SAN { 0 } else { 16 };
#[cfg(vsim_asan)]
mod san {
    extern "C" { fn __asan_poison_memory_region(p: *const u8, n: usize); fn __asan_unpoison_memory_region(p: *const u8, n: usize); }
    pub unsafe fn close(p: *mut u8, n: usize) { __asan_poison_memory_region(p, n) }
    pub unsafe fn open(p: *mut u8, n: usize) { __asan_unpoison_memory_region(p, n) }
    pub unsafe fn fresh(_: *mut u8, _: usize) {}
    /// What the sanitizer finds ends the process like any other crash.
    #[no_mangle]
    pub extern "C" fn __asan_default_options() -> *const u8 { c"abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:use_sigaltstack=0".as_ptr() as *const u8 }
}
#[cfg(vsim_msan)]
mod san {
    extern "C" { fn __msan_allocated_memory(p: *const u8, n: usize); }
    pub unsafe fn close(_: *mut u8, _: usize) {}
    pub unsafe fn open(_: *mut u8, _: usize) {}
    pub unsafe fn fresh(p: *mut u8, n: usize) { __msan_allocated_memory(p, n) }
    #[no_mangle]
    pub extern "C" fn __msan_default_options() -> *const u8 { c"abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:use_sigaltstack=0".as_ptr() as *const u8 }
}
#[cfg(not(any(vsim_asan, vsim_msan)))]
mod san {
    pub unsafe fn close(_: *mut u8, _: usize) {}
    pub unsafe fn open(_: *mut u8, _: usize) {}
    pub unsafe fn fresh(_: *mut u8, _: usize) {}
}
const LIVE_MAGIC: u64 = 0x51AB_0C7A_11FE_B10C;
const FREE_MAGIC: u64 = 0xDEAD_0C7A_F4EE_B10C;
const FILL: usize = 512;
const QN: usize = 128;

static LIVE: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static FAIL_IN: AtomicI64 = AtomicI64::new(-1);
static STICKY: AtomicBool = AtomicBool::new(false);
static SETTLED: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);
static ERR: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut QUAR: [(*mut u8, usize, usize); QN] = [(core::ptr::null_mut(), 0, 0); QN];
static mut QPOS: usize = 0;
static OFF_MAX: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u64)]
pub enum HeapErr { None = 0, ZeroSized = 1, BadFree = 2, DoubleFree = 3, Overrun = 4, WrongLayout = 5, UseAfterFree = 6 }

fn report(e: HeapErr) { let _ = ERR.compare_exchange(0, e as u64, SeqCst, SeqCst); }
pub fn take_error() -> Option<HeapErr> {
    Some(match ERR.swap(0, SeqCst) {
        1 => HeapErr::ZeroSized, 2 => HeapErr::BadFree, 3 => HeapErr::DoubleFree,
        4 => HeapErr::Overrun, 5 => HeapErr::WrongLayout, 6 => HeapErr::UseAfterFree, _ => return None,
    })
}
/// (live blocks, live bytes)
pub fn live() -> (i64, i64) { (LIVE.load(Relaxed), BYTES.load(Relaxed)) }
/// Allocations made so far.
pub fn total() -> u64 { TOTAL.load(Relaxed) }
/// Makes the `n`-th allocation from now (0 = the next) fail, and all later ones if `sticky`.
pub fn fail_in(n: i64, sticky: bool) { STICKY.store(sticky, SeqCst); FAIL_IN.store(n, SeqCst); }
pub fn fail_off() { FAIL_IN.store(-1, SeqCst); STICKY.store(false, SeqCst); }
/// The operation under test has ended: nothing fails any more. Says how many allocations were made by then.
pub fn settle() { FAIL_IN.store(-1, SeqCst); let _ = SETTLED.compare_exchange(0, TOTAL.load(SeqCst), SeqCst, SeqCst); }
/// An operation begins; says how many allocations were made before.
pub fn begin() -> u64 { SETTLED.store(0, SeqCst); TOTAL.load(SeqCst) }
pub fn settled() -> u64 { SETTLED.load(SeqCst) }
/// Ends the count and suspends failures (a panic is being described); `resume` undoes it.
pub fn suspend() -> i64 { let _ = SETTLED.compare_exchange(0, TOTAL.load(SeqCst), SeqCst, SeqCst); FAIL_IN.swap(-1, SeqCst) }
pub fn resume(n: i64) { FAIL_IN.store(n, SeqCst) }
pub fn failed() -> u64 { FAILED.load(SeqCst) }

fn off(align: usize) -> usize { if align <= HDR { HDR } else { align } }

unsafe fn release(p: *mut u8, size: usize, align: usize) {
    let o = off(align);
    System.dealloc(p.sub(o), Layout::from_size_align_unchecked(o + size + TAIL, align.max(16)));
}
unsafe fn check_quarantined(p: *mut u8, size: usize) {
    let n = size.min(FILL);
    let s = core::slice::from_raw_parts(p, n);
    if s.iter().any(|b| *b != 0xDD) { report(HeapErr::UseAfterFree) }
}
fn with_lock<R>(f: impl FnOnce() -> R) -> R {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() { core::hint::spin_loop() }
    let r = f();
    LOCK.store(false, Release);
    r
}
/// Looks for writes to freed blocks still in quarantine.
pub fn sweep() {
    with_lock(|| unsafe { for i in 0..QN { let (p, s, _) = QUAR[i]; if !p.is_null() { check_quarantined(p, s) } } })
}

thread_local! { static INSIDE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) } }
/// Whether the calling thread is in the allocator (where it may not be preempted).
pub fn inside() -> bool { INSIDE.with(|i| i.get()) > 0 }
struct Inside;
impl Inside { fn new() -> Inside { INSIDE.with(|i| i.set(i.get() + 1)); Inside } }
impl Drop for Inside { fn drop(&mut self) { INSIDE.with(|i| i.set(i.get() - 1)) } }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _in = Inside::new();
        if FAIL_IN.load(Relaxed) >= 0 {
            let n = FAIL_IN.fetch_sub(1, SeqCst);
            if n == 0 {
                FAILED.fetch_add(1, SeqCst);
                if STICKY.load(SeqCst) { FAIL_IN.store(0, SeqCst) }
                return core::ptr::null_mut();
            }
        }
        if l.size() == 0 { report(HeapErr::ZeroSized) }
        let (size, align) = (l.size(), l.align());
        let o = off(align);
        OFF_MAX.fetch_max(o as u64, Relaxed);
        let base = System.alloc(Layout::from_size_align_unchecked(o + size + TAIL, align.max(16)));
        if base.is_null() { return base }
        let p = base.add(o);
        (p.sub(HDR) as *mut Hdr).write_unaligned(Hdr { magic: LIVE_MAGIC, size: size as u64, align: align as u64, pad: 0 });
        core::ptr::write_bytes(p, 0xA5, size.min(FILL));
        if size > FILL { core::ptr::write_bytes(p.add(size - 64), 0xA5, 64) }
        core::ptr::write_bytes(p.add(size), 0xFB, TAIL);
        san::close(p.sub(HDR), HDR);
        san::fresh(p, size);
        LIVE.fetch_add(1, Relaxed); BYTES.fetch_add(size as i64, Relaxed); TOTAL.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _in = Inside::new();
        // The first byte of a block freed before is still the sanitizer's.
        if cfg!(vsim_asan) && l.size() > 0 { core::hint::black_box(p.read()); }
        san::open(p.sub(HDR), HDR);
        let h = (p.sub(HDR) as *mut Hdr).read_unaligned();
        if h.magic == FREE_MAGIC { report(HeapErr::DoubleFree); return }
        if h.magic != LIVE_MAGIC { report(HeapErr::BadFree); return }
        let (size, align) = (h.size as usize, h.align as usize);
        if size != l.size() || align != l.align() { report(HeapErr::WrongLayout) }
        if core::slice::from_raw_parts(p.add(size), TAIL).iter().any(|b| *b != 0xFB) { report(HeapErr::Overrun) }
        (p.sub(HDR) as *mut Hdr).write_unaligned(Hdr { magic: FREE_MAGIC, ..h });
        LIVE.fetch_sub(1, Relaxed); BYTES.fetch_sub(size as i64, Relaxed);
        core::ptr::write_bytes(p, 0xDD, size.min(FILL));
        if SAN || size > 1 << 16 { release(p, size, align); return }
        let old = with_lock(|| {
            let i = QPOS; QPOS = (QPOS + 1) % QN;
            let old = QUAR[i]; QUAR[i] = (p, size, align); old
        });
        if !old.0.is_null() {
            check_quarantined(old.0, old.1);
            release(old.0, old.1, old.2);
        }
    }
}
