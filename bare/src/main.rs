//! A node without the standard library: C17's exchange in a program of its own, with nothing under
//! it but `core`, an allocator and write(2). If the library asked for std, this would not link.
#![no_std]
#![no_main]
mod exchange;
use core::ffi::{c_char, c_int, c_long, c_void};

#[link(name = "c")]
extern "C" {
    fn write(fd: c_int, p: *const c_void, n: usize) -> isize;
    fn atol(s: *const c_char) -> c_long;
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
}
fn put(s: &[u8]) { unsafe { write(1, s.as_ptr().cast(), s.len()); } }

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { put(b"stopped\n"); unsafe { _exit(101) } }
/// What the compiled `core` refers to, for unwinding, which does not happen here.
#[no_mangle] extern "C" fn rust_eh_personality() {}
#[no_mangle] extern "C" fn _Unwind_Resume() -> ! { unsafe { _exit(102) } }

/// Memory that is never given back; each run is a process of its own.
#[cfg(feature = "alloc")]
mod heap {
    use core::alloc::{GlobalAlloc, Layout};
    use core::cell::UnsafeCell;
    const SIZE: usize = 1 << 24;
    pub struct Bump(UnsafeCell<[u8; SIZE]>, UnsafeCell<usize>);
    unsafe impl Sync for Bump {}
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let base = self.0.get() as usize;
            let at = (base + *self.1.get() + l.align() - 1) & !(l.align() - 1);
            if at + l.size() > base + SIZE { return core::ptr::null_mut() }
            *self.1.get() = at + l.size() - base;
            at as *mut u8
        }
        unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
    }
    #[global_allocator] pub static HEAP: Bump = Bump(UnsafeCell::new([0; SIZE]), UnsafeCell::new(0));
}

#[no_mangle]
pub extern "C" fn main(argc: c_int, argv: *const *const c_char) -> c_int {
    if argc < 3 { return 2 }
    let (seed, runs) = unsafe { (atol(*argv.add(1)) as u64, atol(*argv.add(2)) as u64) };
    for i in 0..runs {
        for part in 0..3 {
            if !exchange::has(part) { continue }
            // A node whose input ends early stops for good, and so does its process.
            unsafe {
                let pid = fork();
                if pid < 0 { return 3 }
                if pid == 0 {
                    let d = exchange::exchange(seed, i, part);
                    let mut line = [b'\n'; 17];
                    for j in 0..16 { line[j] = b"0123456789abcdef"[(d >> (60 - 4 * j) & 15) as usize] }
                    put(&line);
                    _exit(0)
                }
                waitpid(pid, core::ptr::null_mut(), 0);
            }
        }
    }
    0
}
