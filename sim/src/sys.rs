//! The handful of operating-system calls the simulator needs, declared by hand (no libc crate).
#![allow(non_camel_case_types, dead_code)]
use core::ffi::c_void;
pub type c_int = i32;
pub type c_long = i64;

extern "C" {
    pub fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn munmap(addr: *mut c_void, len: usize) -> c_int;
    pub fn mprotect(addr: *mut c_void, len: usize, prot: c_int) -> c_int;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn alarm(secs: u32) -> u32;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn setrlimit(res: c_int, lim: *const [u64; 2]) -> c_int;
    pub fn usleep(us: u32) -> c_int;
    pub fn getrlimit(res: c_int, lim: *mut [u64; 2]) -> c_int;
}
pub const PROT_NONE: c_int = 0;
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const WNOHANG: c_int = 1;
pub const SIGKILL: c_int = 9;

pub fn map(len: usize, shared: bool) -> *mut u8 {
    let fl = MAP_ANON | MAP_NORESERVE | if shared { MAP_SHARED } else { MAP_PRIVATE };
    let p = unsafe { mmap(core::ptr::null_mut(), len, PROT_RW, fl, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

/// No core files, and children never outlive their parent.
pub fn quiet_process() {
    unsafe {
        setrlimit(4, &[0, 0]);
        prctl(1, SIGKILL as u64, 0, 0, 0);
    }
}

/// The top-level process: no core files.
pub fn quiet_self() { unsafe { setrlimit(4, &[0, 0]); } }

/// Gives the process a stack in which a recursive type nests as deeply as the longest input here allows, by starting
/// itself again under a larger limit. Noise read as such a type can nest some thousand levels deep; the common limit of
/// 8 MiB is no property of the code under test.
pub fn roomy_stack() {
    use std::os::unix::process::CommandExt;
    const WANT: u64 = 1 << 30;
    if std::env::var_os("VSIM_STACK").is_some() { return }
    let mut l = [0u64; 2];
    if unsafe { getrlimit(3, &mut l) } != 0 || l[0] >= WANT { return }
    l[0] = WANT.min(l[1]);
    if unsafe { setrlimit(3, &l) } != 0 { return }
    let mut a = std::env::args_os();
    let n = a.next().unwrap_or_default();
    let _ = std::process::Command::new("/proc/self/exe").arg0(n).args(a).env("VSIM_STACK", "1").exec();
}

pub fn sig_name(s: c_int) -> String {
    match s {
        4 => "SIGILL".into(), 5 => "SIGTRAP".into(), 6 => "SIGABRT".into(), 7 => "SIGBUS".into(),
        8 => "SIGFPE".into(), 9 => "SIGKILL".into(), 11 => "SIGSEGV".into(), 14 => "SIGALRM".into(),
        n => format!("SIG{n}"),
    }
}

/// How a child ended.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End { Code(c_int), Signal(c_int) }

pub fn decode_status(st: c_int) -> End {
    if st & 0x7f == 0 { End::Code((st >> 8) & 0xff) } else { End::Signal(st & 0x7f) }
}

/// Runs `f` in a forked child of this (single-threaded) process and waits for it.
pub fn in_child(secs: u32, f: impl FnOnce() -> i32) -> End {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            quiet_process();
            alarm(secs);
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(70);
            _exit(c);
        }
        let mut st = 0;
        loop {
            let r = waitpid(pid, &mut st, 0);
            if r == pid { return decode_status(st) }
        }
    }
}
