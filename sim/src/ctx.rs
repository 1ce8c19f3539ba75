//! Context of one simulated run: choices, event log, counters, violations.
use crate::choice::{mix, Shared, Src};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A violated property: `class` identifies the kind of failure (and is what shrinking preserves).
#[derive(Clone, Debug)]
pub struct Viol { pub class: String, pub msg: String }
pub type R<T = ()> = Result<T, Viol>;
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> R<T> { Err(Viol { class: class.into(), msg: msg.into() }) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($f:tt)*) => { if !($c) { return $crate::ctx::viol($class, format!($($f)*)) } };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: u128,
    pub checks: u64,
    pub faults: Vec<(&'static str, u64)>,
    pub probes: Vec<(&'static str, u64)>,
    pub sigs: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub states: HashSet<u64>,
}
fn bump(v: &mut Vec<(&'static str, u64)>, k: &'static str, n: u64) {
    for e in v.iter_mut() { if core::ptr::eq(e.0, k) || e.0 == k { e.1 += n; return } }
    v.push((k, n));
}
const STATES_MAX: usize = 4_000_000;

pub struct Cx<'a> {
    pub src: Src,
    pub st: &'a mut Stats,
    pub shared: Option<Shared>,
    pub verbose: bool,
    pub digest: u64,
    pub sig: u64,
    pub now: u64, // simulated nanoseconds
    pub faulted: u32,
    pub acted: u32,
    /// Counts as non-trivial without a fault (an interleaving or a history is the point).
    pub forced: bool,
}
impl<'a> Cx<'a> {
    pub fn new(src: Src, st: &'a mut Stats, shared: Option<Shared>, verbose: bool) -> Self {
        Cx { src, st, shared, verbose, digest: 0, sig: 0, now: 0, faulted: 0, acted: 0, forced: false }
    }
    /// Feeds the event log's digest.
    pub fn ev(&mut self, a: u64, b: u64) { self.digest = mix(self.digest ^ a, b) }
    pub fn ev_bytes(&mut self, b: &[u8]) { let h = hash_bytes(b); self.ev(0xB17E5, h) }
    /// One line of the readable trace; only rendered when somebody will read it.
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let line = format!("t={:<12} {}\n", self.now, f());
            if let Some(s) = self.shared { s.say(&line) }
        }
    }
    /// A fault that actually happened.
    pub fn fault(&mut self, k: &'static str) { bump(&mut self.st.faults, k, 1); self.faulted += 1; self.ev(0xFA, hash_str(k)); self.note(hash_str(k)) }
    /// A condition worth knowing it was reached.
    pub fn probe(&mut self, k: &'static str) { bump(&mut self.st.probes, k, 1) }
    /// Contributes to the run's signature (the abstract sequence of what happened).
    pub fn note(&mut self, a: u64) { self.sig = mix(self.sig, a) }
    pub fn state(&mut self, h: u64) { if self.st.states.len() < STATES_MAX { self.st.states.insert(h); } }
    pub fn step(&mut self) { self.st.steps += 1 }
    pub fn check(&mut self) { self.st.checks += 1; self.acted += 1 }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for c in b.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 29; }
    h
}
pub fn hash_str(s: &str) -> u64 { hash_bytes(s.as_bytes()) }
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() { if i == 96 { s.push_str(&format!("..({} bytes)", b.len())); break } s.push_str(&format!("{x:02x}")) }
    s
}

// ---- panics ---------------------------------------------------------------------------------

/// Where a panic came from.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Origin { Code, Injected, Harness }
#[derive(Clone, Debug)]
pub struct Panicked { pub origin: Origin, pub at: String }

/// Payload of a panic the simulator itself injected (a fault in user code).
pub struct Injected(pub u64);
pub fn inject_panic(id: u64) -> ! { std::panic::panic_any(Injected(id)) }

struct Last { file: String, line: u32, msg: String }
thread_local! { static LAST: RefCell<Option<Last>> = const { RefCell::new(None) }; static LOUD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn set_loud(b: bool) { LOUD.with(|l| l.set(b)) }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        crate::sched::step_off();
        let failing = crate::alloc::suspend();
        let (f, l) = i.location().map_or(("?", 0), |l| (l.file(), l.line()));
        let loud = LOUD.with(|l| l.get());
        let p = i.payload();
        let msg = if p.is::<Injected>() { String::from("injected") }
            else if !loud && !is_harness_file(f) { String::new() }
            else if let Some(s) = p.downcast_ref::<&str>() { (*s).into() }
            else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
            else { "?".into() };
        if crate::oomsim::in_window() && std::panic::PanicHookInfo::payload_as_str(i).is_some_and(crate::oomsim::is_precondition) { crate::oomsim::precondition(f, l) }
        let r = LAST.try_with(|c| if let Ok(mut c) = c.try_borrow_mut() { *c = Some(Last { file: f.into(), line: l, msg }) });
        let _ = r;
        crate::alloc::resume(failing);
    }));
}
pub fn last_panic() -> String { LAST.with(|c| c.borrow_mut().take()).map_or("?".into(), |l| format!("{}:{} {}", l.file, l.line, l.msg)) }
/// The harness's own files; the file with the derived types counts as code under test.
fn is_harness_file(f: &str) -> bool { f.starts_with("src/") && !f.ends_with("derived.rs") }

/// Runs code under test. A panic raised by the harness itself is passed on as such.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> { guard_as(true, f) }
/// For operations whose panics are attributed to their caller (indexing).
pub fn guard_op<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> { guard_as(false, f) }
fn guard_as<T>(own: bool, f: impl FnOnce() -> T) -> Result<T, Panicked> {
    LAST.with(|c| *c.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let last = LAST.with(|c| c.borrow_mut().take());
            let inj = p.is::<Injected>();
            let (origin, at) = match &last {
                _ if inj => (Origin::Injected, "injected".to_string()),
                Some(l) if own && is_harness_file(&l.file) => (Origin::Harness, format!("{}:{} {}", l.file, l.line, l.msg)),
                Some(l) => (Origin::Code, format!("{}:{} {}", l.file, l.line, l.msg)),
                None => (Origin::Code, "?".into()),
            };
            if origin == Origin::Harness { std::panic::resume_unwind(Box::new(HarnessBug(at))) }
            drop(p);
            Err(Panicked { origin, at })
        }
    }
}
/// A panic of the harness, on its way out of the run.
pub struct HarnessBug(pub String);
