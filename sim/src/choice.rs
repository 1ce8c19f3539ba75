//! The single source of every decision in a run.
//!
//! A run is a pure function of the sequence of numbers drawn here. Drawing records them, so
//! the sequence is the replay file, and a shorter or smaller sequence is a simpler run: zero
//! always means the plainest alternative (no fault, empty, stop), and a sequence that runs
//! out continues with zeros.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)); r.next() }

/// Where recorded choices go: a shared mapping, so that they survive the death of the process.
#[repr(C)]
pub struct SharedRec { pub n: u64, pub trace_len: u64, pub nspans: u64, pub pad: u64, pub status: u64 }
pub const REC_MAX: usize = 1 << 20;
pub const SPAN_MAX: usize = 1 << 18;
pub const TRACE_MAX: usize = 1 << 22;
pub const SHARED_SIZE: usize = 64 + REC_MAX * 8 + SPAN_MAX * 8 + TRACE_MAX;

#[derive(Clone, Copy)]
pub struct Shared(pub *mut u8);
impl Shared {
    pub fn new() -> Self { Shared(crate::sys::map(SHARED_SIZE, true)) }
    pub fn hdr(&self) -> &mut SharedRec { unsafe { &mut *(self.0 as *mut SharedRec) } }
    fn choices(&self) -> *mut u64 { unsafe { self.0.add(64) as *mut u64 } }
    fn spans(&self) -> *mut u64 { unsafe { self.0.add(64 + REC_MAX * 8) as *mut u64 } }
    fn trace(&self) -> *mut u8 { unsafe { self.0.add(64 + REC_MAX * 8 + SPAN_MAX * 8) } }
    pub fn reset(&self) { *self.hdr() = SharedRec { n: 0, trace_len: 0, nspans: 0, pad: 0, status: 0 } }
    pub fn push(&self, v: u64) { let h = self.hdr(); if (h.n as usize) < REC_MAX { unsafe { *self.choices().add(h.n as usize) = v } h.n += 1 } }
    pub fn push_span(&self, a: usize, b: usize) { let h = self.hdr(); if (h.nspans as usize) < SPAN_MAX { unsafe { *self.spans().add(h.nspans as usize) = (a as u64) << 32 | b as u64 } h.nspans += 1 } }
    pub fn say(&self, s: &str) {
        let h = self.hdr();
        let n = s.len().min(TRACE_MAX - h.trace_len as usize);
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), self.trace().add(h.trace_len as usize), n) }
        h.trace_len += n as u64;
    }
    pub fn get_choices(&self) -> Vec<u64> { let n = (self.hdr().n as usize).min(REC_MAX); unsafe { core::slice::from_raw_parts(self.choices(), n).to_vec() } }
    pub fn get_spans(&self) -> Vec<(usize, usize)> {
        let n = (self.hdr().nspans as usize).min(SPAN_MAX);
        unsafe { core::slice::from_raw_parts(self.spans(), n) }.iter().map(|v| ((*v >> 32) as usize, (*v & 0xFFFF_FFFF) as usize)).collect()
    }
    pub fn get_trace(&self) -> String { let n = self.hdr().trace_len as usize; String::from_utf8_lossy(unsafe { core::slice::from_raw_parts(self.trace(), n) }).into_owned() }
}

enum Mode { Rand(Rng), Replay(Vec<u64>, usize) }
pub struct Src { mode: Mode, shared: Option<Shared>, pub drawn: usize, open: Vec<usize> }
impl Src {
    pub fn random(seed: u64, shared: Option<Shared>) -> Self { Src { mode: Mode::Rand(Rng::new(seed)), shared, drawn: 0, open: Vec::new() } }
    pub fn replay(v: Vec<u64>, shared: Option<Shared>) -> Self { Src { mode: Mode::Replay(v, 0), shared, drawn: 0, open: Vec::new() } }
    /// A number below `n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Rand(r) => { let x = r.next(); if n == u64::MAX { x.min(n - 1) } else { ((x as u128 * n as u128) >> 64) as u64 } }
            Mode::Replay(l, p) => { let v = l.get(*p).copied().unwrap_or(0); *p += 1; v.min(n - 1) }
        };
        self.drawn += 1;
        if let Some(s) = self.shared { s.push(v) }
        v
    }
    pub fn below(&mut self, n: usize) -> usize { self.draw(n.max(1) as u64) as usize }
    /// Inclusive range; the lower end is the simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// True with probability `num`/`den`; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { if num == 0 { return false } self.draw(den) >= den.saturating_sub(num) }
    /// Index chosen by weight; index 0 is the simplest.
    pub fn pick(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.draw(tot.max(1));
        for (i, x) in w.iter().enumerate() { if v < *x as u64 { return i } v -= *x as u64 }
        0
    }
    pub fn of<'t, T>(&mut self, xs: &'t [T]) -> &'t T { let i = self.below(xs.len()); &xs[i] }
    pub fn u64(&mut self) -> u64 { self.draw(u64::MAX) }
    pub fn open(&mut self) { let d = self.drawn; self.open.push(d) }
    /// Closes spans a refused run left open.
    pub fn finish(&mut self) { while !self.open.is_empty() { self.close() } }
    pub fn close(&mut self) {
        let a = self.open.pop().unwrap_or(0);
        if let Some(s) = self.shared { if self.drawn > a { s.push_span(a, self.drawn) } }
    }
}
