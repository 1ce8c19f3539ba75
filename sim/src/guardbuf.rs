//! Buffers that end (and begin) exactly at inaccessible memory, surrounded by canaries.
use crate::sys::*;
const CANARY: u8 = 0xC9;
pub struct GuardBuf { base: *mut u8, cap: usize, cur: usize }
const PAGE: usize = 4096;
impl GuardBuf {
    pub fn new(max: usize) -> Self {
        let cap = (max + PAGE) / PAGE * PAGE;
        let p = map(cap + 2 * PAGE, false);
        unsafe {
            mprotect(p as *mut _, PAGE, PROT_NONE);
            mprotect(p.add(PAGE + cap) as *mut _, PAGE, PROT_NONE);
        }
        GuardBuf { base: unsafe { p.add(PAGE) }, cap, cur: 0 }
    }
    pub fn max(&self) -> usize { self.cap - 64 }
    /// A buffer of `len` bytes whose end touches the guard page.
    pub fn take(&mut self, len: usize, fill: u8) -> &'static mut [u8] {
        // A rare long value: a larger region takes over; the old one is left mapped.
        if len > self.max() { *self = GuardBuf::new(len * 2 + 64) }
        self.cur = len;
        unsafe {
            let p = self.base.add(self.cap - len);
            core::ptr::write_bytes(p.sub(64), CANARY, 64);
            core::ptr::write_bytes(p, fill, len);
            core::slice::from_raw_parts_mut(p, len)
        }
    }
    pub fn load(&mut self, data: &[u8]) -> &'static mut [u8] { let b = self.take(data.len(), 0); b.copy_from_slice(data); b }
    /// The buffer handed out last.
    pub fn last(&self) -> &'static [u8] { unsafe { core::slice::from_raw_parts(self.base.add(self.cap - self.cur), self.cur) } }
    /// False if something was written just before the buffer.
    pub fn intact(&self) -> bool {
        unsafe { core::slice::from_raw_parts(self.base.add(self.cap - self.cur - 64), 64) }.iter().all(|b| *b == CANARY)
    }
}
