//! What every run has at hand.
use crate::guardbuf::GuardBuf;
use crate::zoo::{all, Ty};
use std::rc::Rc;

pub struct World { pub tys: Rc<Vec<Ty>>, pub gin: GuardBuf, pub gout: GuardBuf, pub core: usize }
impl World {
    pub fn new() -> World { let tys = all(); let core = tys.iter().filter(|t| t.core).count(); World { tys: Rc::new(tys), gin: GuardBuf::new(1 << 20), gout: GuardBuf::new(1 << 20), core } }
    pub fn reset(&mut self) {}
}
