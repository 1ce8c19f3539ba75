//! What every run has at hand: the type table and guarded buffers.
use crate::guardbuf::GuardBuf;
use crate::zoo::{all, Ty};
use std::collections::HashMap;
use std::rc::Rc;

pub struct World { pub tys: Rc<Vec<Ty>>, pub gin: GuardBuf, pub gout: GuardBuf, pub gaux: GuardBuf, pub gx: GuardBuf, pub hdr: Rc<Ty>, pub by_norm: Rc<HashMap<String, Vec<usize>>>, pools: HashMap<&'static str, Rc<Vec<usize>>> }
impl World {
    pub fn new() -> World {
        let tys = all();
        let mut by_norm: HashMap<String, Vec<usize>> = HashMap::new();
        for t in &tys { by_norm.entry(t.norm.clone()).or_default().push(t.id) }
        World { tys: Rc::new(tys), gin: GuardBuf::new(4 << 20), gout: GuardBuf::new(4 << 20), gaux: GuardBuf::new(1 << 20), gx: GuardBuf::new(1 << 16), hdr: Rc::new(crate::zoo_derived::net_hdr()), by_norm: Rc::new(by_norm), pools: HashMap::new() }
    }
    pub fn reset(&mut self) {}
    /// The types satisfying a condition, computed once.
    pub fn pool(&mut self, name: &'static str, f: impl Fn(&Ty) -> bool) -> Rc<Vec<usize>> {
        let tys = self.tys.clone();
        self.pools.entry(name).or_insert_with(|| Rc::new({
            // The types that only vary the elements of others are drawn less often.
            let (thin, rest): (Vec<&Ty>, Vec<&Ty>) = tys.iter().filter(|t| f(t)).partition(|t| t.vt.thin());
            let k = if rest.is_empty() { 1 } else { (2 * thin.len()).div_ceil(rest.len()).max(1) };
            let mut v: Vec<usize> = Vec::new();
            for _ in 0..k { v.extend(rest.iter().map(|t| t.id)) }
            v.extend(thin.iter().map(|t| t.id));
            v
        })).clone()
    }
}
