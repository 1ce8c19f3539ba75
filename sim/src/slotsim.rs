//! Message slots through histories of good, failing and refused updates.
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::Slot;
use std::cell::Cell;

/// A message whose encoder is scripted: it emits its parts one by one and may fail between them.
pub struct Script { parts: Vec<Vec<u8>>, stop: usize, how: u8 }
#[derive(Debug)] pub struct Stopped(pub usize);
impl ErrOf for Stopped { fn e(self) -> ErrT { ErrT::Other(format!("stopped {}", self.0)) } }
thread_local! { static READ_FAILS: Cell<u8> = const { Cell::new(0) }; }
impl Encode for Script {
    type Error = Stopped;
    fn encode(&self, o: &mut Output) -> Result<(), Stopped> {
        for (k, p) in self.parts.iter().enumerate() {
            if k == self.stop { match self.how { 1 => return Err(Stopped(k)), 2 => inject_panic(k as u64), _ => {} } }
            // A user may write raw bytes or encode fields.
            if p.len() == 1 { let Ok(()) = p[0].encode(o); } else { if o.write(p).is_err() { inject_panic(99) } }
        }
        Ok(())
    }
}
impl Decode for Script {
    type Error = Stopped;
    /// Takes everything the slot offers.
    fn decode(i: &mut Input) -> Result<Self, Stopped> {
        match READ_FAILS.with(|c| c.replace(0)) { 1 => return Err(Stopped(0)), 2 => { let _ = i.read(1); inject_panic(1) } _ => {} }
        let n = i.remaining();
        let b = i.read(n).unwrap_or(b"?").to_vec();
        if i.capacity() != n { return Err(Stopped(1000)) }
        Ok(Script { parts: vec![b], stop: usize::MAX, how: 0 })
    }
}
impl Zoo for Script {
    fn schema() -> S { S::Unit }
    fn from_tree(t: &Tree) -> Self { let l = t.l(); Script { parts: l[0].l().iter().map(|p| p.b().to_vec()).collect(), stop: l[1].n() as usize, how: l[2].n() as u8 } }
    fn to_tree(&self) -> Tree { B(self.parts.concat()) }
}

struct M { slot: Box<dyn AnySlot>, buf: Vec<u8>, len: usize, ty: Option<usize> }

/// Whether `new` is `old` with some prefix of `want` written over it.
pub fn explained(old: &[u8], new: &[u8], want: &[u8]) -> bool {
    let l = new.iter().zip(want).take_while(|(a, b)| a == b).count();
    let j = (0..new.len()).rev().find(|j| new[*j] != old[*j]).map_or(0, |j| j + 1);
    new.len() == old.len() && j <= l
}

pub fn c03(cx: &mut Cx, w: &mut World) -> R {
    let tys = w.tys.clone();
    let pool = w.pool("full", |t| t.vt.full());
    let all = w.pool("any", |_| true);
    let mut ms: Vec<M> = Vec::new();
    for _ in 0..cx.src.range(1, 3) {
        let ty = if cx.src.chance(2, 5) { None } else if cx.src.chance(1, 3) { Some(*cx.src.of(&all)) } else { Some(*cx.src.of(&pool)) };
        let cap = *cx.src.of(&[0usize, 8, 16, 3, 32, 64, 300, 1, 1000]);
        let slot: Box<dyn AnySlot> = match ty {
            None => if cx.src.chance(1, 2) { Box::new(Slot::<Script>::with_capacity(cap)) } else {
                // From memory of the application's own.
                let len = cx.src.below(cap + 1);
                let b: Box<[u8]> = (0..cap).map(|k| k as u8).collect();
                let mut s = Slot::<Script>::with_capacity(0);
                if cap > 0 { s = unsafe { Slot::from_raw_parts(Box::into_raw(b) as *mut u8, cap, len) } }
                cx.probe("from_raw_parts");
                Box::new(s)
            },
            Some(t) => { let own = if cx.src.chance(1, 3) { tys[t].vt.new_slot() } else { None }; own.unwrap_or_else(|| tys[t].vt.slot(cap)) }
        };
        let mut slot = slot;
        let len = slot.len();
        let buf = slot.full().to_vec();
        if ty.is_some() { ensure!(len == 0, "slot:new", "a new slot has length {len}") }
        ms.push(M { slot, buf, len, ty });
    }
    for _ in 0..cx.src.range(2, 24) {
        cx.src.open();
        cx.step();
        cx.now += 1000;
        let k = cx.src.below(ms.len());
        op(cx, w, &mut ms[k])?;
        // Others are unaffected.
        for m in &mut ms { settle(cx, m)?; }
        cx.src.close();
    }
    cx.st.sim_ns += cx.now as u128;
    Ok(())
}

fn settle(cx: &mut Cx, m: &mut M) -> R {
    cx.check();
    let cap = m.buf.len();
    let now = m.slot.full().to_vec();
    ensure!(now == m.buf, "slot:bytes", "the slot's memory is {} rather than {}", hex(&now), hex(&m.buf));
    if let Err(e) = m.slot.agrees(&m.buf[..m.len], cap) { return viol("slot:accessor", format!("after the last operation {e}")) }
    cx.ev_bytes(m.slot.bytes());
    cx.state(crate::choice::mix(cap as u64, hash_bytes(&m.buf[..m.len])));
    Ok(())
}

fn op(cx: &mut Cx, w: &mut World, m: &mut M) -> R {
    let tys = w.tys.clone();
    let cap = m.buf.len();
    match cx.src.pick(&[8, 3, 3, 4, 1]) {
        0 => {
            // Encode something.
            let by_ref = cx.src.chance(1, 2);
            let Some(ty) = m.ty else {
                let n = cx.src.range(1, 6);
                let parts: Vec<Vec<u8>> = (0..n).map(|_| { let l = *cx.src.of(&[1usize, 2, 0, 5, cap / 2, cap / 3 + 1]); let b = cx.src.draw(256) as u8; (0..l).map(|i| b.wrapping_add(i as u8)).collect() }).collect();
                let how = cx.src.pick(&[4, 2, 2]) as u8;
                let stop = if how == 0 { usize::MAX } else { cx.src.below(n) };
                let want: Vec<u8> = parts.concat();
                let part: Vec<u8> = parts.iter().take(stop).cloned().collect::<Vec<_>>().concat();
                let t = L(vec![L(parts.into_iter().map(B).collect()), N(stop as u128), N(how as u128)]);
                cx.say(|| format!("write {} byte(s) to a slot of {cap} (length {}){}", want.len(), m.len, ["", ", failing", ", panicking"][how as usize]));
                let r = m.slot.write(&t, by_ref);
                if how == 0 && want.len() <= cap { return wrote(cx, m, r, &want, "scripted message") }
                let kind = if part.len() > cap || how == 0 { "write_out_of_room" } else if how == 1 { "encode_error" } else { "encode_panic" };
                return failed(cx, m, r, &part, if part.len() > cap || how == 0 { None } else { Some(how == 1) }, kind, "scripted message");
            };
            let ty = &tys[ty];
            let g = Gen { unenc: if cx.src.chance(1, 3) { 300 } else { 0 }, edge: *cx.src.of(&[250, 50, 700]), long: false };
            let budget = *cx.src.of(&[16usize, 4, 60, 300]);
            let t = gen(&mut cx.src, &ty.schema, &g, budget);
            let t = if ty.maps { ty.vt.own_tree(&t) } else { t };
            cx.say(|| format!("write {} {} to a slot of {cap} (length {})", ty.name, t.brief(), m.len));
            cx.note(ty.id as u64);
            let order = if ty.maps { None } else { Some(()) };
            match ref_encode(&ty.schema, &t) {
                Ok(e) => {
                    let r = m.slot.write(&t, by_ref);
                    if e.out.len() > cap {
                        if order.is_none() { return failed_any(cx, m, r) }
                        return failed(cx, m, r, &e.out, None, "write_out_of_room", ty.name);
                    }
                    if order.is_none() && r.as_ref().is_ok_and(|r| r.is_ok()) {
                        let got = m.slot.bytes().to_vec();
                        ensure!(same_encoding(&ty.schema, true, &e.out, &got), "slot:written", "{} {} was written as {}", ty.name, t.brief(), hex(&got));
                        return wrote(cx, m, r, &got, ty.name);
                    }
                    wrote(cx, m, r, &e.out, ty.name)
                }
                Err((_, part)) => {
                    let r = m.slot.write(&t, by_ref);
                    if order.is_none() { return failed_any(cx, m, r) }
                    let must = if part.len() > cap { None } else { Some(true) };
                    failed(cx, m, r, &part, must, "unencodable", ty.name)
                }
            }
        }
        1 => {
            let n = match cx.src.pick(&[4, 2, 2]) { 0 => cx.src.below(cap + 1), 1 => cap, _ => cap + 1 + cx.src.below(9) };
            let b = cx.src.draw(256) as u8;
            let d: Vec<u8> = (0..n).map(|i| b ^ (i as u8).wrapping_mul(3)).collect();
            cx.say(|| format!("copy {n} bytes into a slot of {cap} (length {})", m.len));
            let r = m.slot.copy(&d);
            if n <= cap {
                ensure!(r.is_ok(), "slot:copy", "copying {n} bytes into a slot of {cap} panicked");
                if n < m.len { cx.fault("shorter_message") }
                m.buf[..n].copy_from_slice(&d); m.len = n; cx.note(0xC0)
            } else {
                ensure!(r.is_err(), "slot:copy-long", "copying {n} bytes into a slot of {cap} was not refused");
                cx.fault("copy_too_long");
            }
            Ok(())
        }
        2 => {
            // Receive into the raw memory, then state the length.
            let n = if cap == 0 { 0 } else { cx.src.below(cap + 1) };
            let at = if cap == 0 { 0 } else { cx.src.below(cap) };
            let b = cx.src.draw(256) as u8;
            let raw = m.slot.full();
            ensure!(raw.len() == cap, "slot:raw", "the raw memory of a slot of {cap} has {} bytes", raw.len());
            let end = (at + n).min(cap);
            for i in at..end { let v = b.wrapping_mul(5).wrapping_add(i as u8); raw[i] = v; m.buf[i] = v }
            cx.note(0xAA);
            cx.say(|| format!("write raw memory {at}..{end} of a slot of {cap} (length {})", m.len));
            if cx.src.chance(3, 4) {
                let l = match cx.src.pick(&[4, 2, 1]) { 0 => cx.src.below(cap + 1), 1 => end, _ => cap + 1 + cx.src.below(1000) };
                cx.say(|| format!("set the length to {l}"));
                let r = m.slot.set_len(l);
                if l <= cap { ensure!(r.is_ok(), "slot:set_len", "setting the length {l} of a slot of {cap} panicked"); if l < m.len { cx.fault("shorter_message") } m.len = l }
                else { ensure!(r.is_err(), "slot:set_len-long", "setting the length {l} of a slot of {cap} was not refused"); cx.fault("length_too_long") }
            }
            Ok(())
        }
        3 => {
            let b = m.buf[..m.len].to_vec();
            cx.say(|| format!("read {}", hex(&b)));
            let Some(ty) = m.ty else {
                let how = cx.src.pick(&[4, 1, 1]) as u8;
                READ_FAILS.with(|c| c.set(how));
                let r = m.slot.read();
                READ_FAILS.with(|c| c.set(0));
                match (how, r) {
                    (0, Ok(Ok(t))) => ensure!(t == B(b.clone()), "slot:read", "reading offered {} rather than {}", t.brief(), hex(&b)),
                    (1, Ok(Err(_))) => cx.fault("decode_error"),
                    (2, Err(p)) if p.origin == Origin::Injected => cx.fault("decode_panic"),
                    (_, r) => return viol("slot:read", format!("reading {} bytes ended with {r:?}", b.len())),
                }
                return Ok(());
            };
            let ty = &tys[ty];
            let got = m.slot.read();
            cx.check();
            let d = judge(ty.name, &ty.schema, &b, expect(&ty.schema, &b), got, None, false)?;
            match d { Dn::Val(..) => cx.note(1), Dn::Refused(_) => cx.fault("read_refused"), Dn::Short => cx.fault("read_incomplete") }
            Ok(())
        }
        _ => Ok(()),
    }
}
type Wr = Result<Result<(), ErrT>, Panicked>;
fn wrote(cx: &mut Cx, m: &mut M, r: Wr, want: &[u8], name: &str) -> R {
    match r { Ok(Ok(())) => {} r => return viol("slot:write", format!("writing {} bytes ({name}) to a slot of {} ended with {r:?}", want.len(), m.buf.len())) }
    ensure!(m.slot.len() == want.len(), "slot:write-len", "after writing {} bytes ({name}) the slot's length is {}", want.len(), m.slot.len());
    if want.len() < m.len { cx.fault("shorter_message") }
    m.buf[..want.len()].copy_from_slice(want);
    m.len = want.len();
    cx.note(0x33);
    Ok(())
}
/// `must`: Some(true) an error, Some(false) a panic, None either.
fn failed(cx: &mut Cx, m: &mut M, r: Wr, part: &[u8], must: Option<bool>, kind: &'static str, name: &str) -> R {
    match (&r, must) {
        (Ok(Ok(())), _) => return viol("slot:accepted", format!("writing {name} to a slot of {} bytes succeeded although it cannot", m.buf.len())),
        (Err(p), Some(true)) => return viol("slot:panic", format!("writing {name} panicked at {} rather than returning an error", p.at)),
        (Ok(Err(_)), Some(false)) => return viol("slot:error", "a panic of user code was swallowed".to_string()),
        _ => {}
    }
    cx.fault(kind);
    let now = m.slot.full().to_vec();
    ensure!(m.slot.len() == m.len, "slot:failed-len", "a failed write of {name} changed the length from {} to {}", m.len, m.slot.len());
    ensure!(explained(&m.buf, &now, part), "slot:failed-bytes", "a failed write of {name} left {} over {} although it had emitted only {}", hex(&now), hex(&m.buf), hex(part));
    m.buf = now;
    Ok(())
}
/// As above for values whose order of emission is not known.
fn failed_any(cx: &mut Cx, m: &mut M, r: Wr) -> R {
    ensure!(!matches!(r, Ok(Ok(()))), "slot:accepted", "writing to a slot of {} bytes succeeded although it cannot", m.buf.len());
    cx.fault("map_write_failed");
    ensure!(m.slot.len() == m.len, "slot:failed-len", "a failed write changed the length from {} to {}", m.len, m.slot.len());
    m.buf = m.slot.full().to_vec();
    Ok(())
}
