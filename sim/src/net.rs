//! Nodes exchanging datagrams over a simulated network: loss, duplication, reordering, delay,
//! partitions, damage, crashes and restarts, skewed clocks, reseeded hashing, foreign peers.
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
enum Pool { Any, Maps, Clocks, Fallible }
struct Cfg { pool: Pool, damage: u64, foreign: bool, cross: bool, hashing: bool, clocks: bool, strict: bool, aimed: bool }

pub fn c01(cx: &mut Cx, w: &mut World) -> R { net(cx, w, &Cfg { pool: Pool::Any, damage: 0, foreign: false, cross: false, hashing: true, clocks: false, strict: false, aimed: false }) }
pub fn c02(cx: &mut Cx, w: &mut World) -> R { net(cx, w, &Cfg { pool: Pool::Any, damage: 450, foreign: false, cross: false, hashing: false, clocks: false, strict: false, aimed: false }) }
pub fn c11(cx: &mut Cx, w: &mut World) -> R { net(cx, w, &Cfg { pool: Pool::Any, damage: 0, foreign: true, cross: true, hashing: false, clocks: false, strict: false, aimed: false }) }
pub fn c12(cx: &mut Cx, w: &mut World) -> R { net(cx, w, &Cfg { pool: Pool::Maps, damage: 0, foreign: true, cross: false, hashing: true, clocks: false, strict: false, aimed: false }) }
pub fn c13(cx: &mut Cx, w: &mut World) -> R { net(cx, w, &Cfg { pool: Pool::Clocks, damage: 0, foreign: true, cross: false, hashing: false, clocks: true, strict: false, aimed: false }) }
pub fn c16(cx: &mut Cx, w: &mut World) -> R { net(cx, w, &Cfg { pool: Pool::Fallible, damage: 550, foreign: false, cross: false, hashing: false, clocks: false, strict: true, aimed: true }) }

pub fn has(s: &S, f: &dyn Fn(&S) -> bool) -> bool {
    if f(s) { return true }
    match s {
        S::Nz(i) | S::Seq(i, _) | S::Arr(i, _) | S::Opt(i) | S::Bnd(i) | S::RefC(i) | S::Set(i) => has(i, f),
        S::Res(a, b) | S::Map(a, b) => has(a, f) || has(b, f),
        S::Prod(v) | S::Struct(v) => v.iter().any(|s| has(s, f)),
        S::Enum(_, vs) => vs.iter().any(|v| v.1.iter().any(|s| has(s, f))),
        // Looked into once.
        S::Rec(g) => { thread_local!(static IN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }); if IN.replace(true) { return false } let r = has(&g(), f); IN.set(false); r }
        _ => false,
    }
}
pub fn fallible(s: &S) -> bool { has(s, &|s| matches!(s, S::Char | S::Nz(_) | S::Str(_) | S::CStr | S::Bytes(Some(_)) | S::Seq(_, Some(_)) | S::Bnd(_) | S::Ip | S::Sa | S::Enum(..) | S::Dur)) }

struct Node { up: bool, epoch: u32, foreign: bool, hash: (u64, u8), slots: BTreeMap<usize, Box<dyn AnySlot>>, recv: BTreeMap<usize, Box<dyn AnySlot>>, skew: i64, rate: i64, extreme: u8 }
struct Req { from: usize, to: usize, ty: usize, as_ty: usize, tree: Tree, tries: u32, done: bool, want: Tree, after_heal: u32 }
#[derive(Clone)]
struct Dg { from: usize, to: usize, kind: u32, items: Vec<(usize, usize)>, bytes: Vec<u8>, marks: Vec<Mark>, body_at: usize, intact: bool }
enum Ev { Deliver(Dg), Retry(usize), Crash(usize), Restart(usize), Heal, Tick(usize) }

struct Net<'c> {
    cfg: &'c Cfg, nodes: Vec<Node>, reqs: Vec<Req>, q: Vec<(u64, u64, Ev)>, seq: u64, healed: bool, parts: Vec<(usize, usize)>,
    loss: u64, dup: u64, delay: u64, tys: Rc<Vec<Ty>>, hdr: Rc<Ty>, seen: Vec<((i64, u32), i64)>, last: Vec<u8>, long: bool,
}
const MS: u64 = 1_000_000;

fn net(cx: &mut Cx, w: &mut World, cfg: &Cfg) -> R {
    let pool = match cfg.pool {
        Pool::Any => w.pool("any", |_| true),
        Pool::Maps => w.pool("maps", |t| t.maps),
        Pool::Clocks => w.pool("clocks", |t| has(&t.schema, &|s| matches!(s, S::Dur | S::Time))),
        Pool::Fallible => w.pool("fallible", |t| fallible(&t.schema)),
    };
    let tys = w.tys.clone();
    // Swarm: a few types and fault rates per run.
    let n = cx.src.range(2, 4);
    let kinds: Vec<usize> = (0..cx.src.range(1, 4)).map(|_| *cx.src.of(&pool)).collect();
    let loss = *cx.src.of(&[0u64, 50, 150, 300]);
    let dup = *cx.src.of(&[0u64, 100, 250]);
    let delay = *cx.src.of(&[1u64, 20, 200]) * MS;
    let mut nodes = Vec::new();
    for i in 0..n {
        let foreign = cfg.foreign && cx.src.chance(if i == 0 { 0 } else { 1 }, 2);
        let hash = hashing(cx, cfg);
        nodes.push(Node { up: true, epoch: 0, foreign, hash, slots: BTreeMap::new(), recv: BTreeMap::new(), skew: 0, rate: 0, extreme: 0 });
    }
    if cfg.clocks { for nd in &mut nodes { nd.skew = match cx.src.below(4) { 0 => 0, 1 => cx.src.u64() as i64 >> 20, 2 => -(cx.src.draw(1 << 32) as i64) * 1_000_000_000, _ => cx.src.draw(4_000_000_000) as i64 - 2_000_000_000 }; nd.rate = cx.src.draw(2001) as i64 - 1000; nd.extreme = cx.src.below(4) as u8 } }
    let long = cx.src.chance(1, 12);
    let mut s = Net { cfg, nodes, reqs: Vec::new(), q: Vec::new(), seq: 0, healed: false, parts: Vec::new(), loss, dup, delay, tys: tys.clone(), hdr: w.hdr.clone(), seen: Vec::new(), last: Vec::new(), long };

    let m = cx.src.range(1, 8);
    for r in 0..m {
        cx.src.open();
        let from = cx.src.below(n);
        let to = (from + 1 + cx.src.below(n - 1)) % n;
        let ty = *cx.src.of(&kinds);
        let mut as_ty = ty;
        if cfg.cross && cx.src.chance(1, 2) { let c = &w.by_norm[&tys[ty].norm]; as_ty = *cx.src.of(c); if as_ty != ty { cx.probe("interchanged_type") } }
        let at = cx.src.draw(400) * MS;
        s.set_node(from);
        let mut tree = s.value(cx, ty, from, at);
        // A foreign peer may repeat keys; the last one counts.
        if s.nodes[from].foreign && tys[ty].maps && cx.src.chance(1, 2) { let u = repeat_keys(cx, &tys[ty].schema, &tree); if u != tree { cx.fault("repeated_key"); tree = u } }
        let want = canon(&tys[ty].schema, arrives(&tys[ty].schema, &tree));
        s.reqs.push(Req { from, to, ty, as_ty, tree, tries: 0, done: false, want, after_heal: 0 });
        s.at(at, Ev::Retry(r));
        cx.note(ty as u64);
        cx.src.close();
    }
    // Faults that take a node or a link down, then bring it back.
    for _ in 0..cx.src.pick(&[3, 3, 2, 1]) {
        cx.src.open();
        let i = cx.src.below(n);
        let t = cx.src.draw(1200) * MS;
        match cx.src.pick(&[2, 2, 1]) {
            0 => { s.at(t, Ev::Crash(i)); let d = (1 + cx.src.draw(500)) * MS; s.at(t + d, Ev::Restart(i)) }
            1 => { let j = (i + 1 + cx.src.below(n - 1)) % n; s.parts.push((i, j)); if cx.src.chance(1, 2) { s.parts.push((j, i)) } cx.fault("partition"); cx.say(|| format!("fault: partition between node {i} and node {j} until healed")) }
            _ => if cfg.clocks { s.at(t, Ev::Tick(i)) } else { s.at(t, Ev::Crash(i)); s.at(t, Ev::Restart(i)) }
        }
        cx.src.close();
    }
    let heal = 1500 * MS + cx.src.draw(1000) * MS;
    s.at(heal, Ev::Heal);

    let mut steps = 0;
    while let Some(k) = (0..s.q.len()).min_by_key(|k| (s.q[*k].0, s.q[*k].1)) {
        let (t, _, ev) = s.q.swap_remove(k);
        cx.now = t;
        steps += 1;
        cx.step();
        if steps > 3000 { return viol("stuck", "the exchange did not come to rest in 3000 events") }
        s.handle(cx, w, ev)?;
        if s.healed && s.reqs.iter().all(|r| r.done) { break }
        let h = s.nodes.iter().fold(0u64, |h, n| crate::choice::mix(h, n.up as u64 | (n.slots.len() as u64) << 8 | (n.recv.len() as u64) << 16 | (n.foreign as u64) << 40)) ^ s.reqs.iter().fold(steps.min(1), |h, r| crate::choice::mix(h, r.done as u64 | (r.ty as u64) << 1 | (r.tries as u64) << 16));
        cx.state(h);
    }
    cx.st.sim_ns += cx.now as u128;
    for (i, r) in s.reqs.iter().enumerate() {
        ensure!(r.done, "liveness", "request {i} ({} from node {} to node {}) was never answered", tys[r.ty].name, r.from, r.to);
    }
    // Order of time points is kept.
    let mut seen = std::mem::take(&mut s.seen);
    seen.sort();
    for p in seen.windows(2) { cx.check(); ensure!(p[0].1 <= p[1].1, "clock:order", "time points {:?} and {:?} arrived as {} and {}", p[0].0, p[1].0, p[0].1, p[1].1) }
    Ok(())
}

fn hashing(cx: &mut Cx, cfg: &Cfg) -> (u64, u8) { if cfg.hashing { (cx.src.u64(), cx.src.pick(&[4, 2, 2, 1]) as u8) } else { (7, 0) } }

impl Net<'_> {
    fn at(&mut self, t: u64, e: Ev) { self.seq += 1; self.q.push((t, self.seq, e)) }
    fn set_node(&self, i: usize) { let (s, k) = self.nodes[i].hash; set_hashing(s, k) }

    fn clock(&self, cx: &mut Cx, i: usize, at: u64) -> (i64, u32) {
        let n = &self.nodes[i];
        let base = match n.extreme { 1 => i64::MIN as i128 * 1_000_000_000 + 3_000_000_000, 2 => i64::MAX as i128 * 1_000_000_000 - 4_000_000_000, 3 => -600_000_000, _ => 1_700_000_000_000_000_000 };
        let t = base + n.skew as i128 * (n.extreme == 0) as i128 + at as i128 + at as i128 * n.rate as i128 / 1000 + cx.src.draw(1000) as i128;
        let s = t.div_euclid(1_000_000_000).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
        (s, t.rem_euclid(1_000_000_000) as u32)
    }
    fn value(&mut self, cx: &mut Cx, ty: usize, node: usize, at: u64) -> Tree {
        let s = &self.tys[ty].schema;
        let g = Gen { unenc: 0, edge: *cx.src.of(&[250, 50, 700]), long: self.long };
        let budget = *cx.src.of(&[60usize, 16, 400]);
        let t = gen(&mut cx.src, s, &g, budget);
        if self.cfg.clocks && cx.src.chance(1, 2) { let r = self.clock(cx, node, at); cx.probe("clock_reading"); return with_clock(s, t, r) }
        t
    }

    fn handle(&mut self, cx: &mut Cx, w: &mut World, ev: Ev) -> R {
        match ev {
            Ev::Retry(r) => {
                if self.reqs[r].done { return Ok(()) }
                let from = self.reqs[r].from;
                let wait = (80 + cx.src.draw(60)) * MS;
                self.at(cx.now + wait, Ev::Retry(r));
                if !self.nodes[from].up { return Ok(()) }
                self.reqs[r].tries += 1;
                if self.healed {
                    self.reqs[r].after_heal += 1;
                    ensure!(self.reqs[r].after_heal <= 6, "liveness", "request {r} ({}) is unanswered after 5 attempts since faults stopped", self.tys[self.reqs[r].ty].name);
                }
                // Other requests waiting for the same peer may share the datagram.
                let mut ids = vec![r];
                let to = self.reqs[r].to;
                if cx.src.chance(1, 2) { for k in 0..self.reqs.len() { if k != r && !self.reqs[k].done && self.reqs[k].from == from && self.reqs[k].to == to && ids.len() < 4 { ids.push(k) } } }
                let items = ids.iter().map(|k| (self.reqs[*k].ty, self.reqs[*k].as_ty, *k, self.reqs[*k].tree.clone())).collect();
                self.send(cx, w, from, to, 0, items)
            }
            Ev::Crash(i) => {
                if self.healed || !self.nodes[i].up { return Ok(()) }
                cx.fault("crash"); cx.say(|| format!("fault: node {i} crashes"));
                let n = &mut self.nodes[i]; n.up = false; n.slots.clear(); n.recv.clear();
                Ok(())
            }
            Ev::Restart(i) => {
                if self.nodes[i].up { return Ok(()) }
                let h = hashing(cx, self.cfg);
                let n = &mut self.nodes[i]; n.up = true; n.epoch += 1; n.hash = h;
                cx.fault("restart"); cx.say(|| format!("fault: node {i} restarts"));
                if self.cfg.clocks && cx.src.chance(1, 2) { self.jump(cx, i) }
                Ok(())
            }
            Ev::Tick(i) => { self.jump(cx, i); Ok(()) }
            Ev::Heal => {
                self.healed = true; self.parts.clear(); self.loss = 0; self.dup = 0;
                for n in &mut self.nodes { if !n.up { n.up = true; n.epoch += 1 } }
                cx.say(|| "faults stop".into());
                Ok(())
            }
            Ev::Deliver(d) => {
                if !self.nodes[d.to].up { cx.fault("lost_to_crash"); return Ok(()) }
                self.set_node(d.to);
                self.receive(cx, w, d)
            }
        }
    }
    fn jump(&mut self, cx: &mut Cx, i: usize) {
        let by = match cx.src.below(3) { 0 => -3_600_000_000_000, 1 => 86_400_000_000_000, _ => cx.src.u64() as i64 >> 16 };
        self.nodes[i].skew = self.nodes[i].skew.wrapping_add(by) >> 1;
        cx.fault("clock_jump"); cx.say(|| format!("fault: clock of node {i} jumps by {by} ns"));
    }

    fn env_tree(r: usize, kind: u8, t: &Tree) -> Tree { L(vec![N(r as u128 * 0x0101_0101_0101 + 1), N(kind as u128), t.clone()]) }

    /// Encodes a header and messages into one datagram and hands it to the network.
    fn send(&mut self, cx: &mut Cx, w: &mut World, from: usize, to: usize, kind: u32, items: Vec<(usize, usize, usize, Tree)>) -> R {
        self.set_node(from);
        let n = &self.nodes[from];
        let hdr_tree = L(vec![N(from as u128), N(n.epoch as u128), V(kind, vec![]), L(items.iter().map(|i| L(vec![N(i.1 as u128), N(i.2 as u128)])).collect())]);
        let tys = self.tys.clone();
        let mut bytes;
        let mut marks;
        if n.foreign {
            cx.probe("sent_by_reference_peer");
            let mut e = Enc::default();
            e.put(&self.hdr.schema, &hdr_tree).expect("header");
            let body_at = e.out.len();
            for (ty, _, r, t) in &items {
                e.put(&tys[*ty].env, &Self::env_tree(*r, 0x40 + kind as u8, t)).expect("encodable");
            }
            // Any non-zero marker means the same.
            if cx.src.chance(1, 4) {
                let at: Vec<usize> = e.marks.iter().filter(|m| m.kind == Mk::Bool && e.out[m.at] != 0).map(|m| m.at).collect();
                for i in at { e.out[i] = *cx.src.of(&[1u8, 2, 0x10, 0x80, 0xFE, 0xFF]); cx.probe("truthy_marker") }
            }
            cx.say(|| format!("node {from} (reference peer) sends {} to node {to}: {}", ["request", "reply", "refusal"][kind as usize], hex(&e.out)));
            let (b, m) = (e.out, e.marks);
            return self.transmit(cx, Dg { from, to, kind, items: items.iter().map(|i| (i.1, i.2)).collect(), bytes: b, marks: m, body_at, intact: true });
        }
        let hdr = self.hdr.clone();
        let e = encode_ok(w, &hdr, &hdr_tree, 0, &[], 0)?;
        bytes = e.bytes;
        marks = e.marks;
        let body_at = bytes.len();
        for (ty, _, r, t) in &items {
            cx.src.open();
            let ty = &tys[*ty];
            let et = Self::env_tree(*r, 0x40 + kind as u8, t);
            let want = ref_encode(&ty.env, &et).map_err(|e| e.0).expect("encodable");
            let base = bytes.len();
            let k = want.out.len();
            if cx.src.chance(1, 3) && !ty.vt.thin() {
                // Through the node's reused slot for this type.
                let fits = self.nodes[from].slots.get(&ty.id).is_some_and(|s| s.cap() >= k);
                if !fits { let s = if cx.src.chance(1, 3) { ty.vt.new_env_slot() } else { None }; let s = s.unwrap_or_else(|| ty.vt.env_slot(k + 40)); self.nodes[from].slots.insert(ty.id, s); }
                let by_ref = cx.src.chance(1, 2);
                let s = self.nodes[from].slots.get_mut(&ty.id).expect("slot");
                match s.write(&et, by_ref) {
                    Err(p) => return viol("encode:panic", format!("writing {} {} to a slot of {} bytes panicked at {}", ty.name, t.brief(), s.cap(), p.at)),
                    Ok(Err(e)) => return viol("encode:error", format!("writing {} {} to a slot failed with {e:?}", ty.name, t.brief())),
                    Ok(Ok(())) => {}
                }
                let got = s.bytes().to_vec();
                ensure!(same_encoding(&ty.env, ty.maps, &want.out, &got), "encode:bytes", "{} {} was written to a slot as {} rather than {}", ty.name, t.brief(), hex(&got), hex(&want.out));
                marks.extend(want.marks.iter().map(|m| Mark { at: m.at + base, ..*m }));
                bytes.extend_from_slice(&got);
                cx.probe("encoded_into_slot");
            } else {
                let view = if cx.src.chance(1, 2) { cx.src.below(ty.vt.views() as usize) as u8 } else { 0 };
                let slack = *cx.src.of(&[0usize, 0, 1, 7]);
                let f = ty.vt.mk(t, view);
                let (seq, kb) = (et.l()[0].n() as u64, et.l()[1].n() as u8);
                let f: EncFn = Box::new(move |o: &mut Output| { let Ok(()) = seq.encode(o); let Ok(()) = kb.encode(o); f(o) });
                let e = encode_with(w, ty.name, &ty.env, ty.maps, want, &et, &f, view, &bytes.clone(), slack)?;
                marks.extend(e.marks.iter().map(|m| Mark { at: m.at + base, ..*m }));
                bytes.extend_from_slice(&e.bytes);
            }
            cx.check();
            cx.src.close();
        }
        cx.note(0x5E0 + kind as u64); cx.note(bytes.len() as u64);
        cx.ev_bytes(&bytes);
        cx.say(|| format!("node {from} sends {} to node {to} [{}]: {}", ["request", "reply", "refusal"][kind as usize], items.iter().map(|i| tys[i.0].name).collect::<Vec<_>>().join(", "), hex(&bytes)));
        self.transmit(cx, Dg { from, to, kind, items: items.iter().map(|i| (i.1, i.2)).collect(), bytes, marks, body_at, intact: true })
    }

    fn transmit(&mut self, cx: &mut Cx, d: Dg) -> R {
        if self.parts.contains(&(d.from, d.to)) { cx.fault("partitioned_drop"); return Ok(()) }
        if cx.src.chance(self.loss, 1000) { cx.fault("loss"); cx.say(|| "fault: lost".into()); return Ok(()) }
        let copies = 1 + if cx.src.chance(self.dup, 1000) { cx.fault("duplicate"); 1 } else { 0 };
        for _ in 0..copies {
            cx.src.open();
            let mut d = d.clone();
            let mut delay = 1 + cx.src.draw(if self.healed { MS } else { self.delay });
            if !self.healed && cx.src.chance(1, 12) { delay += 400 * MS; cx.fault("delayed") }
            if !self.healed && cx.src.chance(self.cfg.damage, 1000) {
                for _ in 0..cx.src.pick(&[6, 2, 1]) + 1 {
                    // Mostly aim at the messages rather than the header.
                    let k = if self.cfg.aimed || cx.src.chance(5, 6) {
                        let mut body = d.bytes.split_off(d.body_at.min(d.bytes.len()));
                        let marks: Vec<Mark> = d.marks.iter().filter(|m| m.at >= d.body_at + 9).map(|m| Mark { at: m.at - d.body_at, ..*m }).collect();
                        let k = damage(&mut cx.src, &mut body, &marks, &self.last);
                        d.bytes.extend_from_slice(&body);
                        k
                    } else { damage(&mut cx.src, &mut d.bytes, &d.marks, &self.last) };
                    cx.fault(k);
                    cx.say(|| format!("fault: {k}: {}", hex(&d.bytes)));
                }
                d.intact = false;
            }
            let t = cx.now + delay;
            if self.q.iter().any(|e| matches!(&e.2, Ev::Deliver(o) if o.to == d.to && e.0 > t)) { cx.fault("reorder") }
            self.at(t, Ev::Deliver(d));
            cx.src.close();
        }
        self.last = d.bytes[d.body_at.min(d.bytes.len())..].to_vec();
        Ok(())
    }

    fn receive(&mut self, cx: &mut Cx, w: &mut World, d: Dg) -> R {
        cx.say(|| format!("node {} receives {} bytes from node {}{}", d.to, d.bytes.len(), d.from, if d.intact { "" } else { " (damaged)" }));
        let tys = self.tys.clone();
        let strict = self.cfg.strict;
        let hdr = self.hdr.clone();
        let b = &d.bytes[..];
        let foreign = self.nodes[d.to].foreign;
        // Header.
        let dn = if foreign { match expect(&hdr.schema, b) { Ok((t, n)) => Dn::Val(t, n), Err(e) => Dn::Refused(ErrT::Other(format!("{e:?}"))) } } else { cx.check(); decode_at(w, &hdr, b, 0, 0, strict)? };
        let Dn::Val(h, mut pos) = dn else {
            ensure!(!d.intact, "decode:intact", "the intact header {} was refused", hex(b));
            cx.probe("header_refused");
            return Ok(())
        };
        let hl = h.l();
        let kind = hl[2].v().0;
        let items: Vec<(usize, usize)> = hl[3].l().iter().take(64).map(|e| (e.l()[0].n() as usize % tys.len(), e.l()[1].n() as usize)).collect();
        if d.intact { ensure!(items == d.items && kind == d.kind, "decode:intact", "header arrived as {}", h.brief()) }
        let mut answers = Vec::new();
        let mut naks = Vec::new();
        for (k, (as_ty, r)) in items.iter().enumerate() {
            let ty = &tys[*as_ty];
            cx.note(0xDEC); cx.note(ty.id as u64);
            let single = items.len() == 1;
            let dn = if foreign {
                match expect(&ty.env, &b[pos..]) { Ok((t, n)) => Dn::Val(t, n), Err(DErr::Eof) => Dn::Short, Err(DErr::Bad(e)) => Dn::Refused(e) }
            } else if single && !ty.vt.thin() && cx.src.chance(1, 2) {
                self.via_slot(cx, d.to, ty, &b[pos..], strict)?
            } else {
                self.via_stream(cx, w, ty, b, pos, strict)?
            };
            if let (true, false, Dn::Refused(e)) = (strict, foreign, &dn) { said(ty, b, pos + 9, e)?; cx.check() }
            match dn {
                Dn::Val(t, n) => {
                    let body = &t.l()[2];
                    cx.ev(1, crate::ctx::hash_bytes(&key(body)));
                    if d.intact { self.arrived(cx, *r, kind, *as_ty, body)? }
                    if kind == 0 { answers.push((*as_ty, *r, body.clone())) }
                    pos += n;
                }
                Dn::Refused(e) => {
                    cx.note(0xBAD); cx.note(hash_str(&format!("{:?}", std::mem::discriminant(e.leaf()))));
                    cx.probe("refused");
                    cx.say(|| format!("  refused: {e:?}"));
                    if d.intact {
                        // Only a receiver of another type may refuse what was sent intact.
                        let rq = &self.reqs[*r];
                        ensure!(rq.as_ty != rq.ty, "decode:intact", "the intact message {} was refused: {e:?}", hex(&b[pos..]));
                        cx.probe("receiver_too_small");
                        if kind == 0 { naks.push((*as_ty, *r)) } else { self.reqs[*r].done = true }
                        // What follows cannot be located; the sender will retry it.
                        if k + 1 < items.len() { break }
                    }
                    break;
                }
                Dn::Short => {
                    cx.note(0x507); cx.probe("incomplete");
                    ensure!(!d.intact, "decode:intact", "the intact message {} of type {} came out incomplete", hex(&b[pos..]), ty.name);
                    break;
                }
            }
        }
        if d.intact && naks.is_empty() && kind != 2 && items.iter().all(|i| self.reqs[i.1].as_ty == self.reqs[i.1].ty) { ensure!(pos == b.len(), "decode:consumed", "{} bytes remain after the last message of an intact datagram", b.len() - pos) }
        if !d.intact || kind == 2 {
            if kind == 2 && d.intact { for i in &items { self.reqs[i.1].done = true } }
            return Ok(())
        }
        if !naks.is_empty() {
            for (_, r) in &naks { if self.reqs[*r].from == d.from { self.refusal(cx, w, d.to, d.from, *r)? } }
        }
        if !answers.is_empty() {
            // The answer repeats the value, re-encoded by the receiver.
            let items = answers.into_iter().filter_map(|(ty, r, t)| { let mine = self.reqs[r].ty; if ref_encode(&tys[ty].schema, &t).is_ok() { Some((ty, mine, r, t)) } else { None } }).collect();
            self.send(cx, w, d.to, d.from, 1, items)?;
        }
        Ok(())
    }
    fn refusal(&mut self, cx: &mut Cx, w: &mut World, from: usize, to: usize, r: usize) -> R {
        // An empty body of unit type.
        let unit = self.tys.iter().position(|t| t.name == "()").expect("unit");
        self.send(cx, w, from, to, 2, vec![(unit, unit, r, L(vec![]))])
    }
    /// An intact message was decoded: it must be what was sent.
    fn arrived(&mut self, cx: &mut Cx, r: usize, kind: u32, as_ty: usize, body: &Tree) -> R {
        if kind == 2 { return Ok(()) }
        let tys = self.tys.clone();
        let rq = &mut self.reqs[r];
        if rq.as_ty == rq.ty && as_ty == rq.ty {
            let ty = &tys[rq.ty];
            ensure!(*body == rq.want, "roundtrip", "{} sent as {} arrived as {}", ty.name, rq.tree.brief(), body.brief());
            if self.cfg.clocks { let (mut a, mut b) = (Vec::new(), Vec::new()); times(&ty.schema, &rq.tree, &mut a); times(&ty.schema, body, &mut b); for (x, y) in a.iter().zip(&b) { self.seen.push((*x, y.0)); let want = if x.0 < 0 && x.1 > 0 { x.0 + 1 } else { x.0 }; ensure!(y.0 == want && y.1 == 0, "clock:second", "time point {x:?} arrived as {y:?}") } }
        }
        cx.check();
        if kind == 1 && !rq.done { rq.done = true; cx.probe("answered"); }
        Ok(())
    }

    fn via_slot(&mut self, cx: &mut Cx, node: usize, ty: &Ty, b: &[u8], strict: bool) -> R<Dn> {
        let fits = self.nodes[node].recv.get(&ty.id).is_some_and(|s| s.cap() >= b.len());
        if !fits { let s = ty.vt.env_slot(b.len() + 32); self.nodes[node].recv.insert(ty.id, s); }
        let raw = cx.src.chance(1, 2);
        let s = self.nodes[node].recv.get_mut(&ty.id).expect("slot");
        let r = if raw { s.full()[..b.len()].copy_from_slice(b); s.set_len(b.len()) } else { s.copy(b) };
        if let Err(p) = r { return viol("slot:receive", format!("receiving {} bytes into a slot of {} panicked at {}", b.len(), s.cap(), p.at)) }
        cx.check(); cx.probe("decoded_from_slot");
        let got = s.read();
        judge(ty.name, &ty.env, b, expect(&ty.env, b), got, None, strict)
    }
    fn via_stream(&mut self, cx: &mut Cx, w: &mut World, ty: &Ty, b: &[u8], at: usize, strict: bool) -> R<Dn> {
        let how = if cx.src.chance(1, 3) { cx.src.below(DEC_AS as usize) as u8 } else { 0 };
        cx.check();
        let exp = expect(&ty.env, &b[at..]);
        let buf = w.gin.load(b);
        let mut i = Input::new(buf);
        ensure!(i.read(at).is_ok(), "decode:prefix", "skipping {at} of {} bytes failed", b.len());
        let got = guard(|| { let Ok(s) = u64::decode(&mut i); let Ok(k) = u8::decode(&mut i); let r = if how == 0 { ty.vt.dec(&mut i) } else { ty.vt.dec_as(&mut i, how) }; r.map(|t| L(vec![N(s as u128), N(k as u128), t])) });
        let pos = i.position();
        ensure!(pos >= at && pos <= b.len(), "decode:position", "{}: cursor at {pos} of {}", ty.name, b.len());
        ensure!(&*buf == b, "decode:wrote", "{}: decoding changed its input", ty.name);
        judge(ty.name, &ty.env, &b[at..], exp, got, Some(pos - at), strict)
    }
}

/// What the error reported for `b[at..]` says about itself.
fn said(ty: &Ty, b: &[u8], at: usize, e: &ErrT) -> R {
    if at > b.len() || matches!(e.leaf(), ErrT::DurOverflow) { return Ok(()) }
    match guard(|| (ty.told.dec)(&mut Input::new(&b[at..]))) {
        Ok(Some((x, chain))) => {
            ensure!(x == *e, "decode:error", "{}: {} was refused with {x:?} rather than {e:?}", ty.name, hex(&b[at..]));
            if let Some(c) = chain { if let Err(m) = conveys(e, &c) { return viol("decode:message", format!("{}: {} was refused with {e:?}, but the error {m}", ty.name, hex(&b[at..]))) } }
            Ok(())
        }
        Ok(None) => viol("decode:invalid", format!("{}: the invalid {} ({e:?}) was accepted when decoded again", ty.name, hex(&b[at..]))),
        Err(p) => { if matches!(e.leaf(), ErrT::Len { .. }) { return Ok(()) } viol("decode:panic", format!("{}: {} is invalid ({e:?}) but decoding it, or saying so, panicked at {}", ty.name, hex(&b[at..]), p.at)) }
    }
}

fn times(s: &S, t: &Tree, out: &mut Vec<(i64, u32)>) {
    match (s, t) {
        (S::Time, L(l)) => out.push((l[0].n() as i64, l[1].n() as u32)),
        (S::Prod(f) | S::Struct(f), L(l)) => for (s, t) in f.iter().zip(l) { times(s, t, out) },
        (S::Seq(i, _) | S::Arr(i, _), L(l)) => for t in l { times(i, t, out) },
        (S::Opt(i) | S::Bnd(i), V(_, l)) => for t in l { times(i, t, out) },
        (S::Res(a, b), V(k, l)) => for t in l { times(if *k == 0 { a } else { b }, t, out) },
        (S::RefC(i), t) => times(i, t, out),
        (S::Enum(_, vs), V(k, l)) => for (s, t) in vs[*k as usize].1.iter().zip(l) { times(s, t, out) },
        _ => {}
    }
}
/// Puts a clock reading wherever the type holds a time point.
fn with_clock(s: &S, t: Tree, r: (i64, u32)) -> Tree {
    match (s, t) {
        (S::Time, _) => L(vec![N(r.0 as i128 as u128), N(r.1 as u128)]),
        (S::Prod(f) | S::Struct(f), L(l)) => L(f.iter().zip(l).map(|(s, t)| with_clock(s, t, r)).collect()),
        (S::Seq(i, _) | S::Arr(i, _), L(l)) => L(l.into_iter().enumerate().map(|(k, t)| with_clock(i, t, (r.0.saturating_add(k as i64), r.1))).collect()),
        (S::Opt(i) | S::Bnd(i), V(k, l)) => V(k, l.into_iter().map(|t| with_clock(i, t, r)).collect()),
        (S::Res(a, b), V(k, l)) => { let i = if k == 0 { a } else { b }; V(k, l.into_iter().map(|t| with_clock(i, t, r)).collect()) }
        (S::RefC(i), t) => with_clock(i, t, r),
        (S::Enum(_, vs), V(k, l)) => V(k, vs[k as usize].1.iter().zip(l).map(|(s, t)| with_clock(s, t, r)).collect()),
        (_, t) => t,
    }
}
/// Repeats some keys of maps and sets, as a careless peer might.
/// How many entries a peer that repeats keys adds; now and then more than there can be keys.
fn repeats(cx: &mut Cx) -> usize { if cx.src.chance(1, 10) { cx.src.range(3, 600) } else { cx.src.range(1, 3) } }
fn repeat_keys(cx: &mut Cx, s: &S, t: &Tree) -> Tree {
    match (s, t) {
        (S::Map(_, v), L(l)) if !l.is_empty() => {
            let mut l = l.clone();
            for _ in 0..repeats(cx) {
                let k = cx.src.below(l.len());
                let key = l[k].l()[0].clone();
                let val = gen(&mut cx.src, v, &Gen::default(), 8);
                let at = cx.src.below(l.len() + 1);
                l.insert(at, L(vec![key, val]));
            }
            L(l)
        }
        (S::Set(_), L(l)) if !l.is_empty() => { let mut l = l.clone(); for _ in 0..repeats(cx) { let k = cx.src.below(l.len()); let x = l[k].clone(); let at = cx.src.below(l.len() + 1); l.insert(at, x) } L(l) }
        (S::Prod(f) | S::Struct(f), L(l)) => L(f.iter().zip(l).map(|(s, t)| repeat_keys(cx, s, t)).collect()),
        (S::Seq(i, _) | S::Arr(i, _), L(l)) => L(l.iter().map(|t| repeat_keys(cx, i, t)).collect()),
        (S::Opt(i) | S::Bnd(i), V(k, l)) => V(*k, l.iter().map(|t| repeat_keys(cx, i, t)).collect()),
        (S::Res(a, b), V(k, l)) => { let i = if *k == 0 { a } else { b }; V(*k, l.iter().map(|t| repeat_keys(cx, i, t)).collect()) }
        (S::Enum(_, vs), V(k, l)) => V(*k, vs[*k as usize].1.iter().zip(l).map(|(s, t)| repeat_keys(cx, s, t)).collect()),
        (_, t) => t.clone(),
    }
}
