//! Nodes exchanging datagrams, all running the library as one combination of features builds it.
//! `core` keeps to what every combination offers and must produce the same event log in each.
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::rc::Rc;

pub fn c17(cx: &mut Cx, w: &mut World) -> R { let only_core = cx.src.chance(1, 3); run(cx, w, only_core) }
pub fn core(cx: &mut Cx, w: &mut World) -> R { run(cx, w, true) }

const MS: u64 = 1_000_000;
struct Req { to: usize, ty: usize, tree: Tree, done: bool, after_heal: u32 }
struct Dg { to: usize, req: Option<usize>, ack: bool, bytes: Vec<u8>, body_at: usize, intact: bool }
enum Ev { Send(usize), Deliver(Dg), Crash(usize), Restart(usize), Heal }

fn run(cx: &mut Cx, w: &mut World, only_core: bool) -> R {
    if cx.src.chance(1, 4) { return bounded(cx) }
    let tys: Rc<Vec<Ty>> = w.tys.clone();
    let n = cx.src.range(2, 3);
    let pool = if only_core { w.core } else { tys.len() };
    // Of the whole table, what the features add is drawn as often as the rest.
    let draw = |cx: &mut Cx| if !only_core && pool > w.core && cx.src.chance(1, 2) { w.core + cx.src.below(pool - w.core) } else { cx.src.below(w.core) };
    let kinds: Vec<usize> = (0..cx.src.range(1, 4)).map(|_| draw(cx)).collect();
    let (loss, dup, harm, delay) = (*cx.src.of(&[0u64, 80, 250]), *cx.src.of(&[0u64, 150]), *cx.src.of(&[0u64, 300, 600]), *cx.src.of(&[1u64, 30, 200]) * MS);
    let mut up = vec![true; n];
    let mut q: Vec<(u64, u64, Ev)> = Vec::new();
    let mut seq = 0u64;
    let mut at = |q: &mut Vec<(u64, u64, Ev)>, t: u64, e: Ev| { seq += 1; q.push((t, seq, e)) };
    let mut reqs = Vec::new();
    for r in 0..cx.src.range(1, 6) {
        cx.src.open();
        let to = cx.src.below(n);
        let ty = *cx.src.of(&kinds);
        let g = Gen { unenc: *cx.src.of(&[0u64, 60]), edge: 300, long: cx.src.chance(1, 10) };
        let tree = gen(&mut cx.src, &tys[ty].schema, &g, 120);
        cx.note(ty as u64);
        match ref_encode(&tys[ty].schema, &tree) {
            Ok(_) => { reqs.push(Req { to, ty, tree, done: false, after_heal: 0 }); let t = cx.src.draw(400) * MS; at(&mut q, t, Ev::Send(reqs.len() - 1)) }
            Err((want, _)) => {
                cx.fault("unencodable");
                // What cannot be encoded is refused for the same reason everywhere; but the elements of a hashed
                // collection are met in no stated order.
                if !tys[ty].maps {
                    let f = tys[ty].vt.mk(&tree, 0);
                    let buf = w.gout.take(1 << 20, 0x5C);
                    let mut o = Output::new(buf);
                    let got = guard(|| f(&mut o));
                    cx.check();
                    ensure!(matches!(&got, Ok(Err(e)) if *e == want), "encode:refusal", "encoding {} {} gave {got:?} rather than {want:?}", tys[ty].name, tree.brief());
                }
                cx.ev(3, hash_str(&format!("{want:?}")));
            }
        }
        let _ = r;
        cx.src.close();
    }
    for _ in 0..cx.src.pick(&[3, 2, 1]) { let i = cx.src.below(n); let t = cx.src.draw(1000) * MS; at(&mut q, t, Ev::Crash(i)); let d = cx.src.draw(400) * MS; at(&mut q, t + d, Ev::Restart(i)) }
    at(&mut q, 1200 * MS, Ev::Heal);
    let (mut healed, mut steps, mut last) = (false, 0, Vec::new());
    while let Some(k) = (0..q.len()).min_by_key(|k| (q[*k].0, q[*k].1)) {
        let (t, _, ev) = q.swap_remove(k);
        cx.now = t;
        cx.step();
        steps += 1;
        if steps > 2000 { return viol("stuck", "the exchange did not come to rest in 2000 events") }
        match ev {
            Ev::Crash(i) => { up[i] = false; cx.fault("crash"); cx.say(|| format!("fault: node {i} crashes")) }
            Ev::Restart(i) => { up[i] = true; cx.say(|| format!("node {i} restarts")) }
            Ev::Heal => { healed = true; up.iter_mut().for_each(|u| *u = true); cx.say(|| "faults stop".into()) }
            Ev::Send(r) => {
                if reqs[r].done { continue }
                if healed { reqs[r].after_heal += 1; ensure!(reqs[r].after_heal <= 5, "liveness", "request {r} ({}) was not answered in 5 attempts", tys[reqs[r].ty].name) }
                at(&mut q, t + (80 + cx.src.draw(60)) * MS, Ev::Send(r));
                let ty = &tys[reqs[r].ty];
                let view = cx.src.below(ty.vt.views() as usize) as u8;
                // A header of the library's own making, then the value.
                let mut head = [0u8; 8];
                let mut o = Output::new(&mut head);
                let h = guard(|| { (r as u16).encode(&mut o).is_ok() && (Some(r as u8), false).encode(&mut o).is_ok() });
                ensure!(matches!(h, Ok(true)), "encode:header", "encoding a header failed");
                let head = o.as_slice().to_vec();
                let slack = *cx.src.of(&[0usize, 1, 40]);
                let e = encode_ok(w, ty, &reqs[r].tree, view, &head, slack)?;
                cx.check();
                if let Some(m) = ty.vt.max() { ensure!(e.bytes.len() <= m && Some(m) == max_size(&ty.schema), "max", "{}: {} bytes with a maximum of {m}", ty.name, e.bytes.len()) }
                if view == 0 && !ty.maps { if let Some((b, v)) = ty.vt.slot(&reqs[r].tree, e.bytes.len() + slack) {
                    ensure!(b == e.bytes && v == Ok(canon(&ty.schema, arrives(&ty.schema, &reqs[r].tree))), "slot", "{}: a slot holds {} and reads {v:?}", ty.name, hex(&b));
                    cx.probe("slot_used");
                } }
                cx.ev_bytes(&e.bytes);
                cx.say(|| format!("request {r}: {} {} sent (view {view}) as {}", ty.name, reqs[r].tree.brief(), hex(&e.bytes)));
                let mut bytes = head.clone();
                bytes.extend_from_slice(&e.bytes);
                let mut k = 1;
                if !healed { if cx.src.chance(loss, 1000) { cx.fault("loss"); k = 0 } else if cx.src.chance(dup, 1000) { cx.fault("duplicate"); k = 2 } }
                for _ in 0..k {
                    let mut b = bytes.clone();
                    let mut intact = true;
                    if !healed && cx.src.chance(harm, 1000) {
                        let mut body = b.split_off(head.len());
                        cx.src.open();
                        let f = damage(&mut cx.src, &mut body, &e.marks, &last);
                        cx.src.close();
                        cx.fault(f);
                        intact = body == e.bytes;
                        b.extend_from_slice(&body);
                    }
                    let d = cx.src.draw(delay) + 1;
                    at(&mut q, t + d, Ev::Deliver(Dg { to: reqs[r].to, req: Some(r), ack: false, bytes: b, body_at: head.len(), intact }));
                }
                last = e.bytes;
            }
            Ev::Deliver(d) => {
                if !up[d.to] { cx.fault("lost_to_crash"); continue }
                let r = d.req.expect("a request");
                if d.ack { reqs[r].done = true; cx.ev(9, r as u64); continue }
                let ty = &tys[reqs[r].ty];
                // The header must come apart from the body.
                let mut i = Input::new(&d.bytes[..d.body_at]);
                let h = guard(|| (u16::decode(&mut i), <(Option<u8>, bool)>::decode(&mut i)));
                ensure!(matches!(&h, Ok((Ok(a), Ok((Some(b), false)))) if *a as usize == r && *b as usize == r) && i.remaining() == 0, "decode:header", "the header {} decoded as {h:?}", hex(&d.bytes[..d.body_at]));
                let how = cx.src.below(2) as u8;
                let got = decode_at(w, ty, &d.bytes, d.body_at, how, true)?;
                cx.check();
                let body = &d.bytes[d.body_at..];
                match &got {
                    Dn::Val(v, used) => { cx.ev(5, hash_bytes(&key(v)) ^ *used as u64); if !d.intact { cx.probe("damage_without_effect") } }
                    Dn::Refused(e) => {
                        cx.probe("refused");
                        cx.ev(6, hash_str(&format!("{e:?}")));
                        if !matches!(e.leaf(), ErrT::DurOverflow) && guard(|| { let mut i = Input::new(body); ty.vt.dec(&mut i).is_err() }).unwrap_or(false) {
                            let said = guard(|| { let mut i = Input::new(body); (ty.told)(&mut i) });
                            let Ok(said) = said else { return viol("text:panic", format!("{}: describing the refusal of {} panicked", ty.name, hex(body))) };
                            if !said.is_empty() { if let Err(m) = conveys(e, &said) { return viol("text", format!("{}: the refusal {e:?} of {} is described as {said:?}: {m}", ty.name, hex(body))) } }
                            for s in &said { cx.ev(7, hash_str(s)) }
                        }
                    }
                    Dn::Short => { cx.probe("incomplete"); cx.ev(8, 0) }
                }
                cx.say(|| format!("request {r} arrives{}: {got:?}", if d.intact { "" } else { " damaged" }));
                if d.intact {
                    let want = canon(&ty.schema, arrives(&ty.schema, &reqs[r].tree));
                    ensure!(got == Dn::Val(want.clone(), body.len()), "delivery", "{}: {} was sent and {got:?} arrived", ty.name, want.brief());
                    cx.probe("answered");
                    if !healed && cx.src.chance(loss, 1000) { cx.fault("loss"); continue }
                    let back = cx.src.draw(delay) + 1;
                    let to = d.to;
                    at(&mut q, t + back, Ev::Deliver(Dg { to, req: Some(r), ack: true, bytes: vec![], body_at: 0, intact: true }));
                }
            }
        }
        cx.state(crate::choice::mix(up.iter().fold(1, |h, u| h << 1 | *u as u64), reqs.iter().fold(healed as u64, |h, r| h << 1 | r.done as u64)) ^ kinds.iter().fold(0, |h, k| h * 131 + *k as u64));
        if healed && reqs.iter().all(|r| r.done) { break }
    }
    cx.st.sim_ns += cx.now as u128;
    for (i, r) in reqs.iter().enumerate() { ensure!(r.done, "liveness", "request {i} ({}) was never answered", tys[r.ty].name) }
    Ok(())
}

/// The bounded collections, against vectors and strings, with what every build has of them.
fn bounded(cx: &mut Cx) -> R {
    const CAP: usize = 5;
    cx.forced = true;
    let mut model: Vec<u16> = Vec::new();
    let mut s: SizedSlice<u16, CAP> = SizedSlice::default();
    let mut text = String::new();
    let mut t: SizedStr<CAP> = SizedStr::default();
    for _ in 0..cx.src.range(1, 14) {
        cx.src.open();
        cx.step();
        let k = cx.src.below(9);
        let n = cx.src.below(CAP + 2);
        let xs: Vec<u16> = (0..n).map(|_| cx.src.draw(4) as u16).collect();
        match k {
            0 => { let mut x = s.clone(); match guard(|| { x.copy_from_slice(&xs); x }) { Ok(x) => { ensure!(n <= CAP, "slice:too-long", "{xs:?} was copied into a slice of {CAP}"); s = x; model = xs.clone() } Err(_) => { ensure!(n > CAP, "slice:refused", "{xs:?} was not copied into a slice of {CAP}"); cx.fault("too_long") } } }
            1 => match SizedSlice::<u16, CAP>::new(&xs) { Ok(x) => { ensure!(n <= CAP, "slice:too-long", "{xs:?} was accepted by a slice of {CAP}"); s = x; model = xs.clone() } Err(e) => { ensure!(n > CAP && e.capacity == CAP && e.len == n, "slice:refused", "{xs:?} was refused with {e:?}"); cx.fault("too_long"); cx.ev(20, hash_str(&e.to_string())) } },
            2 => { s = xs.iter().copied().collect(); model = xs.iter().copied().take(CAP).collect() }
            3 => { let it = s.clone().into_iter(); ensure!(it.len() == model.len(), "iter:len", "{} of {model:?} left", it.len()); let v: Vec<u16> = if n % 2 == 0 { it.collect() } else { let mut v: Vec<u16> = it.rev().collect(); v.reverse(); v }; ensure!(v == model, "iter", "{v:?} rather than {model:?}") }
            4 => { for x in s.iter_mut() { *x = x.wrapping_add(1) } for x in &mut model { *x = x.wrapping_add(1) } }
            5 => ensure!((s.as_slice() == &xs[..]) == (model == xs) && s.as_slice().cmp(&xs[..]) == model.cmp(&xs), "slice:cmp", "{s:?} compared with {xs:?}"),
            6 => { let u: String = xs.iter().map(|x| ['a', 'é', '€', '😀'][*x as usize]).collect(); match SizedStr::<CAP>::new(&u) { Ok(x) => { ensure!(u.len() <= CAP, "str:too-long", "{u:?} was accepted by a string of {CAP}"); t = x; text = u } Err(e) => { ensure!(u.len() > CAP, "str:refused", "{u:?} was refused with {e:?}"); cx.fault("too_long"); cx.ev(21, hash_str(&e.to_string())) } } }
            7 => { let c = ['a', 'é', '€', '😀'][cx.src.below(4)]; t = match SizedStr::<CAP>::try_from(c) { Ok(t) => t, Err(e) => return viol("str:char", format!("{c:?} was refused: {e:?}")) }; text = c.to_string() }
            _ => { let u: String = xs.iter().map(|x| ['a', 'é', '€', '😀'][*x as usize]).collect(); ensure!((t.as_str() == u) == (text == u) && t.as_str().cmp(&u[..]) == text[..].cmp(&u[..]), "str:cmp", "{t:?} compared with {u:?}") }
        }
        cx.check();
        cx.note((k * 100 + n) as u64);
        ensure!(s.as_slice() == &model[..] && s.len() == model.len() && s.is_empty() == model.is_empty() && s.capacity() == CAP, "slice", "{:?} rather than {model:?}", s.as_slice());
        ensure!(t.as_str() == text && t.len() == text.len() && t.capacity() == CAP && t.as_bytes() == text.as_bytes(), "str", "{t:?} rather than {text:?}");
        cx.ev(22, hash_str(&format!("{s:?} {t:?} {t}")));
        cx.state(hash_str(&format!("{model:?}{text}")));
        cx.say(|| format!("step {k}: {s:?} {t:?}"));
        cx.src.close();
    }
    Ok(())
}
