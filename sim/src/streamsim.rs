//! Input and output streams through histories of fitting and failing requests.
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::slotsim::explained;
use crate::tree::*;
use crate::world::World;
use oct::decode::Input;
use oct::encode::Output;
use std::borrow::Borrow;

struct Om { out: Output<'static>, all: Vec<u8>, pos: usize, second: bool }
struct Im { inp: Input<'static>, all: Vec<u8>, pos: usize, held: Vec<(&'static [u8], usize)> }

fn amount(cx: &mut Cx, left: usize) -> usize {
    match cx.src.pick(&[5, 2, 2, 2, 1, 1]) {
        0 => cx.src.below(left + 1),
        1 => left,
        2 => left + 1,
        3 => left + 1 + cx.src.below(40),
        4 => 0,
        _ => *cx.src.of(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 32, 65536, 1 << 63]),
    }
}
fn size(cx: &mut Cx) -> usize { match cx.src.pick(&[4, 3, 1]) { 0 => *cx.src.of(&[16usize, 0, 1, 2, 3, 7, 8, 64]), 1 => cx.src.below(120), _ => 300 + cx.src.below(1200) } }

pub fn c06(cx: &mut Cx, w: &mut World) -> R {
    let any = w.pool("any", |_| true);
    let n = size(cx);
    let mut os = vec![Om { out: Output::new(w.gout.take(n, 0x5C)), all: vec![0x5C; n], pos: 0, second: false }];
    if cx.src.chance(1, 3) { let n = size(cx); os.push(Om { out: Output::new(w.gx.take(n, 0x6D)), all: vec![0x6D; n], pos: 0, second: true }) }
    // What there is to read: values, cut short or damaged, or noise.
    let mut data = Vec::new();
    let mut plan: Vec<usize> = Vec::new();
    for _ in 0..cx.src.range(0, 5) {
        let ty = *cx.src.of(&any);
        let t = { let s = w.tys[ty].schema.clone(); gen(&mut cx.src, &s, &Gen::default(), 20) };
        if let Ok(e) = ref_encode(&w.tys[ty].schema, &t) { data.extend_from_slice(&e.out); plan.push(ty) }
    }
    match cx.src.pick(&[3, 2, 1]) { 0 => {} 1 => { let l = cx.src.below(data.len() + 1); data.truncate(l); cx.fault("input_cut") } _ => { let l = size(cx); let b = cx.src.u64(); let mut r = crate::choice::Rng::new(b); data = (0..l).map(|_| r.next() as u8).collect(); cx.fault("noise") } }
    let mut im = Im { inp: Input::new(w.gin.load(&data)), all: data, pos: 0, held: vec![] };
    plan.reverse();
    for _ in 0..cx.src.range(2, 26) {
        cx.src.open();
        cx.step();
        cx.now += 1000;
        match cx.src.pick(&[4, 3, 3, 2, 3]) {
            0 => { let k = cx.src.below(os.len()); write(cx, w, &mut os[k])? }
            1 => { let k = cx.src.below(os.len()); encode(cx, w, &mut os[k], &any)? }
            2 => read(cx, w, &mut im)?,
            3 => read_into(cx, w, &mut im)?,
            _ => decode(cx, w, &mut im, &any, &mut plan)?,
        }
        for o in &os { seen(cx, w, o)? }
        if os.len() == 2 {
            let same = os[0].all[..os[0].pos] == os[1].all[..os[1].pos];
            ensure!((os[0].out == os[1].out) == same, "output:eq", "two outputs compare as {} although their contents are {}", !same, if same { "equal" } else { "different" });
        }
        in_state(cx, &im)?;
        cx.src.close();
    }
    for (s, at) in &im.held { ensure!(*s == &im.all[*at..*at + s.len()], "input:held", "bytes read from {at} changed afterwards") }
    cx.st.sim_ns += cx.now as u128;
    Ok(())
}

fn seen(cx: &mut Cx, w: &World, o: &Om) -> R {
    cx.check();
    let cap = o.all.len();
    let g = if o.second { &w.gx } else { &w.gout };
    let mem = g.last();
    ensure!(mem == &o.all[..], "output:memory", "the output's memory is {} rather than {}", hex(mem), hex(&o.all));
    ensure!(g.intact(), "output:before", "bytes before the output were written");
    ensure!(o.out.position() == o.pos && o.out.capacity() == cap && o.out.remaining() == cap - o.pos, "output:state", "position, capacity, remaining are {}, {}, {} rather than {}, {cap}, {}", o.out.position(), o.out.capacity(), o.out.remaining(), o.pos, cap - o.pos);
    let want = &o.all[..o.pos];
    ensure!(o.out.as_slice() == want && o.out.as_ref() == want && Borrow::<[u8]>::borrow(&o.out) == want, "output:written", "the written part is {} rather than {}", hex(o.out.as_slice()), hex(want));
    ensure!(o.out.as_ptr() == mem.as_ptr(), "output:ptr", "the output's pointer moved");
    let mut c = want.to_vec();
    let eq = o.out == *want && o.out == want && o.out == &mut c[..];
    ensure!(eq, "output:eq", "the output does not compare equal to its own bytes {}", hex(want));
    if o.pos > 0 { let n = o.pos; c[n - 1] ^= 0x40; ensure!(!(o.out == c[..]) && !(o.out == &c[..]) && !(o.out == &mut c[..]), "output:eq", "the output compares equal to other bytes"); let s = &want[..n - 1]; ensure!(!(o.out == *s) && !(o.out == s), "output:eq", "the output compares equal to fewer bytes") }
    if o.pos < cap { let s = &o.all[..o.pos + 1]; ensure!(!(o.out == *s) && !(o.out == s), "output:eq", "the output compares equal to more bytes than written") }
    cx.ev(o.pos as u64, hash_bytes(want));
    cx.state(crate::choice::mix(cap as u64, o.pos as u64));
    Ok(())
}
fn in_state(cx: &mut Cx, im: &Im) -> R {
    cx.check();
    let cap = im.all.len();
    ensure!(im.inp.position() == im.pos && im.inp.capacity() == cap && im.inp.remaining() == cap - im.pos, "input:state", "position, capacity, remaining are {}, {}, {} rather than {}, {cap}, {}", im.inp.position(), im.inp.capacity(), im.inp.remaining(), im.pos, cap - im.pos);
    cx.ev(0x1A, im.pos as u64);
    Ok(())
}
fn write(cx: &mut Cx, w: &mut World, o: &mut Om) -> R {
    let cap = o.all.len();
    let left = cap - o.pos;
    let n = amount(cx, left).min(left + 4096);
    let b = cx.src.draw(256) as u8;
    let d: Vec<u8> = (0..n).map(|i| b.wrapping_add((i as u8).wrapping_mul(7))).collect();
    cx.say(|| format!("write {n} bytes at {} of {cap}", o.pos));
    let src = w.gaux.load(&d);
    match o.out.write(src) {
        Ok(()) => { ensure!(n <= left, "output:accepted", "a write of {n} bytes with {left} remaining succeeded"); o.all[o.pos..o.pos + n].copy_from_slice(&d); o.pos += n; cx.note(1) }
        Err(e) => {
            ensure!(n > left, "output:refused", "a write of {n} bytes with {left} remaining failed: {e}");
            ensure!((e.capacity, e.position, e.count) == (cap, o.pos, n), "output:report", "a write of {n} at {} of {cap} reported capacity {}, position {}, count {}", o.pos, e.capacity, e.position, e.count);
            mentions(&e, &[cap, o.pos, n])?;
            cx.fault("write_too_long");
        }
    }
    ensure!(&*src == &d[..], "output:source", "a write changed its source");
    Ok(())
}
fn encode(cx: &mut Cx, w: &mut World, o: &mut Om, any: &[usize]) -> R {
    let tys = w.tys.clone();
    let ty = &tys[*cx.src.of(any)];
    let g = Gen { unenc: if cx.src.chance(1, 5) { 200 } else { 0 }, edge: *cx.src.of(&[150, 20, 500]), long: false };
    let budget = *cx.src.of(&[10usize, 3, 40]);
    let t = gen(&mut cx.src, &ty.schema, &g, budget);
    let (cap, at) = (o.all.len(), o.pos);
    let left = cap - at;
    let (f, t) = if ty.maps { ty.vt.enc_with_order(&t) } else { let v = cx.src.below(ty.vt.views() as usize) as u8; (ty.vt.mk(&t, v), t) };
    cx.note(ty.id as u64);
    let want = ref_encode(&ty.schema, &t);
    cx.say(|| format!("encode {} {} ({}) at {at} of {cap}", ty.name, t.brief(), match &want { Ok(e) => format!("{} bytes", e.out.len()), Err(_) => "not encodable".into() }));
    let r = guard(|| f(&mut o.out));
    let pos = o.out.position();
    let now = { let g = if o.second { &w.gx } else { &w.gout }; g.last().to_vec() };
    ensure!(pos >= at && pos <= cap, "output:position", "encoding {} moved the position from {at} to {pos} of {cap}", ty.name);
    ensure!(now[..at] == o.all[..at], "output:earlier", "encoding {} at {at} changed earlier bytes", ty.name);
    let (emitted, ok) = match (want, r) {
        (Ok(e), Ok(Ok(()))) if e.out.len() <= left => (e.out, true),
        (Ok(e), r) if e.out.len() <= left => return viol("encode:refused", format!("{} {} takes {} of {left} remaining bytes but encoding ended with {r:?}", ty.name, t.brief(), e.out.len())),
        (Ok(e), Ok(Ok(()))) => return viol("encode:overfull", format!("{} {} takes {} bytes but was encoded into {left}", ty.name, t.brief(), e.out.len())),
        (Ok(e), Ok(Err(x))) => return viol("encode:error", format!("{} {} takes {} of {left} remaining bytes: that is no encoding error, but it reported {x:?}", ty.name, t.brief(), e.out.len())),
        (Ok(e), Err(_)) => { cx.fault("encode_out_of_room"); (e.out, false) }
        (Err(_), Ok(Ok(()))) => return viol("encode:accepted", format!("{} {} was encoded although it cannot be", ty.name, t.brief())),
        (Err((x, part)), Err(p)) if part.len() <= left => return viol("encode:panic", format!("{} {} is refused with {x:?} after {} bytes with {left} remaining but panicked at {}", ty.name, t.brief(), part.len(), p.at)),
        (Err((_, part)), _) => { cx.fault("unencodable"); (part, false) }
    };
    if ok {
        ensure!(pos == at + emitted.len(), "output:position", "{} {} takes {} bytes but the position went from {at} to {pos}", ty.name, t.brief(), emitted.len());
        ensure!(now[at..pos] == emitted[..], "encode:bytes", "{} {} encoded as {} rather than {}", ty.name, t.brief(), hex(&now[at..pos]), hex(&emitted));
        ensure!(now[pos..] == o.all[pos..], "output:beyond", "encoding {} wrote beyond the position", ty.name);
    } else {
        let k = pos - at;
        ensure!(k <= emitted.len() && now[at..pos] == emitted[..k], "output:partial", "failing to encode {} left {} which is not the start of {}", ty.name, hex(&now[at..pos]), hex(&emitted));
        ensure!(explained(&o.all[at..], &now[at..], &emitted), "output:beyond", "failing to encode {} wrote {} over {} although only {} was to be emitted", ty.name, hex(&now[at..]), hex(&o.all[at..]), hex(&emitted));
    }
    o.all = now;
    o.pos = pos;
    Ok(())
}
fn read(cx: &mut Cx, _w: &mut World, im: &mut Im) -> R {
    let cap = im.all.len();
    let left = cap - im.pos;
    let n = amount(cx, left);
    cx.say(|| format!("read {n} bytes at {} of {cap}", im.pos));
    match im.inp.read(n) {
        Ok(b) => {
            ensure!(n <= left, "input:accepted", "a read of {n} bytes with {left} remaining succeeded");
            ensure!(b == &im.all[im.pos..im.pos + n], "input:bytes", "reading {n} bytes at {} gave {} rather than {}", im.pos, hex(b), hex(&im.all[im.pos..im.pos + n]));
            if cx.src.chance(1, 3) { nested(cx, b)? }
            im.held.push((b, im.pos));
            im.pos += n; cx.note(2)
        }
        Err(e) => {
            ensure!(n > left, "input:refused", "a read of {n} bytes with {left} remaining failed: {e}");
            ensure!((e.capacity, e.position, e.count) == (cap, im.pos, n), "input:report", "a read of {n} at {} of {cap} reported capacity {}, position {}, count {}", im.pos, e.capacity, e.position, e.count);
            mentions(&e, &[cap, im.pos, n])?;
            cx.fault("read_too_long");
        }
    }
    Ok(())
}
/// A stream over part of another.
fn nested(cx: &mut Cx, b: &[u8]) -> R {
    let mut i = Input::new(b);
    let mut at = 0;
    cx.probe("nested_stream");
    for _ in 0..4 {
        let n = amount(cx, b.len() - at);
        match i.read(n) {
            Ok(s) => { ensure!(n <= b.len() - at && s == &b[at..at + n], "input:nested", "a nested read of {n} at {at} of {} gave {}", b.len(), hex(s)); at += n }
            Err(e) => ensure!(n > b.len() - at && (e.capacity, e.position, e.count) == (b.len(), at, n), "input:nested", "a nested read of {n} at {at} of {} reported {e:?}", b.len()),
        }
        ensure!(i.position() == at && i.remaining() == b.len() - at && i.capacity() == b.len(), "input:nested", "a nested stream is at {} rather than {at}", i.position());
    }
    Ok(())
}
fn read_into(cx: &mut Cx, w: &mut World, im: &mut Im) -> R {
    let cap = im.all.len();
    let left = cap - im.pos;
    let n = amount(cx, left).min(left + 4096);
    cx.say(|| format!("read into {n} bytes at {} of {cap}", im.pos));
    let dst = w.gaux.take(n, 0x77);
    let r = im.inp.read_into(dst);
    ensure!(w.gaux.intact(), "input:before", "reading into {n} bytes wrote before them");
    match r {
        Ok(()) => {
            ensure!(n <= left, "input:accepted", "a read into {n} bytes with {left} remaining succeeded");
            ensure!(&*dst == &im.all[im.pos..im.pos + n], "input:bytes", "reading into {n} bytes at {} gave {}", im.pos, hex(dst));
            im.pos += n; cx.note(3)
        }
        Err(e) => {
            ensure!(n > left, "input:refused", "a read into {n} bytes with {left} remaining failed: {e}");
            ensure!((e.capacity, e.position, e.count) == (cap, im.pos, n), "input:report", "a read into {n} bytes at {} of {cap} reported capacity {}, position {}, count {}", im.pos, e.capacity, e.position, e.count);
            mentions(&e, &[cap, im.pos, n])?;
            ensure!(dst.iter().all(|b| *b == 0x77), "input:partial", "a failed read into {n} bytes changed them");
            cx.fault("read_too_long");
        }
    }
    Ok(())
}
fn decode(cx: &mut Cx, w: &mut World, im: &mut Im, any: &[usize], plan: &mut Vec<usize>) -> R {
    let tys = w.tys.clone();
    let ty = if !plan.is_empty() && cx.src.chance(5, 6) { plan.pop().unwrap_or(0) } else { *cx.src.of(any) };
    let ty = &tys[ty];
    let (cap, at) = (im.all.len(), im.pos);
    cx.say(|| format!("decode {} at {at} of {cap}", ty.name));
    cx.note(0xD0 + ty.id as u64);
    let exp = expect(&ty.schema, &im.all[at..]);
    let got = guard(|| ty.vt.dec(&mut im.inp));
    let pos = im.inp.position();
    ensure!(pos >= at && pos <= cap, "input:position", "decoding {} moved the position from {at} to {pos} of {cap}", ty.name);
    match judge(ty.name, &ty.schema, &im.all[at..], exp, got, Some(pos - at), false)? {
        Dn::Val(..) => {}
        Dn::Refused(_) => cx.fault("decode_refused"),
        Dn::Short => cx.fault("decode_incomplete"),
    }
    im.pos = pos;
    Ok(())
}

/// The text of an error must give the figures it is about.
fn mentions(e: &(dyn std::error::Error + 'static), figures: &[usize]) -> R {
    let Ok(t) = guard(|| e.to_string()) else { return viol("stream:message", "displaying an error panicked") };
    let n = crate::tree::numbers(&t);
    for f in figures { ensure!(n.contains(&(*f as u128)), "stream:message", "an error about {figures:?} (capacity, position, count) says {t:?}") }
    Ok(())
}
