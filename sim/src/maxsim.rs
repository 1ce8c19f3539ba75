//! Buffers and slots of a type's stated maximum, reused for whichever values.
use crate::ctx::*;
use crate::ensure;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::Input;
use oct::encode::Output;

pub fn c07(cx: &mut Cx, w: &mut World) -> R {
    let tys = w.tys.clone();
    let pool = w.pool("bounded", |t| t.vt.max().is_some());
    for _ in 0..cx.src.range(1, 3) {
        cx.src.open();
        let k = *cx.src.of(&pool);
        one_type(cx, w, &tys[k])?;
        cx.src.close();
    }
    cx.st.sim_ns += cx.now as u128;
    Ok(())
}
fn one_type(cx: &mut Cx, w: &mut World, ty: &Ty) -> R {
    let Some(max) = ty.vt.max() else { return Ok(()) };
    let name = ty.name;
    cx.note(ty.id as u64);
    let mut slot = ty.vt.new_slot();
    if let Some(s) = &mut slot { ensure!(s.full().len() >= max, "max:slot", "a new slot for {name} has {} bytes for a maximum of {max}", s.full().len()) }
    let wrapped = ty.vt.max_wrapped();
    let mut kept: Vec<u8> = Vec::new();
    for _ in 0..cx.src.range(1, 6) {
        cx.src.open();
        cx.step();
        cx.now += 1000;
        let t = match cx.src.pick(&[2, 4, 1]) {
            0 => gen(&mut cx.src, &ty.schema, &Gen { unenc: 0, edge: 300, long: false }, 60),
            1 => gen_long(&mut cx.src, &ty.schema),
            _ => gen(&mut cx.src, &ty.schema, &Gen { unenc: 300, edge: 300, long: false }, 60),
        };
        let want = ref_encode(&ty.schema, &t);
        let view = cx.src.below(ty.vt.views() as usize) as u8;
        let f = ty.vt.mk(&t, view);
        // Measured with all the room in the world.
        let free = w.gaux.take(max + 4096, 0x5C);
        let mut o = Output::new(free);
        let r = guard(|| f(&mut o));
        let n = o.position();
        let bytes = o.as_slice().to_vec();
        cx.check();
        match (&want, r) {
            (Ok(_), Ok(Ok(()))) => {}
            (Err(_), Ok(Err(_))) => { cx.fault("unencodable"); if let Some(s) = &mut slot { reject(cx, s, &t, name)? } cx.src.close(); continue }
            (_, r) => return viol("max:encode", format!("{name} {} encoded with room to spare ended with {r:?}", t.brief())),
        }
        cx.say(|| format!("{name} {} takes {n} of at most {max}", t.brief()));
        cx.ev(n as u64, hash_bytes(&bytes));
        cx.note(n as u64);
        cx.state(crate::choice::mix(ty.id as u64, n as u64));
        if n * 2 >= max { cx.forced = true; cx.probe(if n == max { "exactly_max" } else { "over_half_of_max" }) }
        ensure!(n <= max, "max:exceeded", "{name} {} encodes to {n} bytes; the stated maximum is {max}", t.brief());
        for (k, m) in wrapped.iter().enumerate() { ensure!(n <= *m, "max:wrapped", "{name} {} encodes to {n} bytes; wrapper {k} states a maximum of {m}", t.brief()) }
        // A buffer of exactly the maximum, as left by whatever came before.
        let buf = w.gout.take(max, 0);
        let l = kept.len().min(max);
        buf[..l].copy_from_slice(&kept[..l]);
        let mut o = Output::new(buf);
        let r = guard(|| f(&mut o));
        ensure!(matches!(r, Ok(Ok(()))) && o.as_slice() == &bytes[..], "max:buffer", "{name} {} into a buffer of its maximum {max}: {r:?}, {}", t.brief(), hex(o.as_slice()));
        kept = w.gout.last().to_vec();
        // The slot.
        if let Some(s) = &mut slot {
            let r = s.write(&t, cx.src.chance(1, 2));
            ensure!(matches!(r, Ok(Ok(()))) && s.bytes() == &bytes[..], "max:slot-write", "writing {name} {} into a slot for it ended with {r:?}", t.brief());
            let got = s.read();
            let a = canon(&ty.schema, arrives(&ty.schema, &t));
            ensure!(matches!(&got, Ok(Ok(x)) if canon(&ty.schema, x.clone()) == a), "max:slot-read", "reading {name} {} back gave {got:?}", t.brief());
        }
        // Decoding an intact encoding followed by something else.
        let mut data = kept[..n].to_vec();
        let tail = cx.src.below(40);
        data.resize(n + tail, 0xEE);
        let mut i = Input::new(w.gin.load(&data));
        let got = guard(|| ty.vt.dec(&mut i));
        let used = i.position();
        ensure!(matches!(got, Ok(Ok(_))), "max:decode", "decoding {name} {} ended with {got:?}", hex(&data[..n]));
        ensure!(used <= max, "max:consumed", "decoding {name} {} consumed {used} bytes; the stated maximum is {max}", hex(&data[..n]));
        cx.src.close();
    }
    Ok(())
}
/// A refused value must not use the slot up.
fn reject(cx: &mut Cx, s: &mut Box<dyn AnySlot>, t: &Tree, name: &str) -> R {
    let r = s.write(t, cx.src.chance(1, 2));
    ensure!(matches!(r, Ok(Err(_))), "max:refusal", "writing an unencodable {name} into a slot for it ended with {r:?}");
    Ok(())
}
