//! An append-only record file on a simulated disk that loses whatever was not yet durable,
//! at any byte, any number of times.
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};

struct Disk { data: Vec<u8>, durable: usize }
struct Rec { ty: usize, tree: Tree, end: usize }

pub fn c15(cx: &mut Cx, w: &mut World) -> R {
    let tys = w.tys.clone();
    let pool = w.pool("any", |_| true);
    let kinds: Vec<usize> = (0..cx.src.range(1, 5)).map(|_| *cx.src.of(&pool)).collect();
    let mut disk = Disk { data: Vec::new(), durable: 0 };
    let mut recs: Vec<Rec> = Vec::new();
    let mut slots: std::collections::BTreeMap<usize, Box<dyn AnySlot>> = Default::default();
    let long = cx.src.chance(1, 16);
    let lives = cx.src.range(1, 5);
    for life in 0..lives {
        cx.src.open();
        // One life of the process.
        let ops = cx.src.range(1, 10);
        let mut doomed = false;
        for _ in 0..ops {
            cx.src.open();
            cx.step();
            cx.now += 1_000_000 * (1 + cx.src.draw(20));
            match cx.src.pick(&[8, 2, 2]) {
                0 => {
                    // Append one or more records as one write, which a crash may cut anywhere.
                    let n = 1 + cx.src.pick(&[5, 2, 1]);
                    let mut batch = Vec::new();
                    for _ in 0..n {
                        let ty = *cx.src.of(&kinds);
                        let t = &tys[ty];
                        let g = Gen { unenc: 0, edge: *cx.src.of(&[250, 50, 700]), long };
                        let budget = *cx.src.of(&[40usize, 12, 200]);
                        let tree = gen(&mut cx.src, &t.schema, &g, budget);
                        let start = batch.len();
                        let mut kind = (ty as u16).to_le_bytes().to_vec();
                        if cx.src.chance(1, 3) {
                            let want = ref_encode(&t.schema, &tree).map_err(|e| e.0).expect("encodable");
                            let s = slots.entry(ty).or_insert_with(|| t.vt.slot(want.out.len() + 64));
                            if s.cap() < want.out.len() { *s = t.vt.slot(want.out.len() + 8) }
                            match s.write(&tree, cx.src.chance(1, 2)) {
                                Ok(Ok(())) => {}
                                o => return viol("encode:refused", format!("record {} {} was not written to a slot: {o:?}", t.name, tree.brief())),
                            }
                            ensure!(same_encoding(&t.schema, t.maps, &want.out, s.bytes()), "encode:bytes", "record {} {} was written to a slot as {} rather than {}", t.name, tree.brief(), hex(s.bytes()), hex(&want.out));
                            batch.extend_from_slice(&kind);
                            batch.extend_from_slice(s.bytes());
                        } else {
                            let view = if cx.src.chance(1, 2) { cx.src.below(t.vt.views() as usize) as u8 } else { 0 };
                            let f = t.vt.mk(&tree, view);
                            let k = ty as u16;
                            let f: EncFn = Box::new(move |o: &mut Output| { let Ok(()) = k.encode(o); f(o) });
                            let want = ref_encode(&framed(&t.schema), &L(vec![N(ty as u128), tree.clone()])).map_err(|e| e.0).expect("encodable");
                            let tail = *cx.src.of(&[0usize, 3, 40]);
                            let e = encode_with(w, t.name, &framed(&t.schema), t.maps, want, &tree, &f, view, &batch.clone(), tail)?;
                            kind = e.bytes;
                            batch.extend_from_slice(&kind);
                        }
                        cx.check();
                        cx.note(ty as u64); cx.note((batch.len() - start) as u64);
                        let end = disk.data.len() + batch.len();
                        cx.say(|| format!("append {} {} ({} bytes, ends at {end})", t.name, tree.brief(), batch.len() - start));
                        let tree = canon(&t.schema, arrives(&t.schema, &tree));
                        recs.push(Rec { ty, tree, end });
                    }
                    cx.ev_bytes(&batch);
                    disk.data.extend_from_slice(&batch);
                }
                1 => { disk.durable = disk.data.len(); cx.note(0x5F); cx.say(|| "sync".into()) }
                _ => { doomed = true; cx.src.close(); break }
            }
            cx.src.close();
        }
        // Crash: some prefix survives, at least what was synced.
        let pending = disk.data.len() - disk.durable;
        let mut keep = disk.data.len();
        if doomed || life + 1 < lives || cx.src.chance(1, 2) {
            if pending > 0 {
                keep = disk.durable + match cx.src.pick(&[3, 3, 2, 1]) {
                    0 => cx.src.below(pending + 1),
                    // Around a record's end.
                    1 => { let ends: Vec<usize> = recs.iter().map(|r| r.end).filter(|e| *e > disk.durable).collect(); let e = *cx.src.of(&ends); let d = cx.src.below(5); (e + d).saturating_sub(2).clamp(disk.durable, disk.data.len()) - disk.durable }
                    2 => pending - 1 - cx.src.below(pending.min(4)),
                    _ => cx.src.below(pending.min(4)),
                };
            }
            if keep < disk.data.len() { cx.fault("crash_lost_bytes") } else { cx.fault("crash_clean") }
            cx.say(|| format!("fault: crash keeps {keep} of {} bytes ({} durable)", disk.data.len(), disk.durable));
        }
        disk.data.truncate(keep);
        disk.durable = keep;
        slots.clear();
        if cx.src.chance(1, 3) { set_hashing(cx.src.u64(), cx.src.pick(&[4, 1, 1, 1]) as u8); cx.probe("rehashed_after_restart") }
        let complete = recs.iter().take_while(|r| r.end <= keep).count();
        if complete < recs.len() && keep > recs.get(complete.wrapping_sub(1)).map_or(0, |r| r.end) { cx.fault("torn_record") }
        // Blocks allocated but never written may follow.
        let mut file = disk.data.clone();
        let junk = cx.src.chance(1, 4);
        if junk {
            let n = 1 + cx.src.below(40);
            let z = cx.src.below(3);
            for _ in 0..n { let b = match z { 0 => 0, 1 => 0xFF, _ => cx.src.draw(256) as u8 }; file.push(b) }
            cx.fault("stale_tail");
        }
        // Recovery, possibly interrupted by another crash while it only reads.
        for _ in 0..1 + cx.src.chance(1, 5) as usize {
            recover(cx, w, &file, &recs[..complete], keep, junk)?;
        }
        recs.truncate(complete);
        let at = recs.last().map_or(0, |r| r.end);
        disk.data.truncate(at);
        disk.durable = disk.durable.min(at);
        cx.note(complete as u64);
        cx.state(crate::choice::mix(at as u64, complete as u64));
        // Compaction: everything rewritten from what was recovered, then swapped in atomically.
        if cx.src.chance(1, 6) && !recs.is_empty() {
            let mut fresh = Vec::new();
            let mut ends = Vec::new();
            for r in &recs {
                let t = &tys[r.ty];
                let s = framed(&t.schema);
                let f = t.vt.mk(&r.tree, 0);
                let k = r.ty as u16;
                let f: EncFn = Box::new(move |o: &mut Output| { let Ok(()) = k.encode(o); f(o) });
                let want = ref_encode(&s, &L(vec![N(r.ty as u128), r.tree.clone()])).map_err(|e| e.0).expect("encodable");
                let e = encode_with(w, t.name, &s, t.maps, want, &r.tree, &f, 0, &fresh.clone(), 0)?;
                fresh.extend_from_slice(&e.bytes);
                ends.push(fresh.len());
            }
            if cx.src.chance(1, 3) { cx.fault("crash_in_compaction"); cx.say(|| "fault: crash before the compacted file replaces the old one".into()) }
            else { disk.data = fresh; disk.durable = disk.data.len(); for (r, e) in recs.iter_mut().zip(ends) { r.end = e } cx.probe("compacted"); cx.say(|| "compaction".into()) }
        }
        cx.src.close();
    }
    cx.st.sim_ns += cx.now as u128;
    Ok(())
}
fn framed(s: &S) -> S { S::Prod(vec![U16, s.clone()]) }

/// Reads the whole file with the library, as an application would after a crash.
fn recover(cx: &mut Cx, w: &mut World, file: &[u8], want: &[Rec], kept: usize, junk: bool) -> R {
    let tys = w.tys.clone();
    let buf = w.gin.load(file);
    let mut i = Input::new(buf);
    let mut n = 0;
    let mut pos = 0;
    let by_slot = cx.src.chance(1, 6);
    loop {
        cx.step();
        ensure!(i.position() == pos && i.remaining() == file.len() - pos, "log:cursor", "cursor at {} of {} with {} remaining, expected {pos}", i.position(), i.capacity(), i.remaining());
        let due = want.get(n);
        // The kind.
        let kind = guard(|| u16::decode(&mut i));
        let k = match kind {
            Ok(k) => { let Ok(k) = k; ensure!(file.len() - pos >= 2 && k == u16::from_le_bytes([file[pos], file[pos + 1]]), "log:kind", "record {n} has kind {k} at byte {pos} of {}", file.len()); k as usize }
            Err(_) => { ensure!(file.len() - pos < 2, "log:kind", "the kind of record {n} at byte {pos} of {} was refused", file.len()); ensure!(due.is_none(), "log:lost", "record {n} of {} was not recovered", want.len()); break }
        };
        let body = pos + 2;
        let Some(ty) = tys.get(k) else { ensure!(due.is_none(), "log:lost", "record {n} of {} was not recovered", want.len()); cx.probe("unknown_kind"); break };
        if let Some(d) = due { ensure!(d.ty == k, "log:kind", "record {n} has kind {k}, expected {}", d.ty) }
        let exp = expect(&ty.schema, &file[body..]);
        let (got, used) = if by_slot {
            let rest = &file[body..];
            let mut s = ty.vt.slot(rest.len());
            if s.copy(rest).is_err() { return viol("log:slot", format!("copying {} bytes into a slot of as many failed", rest.len())) }
            (s.read(), None)
        } else {
            let how = if cx.src.chance(1, 4) { cx.src.below(DEC_AS as usize) as u8 } else { 0 };
            let at = i.position();
            let g = guard(|| if how == 0 { ty.vt.dec(&mut i) } else { ty.vt.dec_as(&mut i, how) });
            (g, Some(i.position() - at))
        };
        cx.check();
        let dn = judge(ty.name, &ty.schema, &file[body..], exp, got, used, false)?;
        match (dn, due) {
            (Dn::Val(t, m), Some(d)) => {
                ensure!(body + m == d.end, "log:boundary", "record {n} ends at byte {} rather than {}", body + m, d.end);
                ensure!(t == d.tree, "log:changed", "record {n} ({}) stored as {} was recovered as {}", ty.name, d.tree.brief(), t.brief());
                pos = body + m;
                n += 1;
                if by_slot { let skip = guard(|| i.read(m).is_ok()); ensure!(matches!(skip, Ok(true)), "log:skip", "skipping {m} bytes failed") }
            }
            (Dn::Val(_, m), None) => {
                ensure!(junk, "log:phantom", "a record beyond the {} that were stored was produced from byte {pos} of {} ({kept} kept)", want.len(), file.len());
                pos = body + m;
                if by_slot { let skip = guard(|| i.read(m).is_ok()); ensure!(matches!(skip, Ok(true)), "log:skip", "skipping {m} bytes failed") }
                cx.probe("junk_decoded_as_it_denotes");
            }
            (_, Some(_)) => return viol("log:lost", format!("record {n} of {} ({}) was not recovered", want.len(), ty.name)),
            (Dn::Short, None) => { cx.probe("stopped_at_torn_record"); break }
            (Dn::Refused(_), None) => { cx.probe("stopped_at_invalid_tail"); break }
        }
    }
    ensure!(n == want.len(), "log:lost", "{n} of {} records were recovered", want.len());
    cx.ev(n as u64, pos as u64);
    cx.say(|| format!("recovered {n} records"));
    Ok(())
}
