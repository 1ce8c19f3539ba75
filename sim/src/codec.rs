//! Judging the library's encoders and decoders against the reference model.
use crate::ctx::*;
use crate::ensure;
use crate::tree::*;
use crate::world::World;
use crate::zoo::*;
use oct::decode::Input;
use oct::encode::Output;

/// What an encoder was found to have done.
pub struct Emitted { pub bytes: Vec<u8>, pub marks: Vec<Mark> }

/// Whether `got` is an acceptable encoding of `t`.
pub fn same_encoding(s: &S, maps: bool, want: &[u8], got: &[u8]) -> bool {
    if got == want { return true }
    if !maps || got.len() != want.len() { return false }
    match (ref_decode(s, want), ref_decode(s, got)) { (Ok((a, i)), Ok((b, j))) => i == j && i == got.len() && a == b, _ => false }
}
/// The field boundaries of an encoding the library chose the order of.
fn marks_of(s: &S, maps: bool, want: Enc, got: &[u8]) -> Vec<Mark> {
    if !maps { return want.marks }
    let _ = (s, got);
    want.marks
}

/// Encodes through `view`, after `prefix`, into a buffer with `slack` bytes to spare.
pub fn encode_ok(w: &mut World, ty: &Ty, t: &Tree, view: u8, prefix: &[u8], slack: usize) -> R<Emitted> {
    let want = match ref_encode(&ty.schema, t) { Ok(e) => e, Err((e, _)) => panic!("model cannot encode {} {}: {e:?}", ty.name, t.brief()) };
    let f = ty.vt.mk(t, view);
    encode_with(w, ty.name, &ty.schema, ty.maps, want, t, &f, view, prefix, slack)
}
#[allow(clippy::too_many_arguments)]
pub fn encode_with(w: &mut World, name: &str, s: &S, maps: bool, want: Enc, t: &Tree, f: &EncFn, view: u8, prefix: &[u8], slack: usize) -> R<Emitted> {
    let n = prefix.len() + want.out.len();
    let buf = w.gout.take(n + slack, 0x5C);
    let mut o = Output::new(buf);
    ensure!(o.write(prefix).is_ok() && o.position() == prefix.len(), "encode:prefix", "writing {} bytes into {} failed", prefix.len(), n + slack);
    let r = guard(|| f(&mut o));
    let pos = o.position();
    let got = o.as_slice().to_vec();
    drop(o);
    let full = w.gout.last();
    match r {
        Err(p) => return viol("encode:panic", format!("encoding {name} {} (view {view}) with {slack} bytes to spare panicked at {}", t.brief(), p.at)),
        Ok(Err(e)) => return viol("encode:error", format!("encoding {name} {} (view {view}) failed with {e:?}", t.brief())),
        Ok(Ok(())) => {}
    }
    ensure!(got.len() == pos && got.len() >= prefix.len() && got[..prefix.len()] == *prefix, "encode:earlier", "encoding {name} {} (view {view}) changed what was written earlier", t.brief());
    let body = &got[prefix.len()..];
    ensure!(same_encoding(s, maps, &want.out, body), "encode:bytes", "{name} {} (view {view}) encoded as {} rather than {}", t.brief(), hex(body), hex(&want.out));
    ensure!(full[pos..].iter().all(|b| *b == 0x5C), "encode:beyond", "encoding {name} {} (view {view}) touched bytes beyond its position", t.brief());
    ensure!(w.gout.intact(), "encode:before", "encoding {name} {} (view {view}) wrote before its buffer", t.brief());
    let bytes = body.to_vec();
    let marks = marks_of(s, maps, want, &bytes);
    Ok(Emitted { bytes, marks })
}

#[derive(Debug, Clone, PartialEq)]
pub enum Dn { Val(Tree, usize), Refused(ErrT), Short }

/// What the model says about `b`.
pub fn expect(s: &S, b: &[u8]) -> Result<(Tree, usize), DErr> { ref_decode(s, b).map(|(t, n)| (canon(s, t), n)) }

/// Compares what a decoder did with what the model says. `strict`: errors must match exactly.
pub fn judge(name: &str, s: &S, b: &[u8], exp: Result<(Tree, usize), DErr>, got: Result<Result<Tree, ErrT>, Panicked>, used: Option<usize>, strict: bool) -> R<Dn> {
    let got = got.map(|r| r.map(|t| canon(s, t)));
    match (exp, got) {
        (Ok((t, n)), Ok(Ok(g))) => {
            ensure!(t == g, "decode:value", "{name}: {} decoded as {} rather than {}", hex(&b[..n]), g.brief(), t.brief());
            if let Some(u) = used { ensure!(u == n, "decode:consumed", "{name}: decoding {} consumed {u} bytes rather than {n}", hex(&b[..n])) }
            Ok(Dn::Val(t, n))
        }
        (Ok((t, n)), Ok(Err(e))) => viol("decode:refused", format!("{name}: {} denotes {} but was refused with {e:?}", hex(&b[..n]), t.brief())),
        (Ok((t, n)), Err(p)) => viol("decode:panic", format!("{name}: {} denotes {} but decoding panicked at {}", hex(&b[..n]), t.brief(), p.at)),
        (Err(DErr::Eof), Ok(Ok(g))) => viol("decode:incomplete", format!("{name}: the incomplete {} decoded as {}", hex(b), g.brief())),
        (Err(DErr::Eof), _) => Ok(Dn::Short),
        (Err(DErr::Bad(e)), Ok(Ok(g))) => viol("decode:invalid", format!("{name}: the invalid {} ({e:?}) decoded as {}", hex(b), g.brief())),
        (Err(DErr::Bad(e)), Ok(Err(x))) => {
            if strict && !matches!(e.leaf(), ErrT::DurOverflow) { ensure!(e == x, "decode:error", "{name}: {} was refused with {x:?} rather than {e:?}", hex(b)) }
            Ok(Dn::Refused(e))
        }
        (Err(DErr::Bad(e)), Err(p)) => {
            let tolerated = match e.leaf() {
                ErrT::DurOverflow => true,
                // Too long for the receiver and cut short as well: refusing either way is right.
                ErrT::Len { .. } => ref_decode(&uncap(s), b) == Err(DErr::Eof),
                _ => false,
            };
            ensure!(tolerated, "decode:panic", "{name}: {} is invalid ({e:?}) but decoding panicked at {}", hex(b), p.at);
            Ok(Dn::Refused(e))
        }
    }
}
/// The same layout without capacities.
pub fn uncap(s: &S) -> S {
    let u = |i: &std::rc::Rc<S>| rc(uncap(i));
    let us = |v: &[S]| v.iter().map(uncap).collect::<Vec<_>>();
    match s {
        S::Str(_) => S::Bytes(None), S::Bytes(_) => S::Bytes(None), S::Seq(i, _) => S::Seq(u(i), None), S::Arr(i, n) => S::Arr(u(i), *n), S::Prod(v) => S::Prod(us(v)), S::Struct(v) => S::Struct(us(v)),
        S::Opt(i) => S::Opt(u(i)), S::Res(a, b) => S::Res(u(a), u(b)), S::Bnd(i) => S::Bnd(u(i)), S::Map(k, v) => S::Map(u(k), u(v)), S::Set(k) => S::Set(u(k)), S::RefC(i) => S::RefC(u(i)),
        S::Enum(r, vs) => S::Enum(*r, vs.iter().map(|(d, f)| (*d, us(f))).collect()), S::Nz(i) => u(i).as_ref().clone(), s => s.clone(),
    }
}

/// Decodes `b[at..]` as `ty` from a stream over `b` and judges the result.
pub fn decode_at(w: &mut World, ty: &Ty, b: &[u8], at: usize, how: u8, strict: bool) -> R<Dn> {
    let exp = expect(&ty.schema, &b[at..]);
    let buf = w.gin.load(b);
    let mut i = Input::new(buf);
    ensure!(i.read(at).is_ok_and(|x| x == &b[..at]), "decode:prefix", "skipping {at} of {} bytes failed", b.len());
    let got = guard(|| if how == 0 { ty.vt.dec(&mut i) } else { ty.vt.dec_as(&mut i, how) });
    let pos = i.position();
    ensure!(pos <= b.len() && pos >= at, "decode:position", "{}: cursor at {pos} of {} after decoding from {at}", ty.name, b.len());
    ensure!(&*buf == b, "decode:wrote", "{}: decoding changed its input", ty.name);
    judge(ty.name, &ty.schema, &b[at..], exp, got, Some(pos - at), strict)
}
