//! Known findings, each re-executed as the specific history that fails. Anything other than the
//! recorded behaviour (or the correct one) is reported as OTHER.
use crate::ctx::guard;
use crate::sys::{in_child, End};
use oct::decode::{Decode, Input};
use oct::SizedSlice;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::time::Duration;

/// Exit codes of a probe: 0 holds, 1 manifests, 2 other.
fn duration_overflow() -> i32 {
    let mut worst = 0;
    for (s, n) in [(u64::MAX, 1_000_000_000u32), (u64::MAX, u32::MAX), (u64::MAX - 3, 4_000_000_000)] {
        let mut b = s.to_le_bytes().to_vec();
        b.extend_from_slice(&n.to_le_bytes());
        let mut i = Input::new(&b);
        worst = worst.max(match guard(|| Duration::decode(&mut i).map_err(|_| ())) { Ok(Err(())) => 0, Err(_) => 1, Ok(Ok(_)) => 2 });
    }
    // Values next to it are decoded.
    let mut b = (u64::MAX - 4).to_le_bytes().to_vec();
    b.extend_from_slice(&4_000_000_001u32.to_le_bytes());
    if guard(|| Duration::decode(&mut Input::new(&b))).ok() != Some(Ok(Duration::new(u64::MAX, 1))) { return 2 }
    worst
}

static DROPS: AtomicI64 = AtomicI64::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);
struct Tok(#[allow(dead_code)] u64);
impl Tok { fn new(k: u64) -> Tok { DROPS.fetch_sub(1, SeqCst); Tok(k) } }
impl Drop for Tok { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); SEEN.fetch_xor(1 << self.0, SeqCst); } }

/// A partly consumed iterator is dropped: what remains of it is leaked.
fn iter_drop() -> i32 {
    let mut worst = 0;
    for (front, back) in [(0usize, 0usize), (1, 0), (0, 2), (2, 1)] {
        DROPS.store(0, SeqCst);
        let s: SizedSlice<Tok, 5> = (0..5).map(Tok::new).collect();
        let mut it = s.into_iter();
        for _ in 0..front { drop(it.next()) }
        for _ in 0..back { drop(it.next_back()) }
        drop(it);
        let left = -DROPS.load(SeqCst);
        worst = worst.max(if left == 0 { 0 } else if left == (5 - front - back) as i64 { 1 } else { 2 });
    }
    worst
}

/// `nth` skips to the wrong place: the element it returns is not consumed, the index is absolute,
/// and an index of zero underflows.
fn iter_nth() -> i32 {
    // Correct behaviour throughout? (The first, harmless case tells.)
    let correct = guard(|| {
        for (skip, back, n) in [(0usize, 0usize, 2usize), (0, 0, 0), (1, 0, 1), (1, 1, 2), (0, 0, 5), (2, 0, 9)] {
            let s: SizedSlice<u8, 5> = SizedSlice::from([10, 11, 12, 13, 14]);
            let (mut a, mut b) = (s.into_iter(), vec![10u8, 11, 12, 13, 14].into_iter());
            for _ in 0..skip { a.next(); b.next(); }
            for _ in 0..back { a.next_back(); b.next_back(); }
            if a.nth(n) != b.nth(n) || !a.eq(b) { return false }
        }
        true
    });
    if let Ok(true) = correct { return 0 }
    // Exactly the recorded deviation?
    let s: SizedSlice<u8, 5> = SizedSlice::from([10, 11, 12, 13, 14]);
    let mut it = s.into_iter();
    let recorded = guard(move || {
        let a = it.nth(2);
        let rest: Vec<u8> = it.collect();
        (a, rest)
    });
    match recorded { Ok((Some(12), rest)) if rest == [12, 13, 14] => 1, _ => 2 }
}

pub fn probe(name: &str) -> i32 {
    let f: fn() -> i32 = match name {
        "duration-overflow" => duration_overflow, "iter-drop" => iter_drop, "iter-nth" => iter_nth,
        _ => { println!("PROBE OTHER no such probe"); return 2 }
    };
    match in_child(60, f) {
        End::Code(0) => println!("PROBE HOLDS {name}"),
        End::Code(1) => println!("PROBE MANIFESTS {name}"),
        e => println!("PROBE OTHER {name} neither holds nor fails as recorded ({e:?})"),
    }
    0
}
