//! Batches of simulated runs over forked workers, minimisation, replay.
use crate::alloc;
use crate::choice::{mix, Shared, Src};
use crate::ctx::*;
use crate::sys::*;
use crate::world::World;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub type RunFn = fn(&mut Cx, &mut World) -> R;
pub use crate::PROFILE;

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 { mix(mix(seed, hash_str(prop)), idx) }

pub struct Outcome { pub res: R, pub digest: u64, pub sig: u64, pub nontrivial: bool }

/// One run: a pure function of the choices.
pub fn run_one(f: RunFn, src: Src, st: &mut Stats, shared: Option<Shared>, verbose: bool, w: &mut World) -> Outcome {
    alloc::take_error();
    crate::zoo::set_hashing(1, 0);
    w.reset();
    let mut cx = Cx::new(src, st, shared, verbose);
    let mut res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx, w))) {
        Ok(r) => r,
        Err(p) => {
            let at = match p.downcast::<HarnessBug>() { Ok(h) => h.0, Err(_) => last_panic() };
            viol(format!("unexpected-panic:{}", at.split(' ').next().unwrap_or("?")), format!("a step that cannot fail panicked: {at}"))
        }
    };
    alloc::fail_off();
    alloc::sweep();
    if let Some(e) = alloc::take_error() { if res.is_ok() { res = viol(format!("heap:{e:?}"), format!("the simulated heap was misused: {e:?}")) } }
    cx.src.finish();
    let nontrivial = cx.acted > 0 && (cx.faulted > 0 || cx.forced);
    let (digest, sig) = (cx.digest, cx.sig);
    st.runs += 1;
    if st.sigs.insert(sig) && nontrivial { st.nontrivial.insert(sig); }
    Outcome { res, digest, sig, nontrivial }
}

#[repr(C)]
struct WB { idx: AtomicU64, active: AtomicU64, viol: AtomicU64, runs: AtomicU64, end: AtomicU64, ndig: AtomicU64, dig: [[AtomicU64; 2]; 24] }

pub struct Opts { pub prop: String, pub f: RunFn, pub seed: u64, pub runs: u64, pub workers: u64, pub cap: f64, pub out: String, pub replays: String, pub shrink: f64 }

fn write_stats(path: &str, st: &Stats) {
    let mut s = String::new();
    let _ = writeln!(s, "runs {}\nsteps {}\nsim_ns {}\nchecks {}", st.runs, st.steps, st.sim_ns, st.checks);
    for (k, v) in &st.faults { let _ = writeln!(s, "fault {k} {v}"); }
    for (k, v) in &st.probes { let _ = writeln!(s, "probe {k} {v}"); }
    let _ = std::fs::write(path, s);
    for (n, set) in [("sigs", &st.sigs), ("nontrivial", &st.nontrivial), ("states", &st.states)] {
        let mut b = Vec::with_capacity(set.len() * 8);
        for v in set { b.extend_from_slice(&v.to_le_bytes()) }
        let _ = std::fs::write(format!("{path}.{n}"), b);
    }
}
#[derive(Default)]
struct Merged { runs: u64, steps: u64, sim_ns: u128, checks: u64, faults: std::collections::BTreeMap<String, u64>, probes: std::collections::BTreeMap<String, u64>, sets: [HashSet<u64>; 3] }
fn read_stats(m: &mut Merged, path: &str) {
    let Ok(s) = std::fs::read_to_string(path) else { return };
    for l in s.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "runs" => m.runs += p[1].parse::<u64>().unwrap_or(0), "steps" => m.steps += p[1].parse::<u64>().unwrap_or(0), "checks" => m.checks += p[1].parse::<u64>().unwrap_or(0),
            "sim_ns" => m.sim_ns += p[1].parse::<u128>().unwrap_or(0),
            "fault" => *m.faults.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap_or(0),
            "probe" => *m.probes.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap_or(0), _ => {}
        }
    }
    for (i, n) in ["sigs", "nontrivial", "states"].iter().enumerate() {
        if let Ok(b) = std::fs::read(format!("{path}.{n}")) { for c in b.chunks_exact(8) { m.sets[i].insert(u64::from_le_bytes(c.try_into().unwrap())); } }
    }
}

fn worker(o: &Opts, k: u64, wb: &WB, stop: &AtomicU64, t0: Instant, path: &str) -> i32 {
    let mut st = Stats::default();
    let mut w = World::new();
    let mut i = k;
    let every = (o.runs / o.workers / 20).max(1);
    let mut n = 0u64;
    while i < o.runs && stop.load(Relaxed) == 0 {
        if n % 16 == 0 && t0.elapsed().as_secs_f64() > o.cap { break }
        wb.idx.store(i, SeqCst); wb.active.store(1, SeqCst);
        let r = run_one(o.f, Src::random(run_seed(o.seed, &o.prop, i), None), &mut st, None, false, &mut w);
        wb.active.store(0, SeqCst);
        wb.runs.fetch_add(1, Relaxed);
        if n % every == 0 { let d = wb.ndig.load(Relaxed) as usize; if d < 24 { wb.dig[d][0].store(i, Relaxed); wb.dig[d][1].store(r.digest, Relaxed); wb.ndig.store(d as u64 + 1, SeqCst) } }
        if r.res.is_err() { wb.viol.store(i + 1, SeqCst); stop.store(1, SeqCst); break }
        n += 1;
        i += o.workers;
    }
    write_stats(path, &st);
    0
}

pub enum What { Seed(u64), Choices(Vec<u64>) }
pub struct Got { pub class: Option<String>, pub msg: String, pub choices: Vec<u64>, pub spans: Vec<(usize, usize)>, pub trace: String, pub digest: u64 }

/// One run in a process of its own.
pub fn isolated(f: RunFn, what: What, sh: Shared, verbose: bool, secs: u32) -> Got {
    sh.reset();
    let end = in_child(secs, || {
        let src = match what { What::Seed(s) => Src::random(s, Some(sh)), What::Choices(v) => Src::replay(v, Some(sh)) };
        let mut st = Stats::default();
        let mut w = World::new();
        set_loud(true);
        let r = run_one(f, src, &mut st, Some(sh), verbose, &mut w);
        sh.hdr().pad = r.digest;
        match r.res { Ok(()) => 0, Err(v) => { sh.say(&format!("!!{}\t{}\n", v.class, v.msg.replace('\n', " "))); 1 } }
    });
    let mut trace = sh.get_trace();
    let (mut class, mut msg) = (None, String::new());
    match end {
        End::Code(0) => {}
        End::Code(1) => {
            if let Some(p) = trace.rfind("!!") { let l = trace[p + 2..].trim_end().to_string(); trace.truncate(p); let (c, m) = l.split_once('\t').unwrap_or((&l, "")); class = Some(c.to_string()); msg = m.to_string() } else { class = Some("unknown".into()) }
        }
        End::Code(c) => { class = Some(format!("exit:{c}")); msg = "the process of the run exited".into() }
        End::Signal(14) => { class = Some("hang".into()); msg = format!("no progress in {secs} s") }
        End::Signal(s) => { class = Some(format!("crash:{}", sig_name(s))); msg = format!("the process of the run was killed by {}", sig_name(s)) }
    }
    Got { class, msg, choices: sh.get_choices(), spans: sh.get_spans(), trace, digest: sh.hdr().pad }
}

pub fn shrink(f: RunFn, first: Got, sh: Shared, budget: f64) -> (Got, u64) {
    let t0 = Instant::now();
    let class = first.class.clone();
    let secs = if class.as_deref() == Some("hang") { 5 } else { 20 };
    let mut best = first;
    let mut tries = 0u64;
    let done = |n: u64| t0.elapsed().as_secs_f64() > budget || n > 20_000;
    macro_rules! attempt { ($v:expr) => {{
        tries += 1;
        let g = isolated(f, What::Choices($v), sh, false, secs);
        if g.class == class { let mut g = g; while g.choices.last() == Some(&0) { g.choices.pop(); } let n = g.choices.len(); for s in &mut g.spans { s.1 = s.1.min(n) } g.spans.retain(|s| s.0 < s.1); best = g; true } else { false }
    }} }
    let v = best.choices.clone();
    if !attempt!(v) { return (best, tries) }
    loop {
        let mark = (best.choices.len(), best.choices.iter().map(|v| (*v as u128).min(1 << 64)).sum::<u128>());
        // Whole spans first, longest first.
        let mut k = 0;
        loop {
            let mut sp = best.spans.clone();
            sp.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
            sp.dedup();
            if k >= sp.len() || done(tries) { break }
            let (a, b) = sp[k];
            let mut v = best.choices.clone();
            v.drain(a..b.min(v.len()));
            let old = best.choices.len();
            if attempt!(v) && best.choices.len() < old { continue }
            k += 1;
            if k > 300 { break }
        }
        // Then chunks: removed, or zeroed.
        let mut size = (best.choices.len() / 2).max(1);
        while size >= 1 && !done(tries) {
            let mut a = 0;
            while a < best.choices.len() && !done(tries) {
                let b = (a + size).min(best.choices.len());
                let mut v = best.choices.clone();
                v.drain(a..b);
                let old = best.choices.len();
                if attempt!(v) && best.choices.len() < old { continue }
                if best.choices[a..b.min(best.choices.len())].iter().any(|x| *x != 0) && size <= 64 {
                    let mut v = best.choices.clone();
                    for x in &mut v[a..b] { *x = 0 }
                    attempt!(v);
                }
                a += size;
            }
            size /= 2;
        }
        // Then single numbers.
        let mut i = 0;
        while i < best.choices.len() && !done(tries) {
            let cur = best.choices[i];
            for cand in [cur >> 32, cur / 2, cur.saturating_sub(1)] {
                if i < best.choices.len() && cand < best.choices[i] { let mut v = best.choices.clone(); v[i] = cand; attempt!(v); }
            }
            i += 1;
        }
        let now = (best.choices.len(), best.choices.iter().map(|v| (*v as u128).min(1 << 64)).sum::<u128>());
        if now >= mark || done(tries) { break }
    }
    (best, tries)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

pub fn write_replay(path: &str, o: &Opts, idx: u64, g: &Got, from: usize, tries: u64, seq: Option<(u64, u64)>) {
    let mut s = String::new();
    let _ = writeln!(s, "# Replay with: ./check.py replay {path}");
    let _ = writeln!(s, "property {}\nprofile {}\nseed {}\nrun {}\nclass {}", o.prop, PROFILE, o.seed, idx, g.class.as_deref().unwrap_or("?"));
    let _ = writeln!(s, "message {}", g.msg.replace('\n', " "));
    if let Some((k, n)) = seq { let _ = writeln!(s, "sequence {k} {n}"); }
    let _ = writeln!(s, "minimised {from} -> {} choices in {tries} attempts", g.choices.len());
    let _ = writeln!(s, "choices {}", g.choices.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(s, "trace");
    for l in g.trace.lines().take(4000) { let _ = writeln!(s, "  {l}"); }
    let _ = std::fs::write(path, s);
}

pub fn batch(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let tmp = format!("{}.tmp", o.out);
    let _ = std::fs::create_dir_all(&tmp);
    let sz = std::mem::size_of::<WB>();
    let mem = map((sz * (o.workers as usize + 1) + 4096).next_multiple_of(4096), true);
    let stop = unsafe { &*(mem as *const AtomicU64) };
    let wb = |k: u64| unsafe { &*(mem.add(64 + sz * k as usize) as *const WB) };
    let mut pids = Vec::new();
    for k in 0..o.workers {
        let path = format!("{tmp}/w{k}");
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 { quiet_process(); let c = worker(o, k, wb(k), stop, t0, &path); unsafe { _exit(c) } }
        pids.push(Some(pid));
    }
    // Watch.
    let mut bad: Vec<(u64, u64, String)> = Vec::new(); // (idx, worker, how)
    let mut seen: Vec<(u64, Instant)> = (0..o.workers).map(|_| (u64::MAX, Instant::now())).collect();
    while pids.iter().any(|p| p.is_some()) {
        let mut any = false;
        for k in 0..o.workers as usize {
            let Some(pid) = pids[k] else { continue };
            let mut stt = 0;
            if unsafe { waitpid(pid, &mut stt, WNOHANG) } == pid {
                pids[k] = None; any = true;
                match decode_status(stt) {
                    End::Code(0) => {}
                    e => { let b = wb(k as u64); bad.push((b.idx.load(SeqCst), k as u64, format!("{e:?}"))); stop.store(1, SeqCst) }
                }
                continue;
            }
            let r = wb(k as u64).runs.load(SeqCst);
            if r != seen[k].0 { seen[k] = (r, Instant::now()) }
            else if wb(k as u64).active.load(SeqCst) == 1 && seen[k].1.elapsed() > Duration::from_secs(90) {
                unsafe { kill(pid, SIGKILL) };
                let mut s2 = 0; unsafe { waitpid(pid, &mut s2, 0) };
                pids[k] = None;
                bad.push((wb(k as u64).idx.load(SeqCst), k as u64, "hang".into())); stop.store(1, SeqCst);
            }
        }
        if !any { unsafe { usleep(2000); } }
    }
    for k in 0..o.workers { let v = wb(k).viol.load(SeqCst); if v > 0 { bad.push((v - 1, k, "violation".into())) } }
    let explored = t0.elapsed().as_secs_f64();
    let mut m = Merged::default();
    for k in 0..o.workers { read_stats(&mut m, &format!("{tmp}/w{k}")) }
    let _ = std::fs::remove_dir_all(&tmp);
    let total_runs: u64 = (0..o.workers).map(|k| wb(k).runs.load(SeqCst)).sum();

    let sh = Shared::new();
    let mut code = 0;
    let mut viol_json = String::from("null");
    let (mut compared, mut differ) = (0u64, 0u64);
    bad.sort();
    if let Some((idx, k, how)) = bad.first().cloned() {
        eprintln!("vsim: run {idx} of worker {k}: {how}; re-executing");
        let secs = if how == "hang" { 90 } else { 120 };
        let g = isolated(o.f, What::Seed(run_seed(o.seed, &o.prop, idx)), sh, false, secs);
        let path = format!("{}/{}-{}-{}-{}.replay", o.replays, o.prop, PROFILE, o.seed, idx);
        let _ = std::fs::create_dir_all(&o.replays);
        let (g, seq) = if g.class.is_some() {
            let from = g.choices.len();
            let (g, tries) = shrink(o.f, g, sh, o.shrink);
            let h = isolated(o.f, What::Choices(g.choices.clone()), sh, true, secs);
            let g = if h.class == g.class { h } else { g };
            write_replay(&path, o, idx, &g, from, tries, None);
            (g, false)
        } else {
            // Only after the runs before it: keep the whole sequence.
            let g = sequence(o.f, &o.prop, o.seed, k, o.workers, idx, sh, 600);
            let ok = g.class.is_some();
            let g = if ok { g } else { Got { class: Some(format!("unstable:{how}")), msg: format!("worker {k} ended with {how} at run {idx}; neither that run nor the sequence before it repeats this"), ..g } };
            write_replay(&path, o, idx, &g, g.choices.len(), 0, Some((k, o.workers)));
            (g, true)
        };
        viol_json = format!("{{\"run\": {idx}, \"class\": {}, \"message\": {}, \"replay\": {}, \"choices\": {}, \"sequence\": {seq}}}", js(g.class.as_deref().unwrap_or("?")), js(&g.msg), js(&path), g.choices.len());
        println!("violation class={} run={idx} profile={PROFILE} choices={} : {}", g.class.as_deref().unwrap_or("?"), g.choices.len(), g.msg);
        println!("replay {path}");
        code = 1;
    } else {
        // The same seeds must give the same event logs in another process, alone.
        'o: for k in 0..o.workers {
            let b = wb(k);
            for d in 0..b.ndig.load(SeqCst) as usize {
                if t0.elapsed().as_secs_f64() > explored + 20.0 { break 'o }
                let (i, dig) = (b.dig[d][0].load(SeqCst), b.dig[d][1].load(SeqCst));
                let g = isolated(o.f, What::Seed(run_seed(o.seed, &o.prop, i)), sh, d % 2 == 0, 120);
                let h = isolated(o.f, What::Choices(g.choices.clone()), sh, false, 120);
                compared += 2;
                for x in [&g, &h] { if x.digest != dig || x.class.is_some() { differ += 1; eprintln!("vsim: run {i} is not repeatable: digest {dig:x} then {:x} {:?}", x.digest, x.class) } }
            }
        }
        if differ > 0 { code = 2 }
    }
    // Cases to show.
    let mut samples = Vec::new();
    if code == 0 {
        for i in 0..o.runs.min(40) {
            if samples.len() >= 2 { break }
            let mut nt = false;
            let g = { sh.reset(); isolated(o.f, What::Seed(run_seed(o.seed, &o.prop, i)), sh, true, 120) };
            if g.trace.contains("fault") || g.trace.contains("FAULT") { nt = true }
            if nt || i > 30 { samples.push(format!("{{\"run\": {i}, \"seed\": {}, \"profile\": {}, \"events\": [{}]}}", o.seed, js(PROFILE), g.trace.lines().take(14).map(|l| js(&l.chars().take(240).collect::<String>())).collect::<Vec<_>>().join(", "))) }
        }
    }
    let list = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    let json = format!("{{\"profile\": {}, \"runs\": {}, \"steps\": {}, \"checks\": {}, \"sim_s\": {:.3}, \"wall_s\": {:.3}, \"explored_s\": {:.3}, \"faults\": {}, \"probes\": {}, \"distinct\": {}, \"nontrivial\": {}, \"states\": {}, \"repeat_checked\": {compared}, \"repeat_differed\": {differ}, \"requested_runs\": {}, \"samples\": [{}], \"violation\": {}}}\n",
        js(PROFILE), total_runs, m.steps, m.checks, m.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64(), explored, list(&m.faults), list(&m.probes), m.sets[0].len(), m.sets[1].len(), m.sets[2].len(), o.runs, samples.join(", "), viol_json);
    if let Ok(mut f) = std::fs::File::create(&o.out) { let _ = f.write_all(json.as_bytes()); }
    code
}

pub fn sequence(f: RunFn, prop: &str, seed: u64, k: u64, n: u64, idx: u64, sh: Shared, secs: u32) -> Got {
    sh.reset();
    let end = in_child(secs, || {
        let mut st = Stats::default();
        let mut w = World::new();
        let mut i = k;
        while i <= idx {
            let r = run_one(f, Src::random(run_seed(seed, prop, i), None), &mut st, None, false, &mut w);
            if let Err(v) = r.res { sh.say(&format!("!!{}\t{}\n", v.class, v.msg.replace('\n', " "))); return 1 }
            i += n;
        }
        0
    });
    let t = sh.get_trace();
    let (class, msg) = match end {
        End::Code(0) => (None, String::new()),
        End::Code(_) => { let l = t.trim_start_matches("!!").trim_end(); let (c, m) = l.split_once('\t').unwrap_or((l, "")); (Some(c.to_string()), m.to_string()) }
        End::Signal(14) => (Some("hang".into()), String::new()),
        End::Signal(s) => (Some(format!("crash:{}", sig_name(s))), String::new()),
    };
    Got { class, msg, choices: vec![], spans: vec![], trace: String::new(), digest: 0 }
}

pub fn replay(path: &str, engine: impl Fn(&str) -> Option<RunFn>) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else { eprintln!("cannot read {path}"); return 2 };
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).map(|v| v.to_string());
    let (Some(prop), Some(class)) = (field("property"), field("class")) else { eprintln!("not a replay file"); return 2 };
    let Some(f) = engine(&prop) else { eprintln!("no engine for {prop}"); return 2 };
    let sh = Shared::new();
    let num = |k: &str| field(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    let g = if let Some(q) = field("sequence") {
        let q: Vec<u64> = q.split(' ').filter_map(|v| v.parse().ok()).collect();
        sequence(f, &prop, num("seed"), q[0], q[1], num("run"), sh, 600)
    } else {
        let ch: Vec<u64> = field("choices").unwrap_or_default().split(' ').filter_map(|v| v.parse().ok()).collect();
        isolated(f, What::Choices(ch), sh, true, 120)
    };
    print!("{}", g.trace);
    match &g.class {
        Some(c) => { println!("class={c}: {}", g.msg); println!("{}", if *c == class { "reproduced" } else { "failed differently" }); 1 }
        None => { println!("the run held: class={class} did not recur"); 0 }
    }
}
