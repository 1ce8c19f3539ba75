//! The simulator of C17: the same histories against the library built with each combination of its
//! features. What is not about features is shared with ../sim.
#[path = "../../sim/src/alloc.rs"] mod alloc;
#[path = "../../sim/src/choice.rs"] mod choice;
#[path = "../../sim/src/codec.rs"] mod codec;
#[path = "../../sim/src/ctx.rs"] mod ctx;
#[path = "../../sim/src/driver.rs"] mod driver;
#[path = "../../sim/src/guardbuf.rs"] mod guardbuf;
#[path = "../../sim/src/sys.rs"] mod sys;
#[path = "../../sim/src/tree.rs"] mod tree;
mod featsim;
mod world;
#[path = "../../bare/src/exchange.rs"] mod exchange;
mod zoo;
/// Parts of the other simulator that have nothing to do here.
mod sched { pub fn step_off() {} }
mod oomsim { pub fn in_window() -> bool { false } pub fn is_precondition(_: &str) -> bool { false } pub fn precondition(_: &str, _: u32) {} }

#[global_allocator] static A: alloc::SimAlloc = alloc::SimAlloc;

pub const PROFILE: &str = match (cfg!(feature = "alloc"), cfg!(feature = "proc-macro"), cfg!(feature = "std")) {
    (false, false, false) => "feat-none",
    (true, false, false) => "feat-alloc",
    (false, true, false) => "feat-proc-macro",
    (false, false, true) => "feat-std",
    (true, true, false) => "feat-alloc+proc-macro",
    (true, false, true) => "feat-alloc+std",
    (false, true, true) => "feat-proc-macro+std",
    (true, true, true) => "feat-alloc+proc-macro+std",
};

fn engine(p: &str) -> Option<driver::RunFn> { Some(match p { "C17" => featsim::c17, "C17core" => featsim::core, _ => return None }) }
fn main() {
    sys::roomy_stack();
    sys::quiet_self();
    ctx::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| opt(k, "").parse().unwrap_or(d);
    let prop = a.get(2).cloned().unwrap_or_default();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("batch") => {
            let Some(f) = engine(&prop) else { eprintln!("no engine for {prop}"); std::process::exit(2) };
            let o = driver::Opts { f, seed: num("--seed", 1), runs: num("--runs", 1000), workers: num("--workers", 4), cap: opt("--cap", "60").parse().unwrap_or(60.0),
                out: opt("--out", "/tmp/vsim-out.json"), replays: opt("--replays", "/tmp/vsim-replays"), shrink: opt("--shrink", "30").parse().unwrap_or(30.0), prop };
            driver::batch(&o)
        }
        Some("replay") => driver::replay(&prop, engine),
        // The event-log digest of runs that need none of the features.
        Some("digests") => {
            let mut w = world::World::new();
            let mut st = ctx::Stats::default();
            for i in num("--from", 0)..num("--runs", 100) {
                let o = driver::run_one(featsim::core, choice::Src::random(driver::run_seed(num("--seed", 1), "C17core", i), None), &mut st, None, false, &mut w);
                println!("{i} {:016x} {}", o.digest, match &o.res { Ok(()) => "held", Err(v) => &v.class });
            }
            0
        }
        // The same for the exchanges that also run without the standard library.
        Some("exchange") => {
            for i in 0..num("--runs", 100) { for part in (0..exchange::PARTS.len()).filter(|p| exchange::has(*p)) {
                match ctx::guard(|| exchange::exchange(num("--seed", 1), i, part)) { Ok(d) => println!("{d:016x}"), Err(_) => println!("stopped") }
            } }
            0
        }
        Some("one") => {
            let Some(f) = engine(&prop) else { std::process::exit(2) };
            let g = driver::isolated(f, driver::What::Seed(driver::run_seed(num("--seed", 1), &prop, num("--idx", 0))), choice::Shared::new(), true, 600);
            print!("{}", g.trace);
            println!("{:?} {} digest {:x} choices {}", g.class, g.msg, g.digest, g.choices.len());
            g.class.is_some() as i32
        }
        Some("types") => { let w = world::World::new(); println!("{} types, {} of them in every build", w.tys.len(), w.tys.iter().filter(|t| t.core).count()); 0 }
        _ => { eprintln!("usage: vfeat batch PROP | replay FILE | digests --runs N | one PROP --idx N"); 2 }
    };
    std::process::exit(code);
}
