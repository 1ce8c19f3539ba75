mod alloc; mod choice; mod codec; mod ctx; mod driver; mod guardbuf; mod logsim; mod maxsim; mod net; mod probes; mod refusesim; mod slotsim; mod streamsim; mod locksim; mod oomsim; mod sched; mod tok; mod collsim; mod dropsim; mod sys; mod tree; mod world; mod zoo; mod zoo_big; pub mod zoo_derived;
pub const PROFILE: &str = if cfg!(vsim_asan) { "simsan" } else if cfg!(vsim_msan) { "simmem" } else if cfg!(debug_assertions) { "simdbg" } else { "simrel" };
#[global_allocator] static A: alloc::SimAlloc = alloc::SimAlloc;

fn engine(p: &str) -> Option<driver::RunFn> {
    Some(match p {
        "C01" => net::c01, "C02" => net::c02, "C11" => net::c11, "C12" => net::c12, "C13" => net::c13, "C16" => net::c16,
        "C05" => locksim::c05, "C14" => oomsim::c14, "C04" => dropsim::c04, "C08" => collsim::c08, "C09" => collsim::c09, "C15" => logsim::c15, "C03" => slotsim::c03, "C06" => streamsim::c06, "C07" => maxsim::c07, "C10" => refusesim::c10,
        _ => return None,
    })
}
fn main() {
    sys::roomy_stack();
    sys::quiet_self();
    ctx::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("batch") => {
            let prop = a.get(2).cloned().unwrap_or_default();
            let Some(f) = engine(&prop) else { eprintln!("no engine for {prop}"); std::process::exit(2) };
            let o = driver::Opts { f, seed: opt("--seed", "1").parse().unwrap_or(1), runs: opt("--runs", "1000").parse().unwrap_or(1000), workers: opt("--workers", "4").parse().unwrap_or(4), cap: opt("--cap", "60").parse().unwrap_or(60.0),
                out: opt("--out", "/tmp/vsim-out.json"), replays: opt("--replays", "/tmp/vsim-replays"), shrink: opt("--shrink", "30").parse().unwrap_or(30.0), prop };
            driver::batch(&o)
        }
        Some("replay") => driver::replay(a.get(2).map_or("", |s| s), engine),
        Some("probe") => probes::probe(a.get(2).map_or("", |s| s)),
        Some("one") => {
            let prop = a.get(2).cloned().unwrap_or_default();
            let Some(f) = engine(&prop) else { std::process::exit(2) };
            let idx: u64 = opt("--idx", "0").parse().unwrap_or(0);
            let g = driver::isolated(f, driver::What::Seed(driver::run_seed(opt("--seed", "1").parse().unwrap_or(1), &prop, idx)), choice::Shared::new(), true, 600);
            print!("{}", g.trace);
            println!("{:?} {} digest {:x} choices {}", g.class, g.msg, g.digest, g.choices.len());
            g.class.is_some() as i32
        }
        Some("sizes") => { for x in zoo::all() { if let Some(m) = x.vt.max() { if Some(m) != tree::max_size(&x.schema) { println!("{} {m} {:?}", x.name, tree::max_size(&x.schema)) } } } 0 }
        Some("types") => { println!("{} types, {} of them bounded, {} with tracked elements besides", zoo::all().len(), zoo::all().iter().filter(|t| t.vt.max().is_some()).count(), zoo_derived::toks().len()); 0 }
        _ => { eprintln!("usage: vsim batch PROP | replay FILE | one PROP --idx N"); 2 }
    };
    std::process::exit(code);
}
