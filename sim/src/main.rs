//! wfsim: deterministic simulation of wayfinder under faults.
//!
//!   wfsim check ID            seeded search for one property (VERIF_SEED, VERIF_TIER)
//!   wfsim replay FILE         executes a scenario file, prints its trace; exit 1 if it violates
//!   wfsim scenario ID ENGINE SEED   prints the scenario a seed expands to
//!   wfsim selftest [N]        same seeds, twice, in different processes: same digests?
mod alloc;
mod canon;
mod check;
mod core;
mod gen;
mod pgen;
mod procs;
mod rng;
mod scen;
mod stream;
mod sys;
mod threads;

#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc;

fn main() {
    sys::no_aslr();
    unsafe { core::sched_rnd(core::REF_RND) };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(0) {
        "check" => check::check(s(1)),
        "replay" => check::replay(s(1), a.iter().any(|x| x == "--quiet")),
        "scenario" => { let mut e = check::Engines::new("s"); print!("{}", e.generate(s(1), s(2), s(3).parse().unwrap_or(0)).print()); 0 }
        "selftest" => check::selftest(s(1).parse().unwrap_or(200)),
        "profile" => check::profile(s(1), s(2), s(3).parse().unwrap_or(100)),
        _ => { eprintln!("usage: wfsim check ID | replay FILE | scenario ID ENGINE SEED | selftest [N]"); 2 }
    };
    std::process::exit(code);
}
