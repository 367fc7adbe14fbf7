//! The search: worker processes run seeded scenarios, violations are minimised, replayed from the
//! file in a fresh process and reported, and the evidence is written.
use crate::core::*;
use crate::procs::Procs;
use crate::rng;
use crate::scen::{self, Scen};
use crate::stream::{self, Stream};
use crate::sys::{self, End, Shared};
use crate::threads::Threads;
use crate::{pgen, procs};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;

pub struct Engines { tag: String, procs: Option<Procs>, threads: Option<Threads>, stream: Option<Stream> }
impl Engines {
    pub fn new(tag: &str) -> Engines { Engines { tag: tag.into(), procs: None, threads: None, stream: None } }
    fn threads(&mut self) -> &mut Threads { let t = self.tag.clone(); self.threads.get_or_insert_with(|| Threads::new(&t)) }
    pub fn generate(&mut self, prop: &str, engine: &str, seed: u64) -> Scen {
        match engine {
            "proc" => pgen::generate(prop, seed),
            "stream" => stream::generate(prop, seed),
            _ => self.threads().generate(prop, seed),
        }
    }
    pub fn run(&mut self, s: &Scen, st: &mut Stats, verbose: bool) -> Outcome {
        let t = self.tag.clone();
        match s.engine.as_str() {
            "proc" => self.procs.get_or_insert_with(|| Procs::new(&t)).run(s, st, verbose),
            "stream" => self.stream.get_or_insert_with(Stream::new).run(s, st, verbose),
            _ => self.threads().run(s, st, verbose),
        }
    }
}

/// Engines per property with the number of scenarios, quick and thorough.
pub fn plan(prop: &str) -> &'static [(&'static str, usize, usize)] {
    match prop {
        "C01" => &[("stream", 6000, 400_000)],
        "C02" => &[("stream", 4000, 300_000)],
        "C03" => &[("proc", 40_000, 3_000_000)],
        "C04" => &[("proc", 40_000, 3_000_000)],
        "C05" => &[("proc", 15_000, 1_000_000)],
        "C06" => &[("proc", 10_000, 700_000)],
        "C07" => &[("proc", 5000, 300_000), ("threads", 1200, 80_000)],
        "C08" => &[("threads", 6000, 400_000)],
        "C09" => &[("threads", 4000, 300_000)],
        "C10" => &[("proc", 20_000, 1_500_000)],
        "C11" => &[("proc", 40_000, 3_000_000)],
        "C12" => &[("stream", 4000, 200_000), ("proc", 20_000, 1_200_000)],
        "C13" => &[("proc", 40_000, 3_000_000)],
        "C15" => &[("proc", 30_000, 2_000_000)],
        "C16" => &[("proc", 12_000, 600_000), ("threads", 1200, 80_000)],
        "C17" => &[("proc", 12_000, 800_000)],
        "C18" => &[("proc", 15_000, 1_000_000)],
        "C19" => &[("proc", 9000, 600_000)],
        "C30" => &[("threads", 14_000, 900_000)],
        "C31" => &[("threads", 400, 30_000)],
        "C28" => &[("proc", 20_000, 1_500_000)],
        "C29" => &[("proc", 15_000, 1_000_000)],
        "C14" => &[("stream", 3000, 150_000), ("proc", 12_000, 700_000), ("threads", 800, 40_000)],
        _ => &[],
    }
}
fn seed_of(base: u64, prop: &str, engine: &str, i: usize) -> u64 {
    rng::mix(rng::mix(base ^ rng::hash(prop.as_bytes())) ^ rng::hash(engine.as_bytes()) ^ (i as u64).wrapping_mul(0x9e37)) >> 1
}

pub fn verif() -> PathBuf { std::env::var_os("WFSIM_HOME").map(PathBuf::from).unwrap_or_else(|| "/verif".into()) }

struct Known { prop: String, kind: String, needle: String, what: String }
/// Lines `known: property=ID kind=KIND input=WORDS -- what fails`.
fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (prop, l) = l.split_once(" kind=")?;
        let (kind, l) = l.split_once(" match=")?;
        let (needle, what) = l.split_once(" -- ")?;
        Some(Known { prop: prop.into(), kind: kind.into(), needle: needle.into(), what: what.into() })
    }).collect()
}

struct Found { scen: String, kind: String, detail: String }
#[derive(Default)]
struct Sum { runs: BTreeMap<String, u64>, sub: u64, events: u64, sim_ns: u64, stats: Stats, distinct: HashSet<u64>, inter: HashSet<u64>, rechecked: u64, mismatched: u64, nontrivial: u64, samples: Vec<String>, found: Vec<Found>, knowns: BTreeMap<usize, u64>, capped: u64, first_seed: Option<u64>, last_seed: Option<u64>, lost: u64 }

fn worker(id: usize, prop: &str, base: u64, thorough: bool, until: Instant, stop: &Shared, out: &Path) {
    let mut e = Engines::new(&format!("{}", id));
    let kn = known();
    let mut s = Sum::default();
    let mut kinds: BTreeSet<String> = BTreeSet::new();
    'all: for (engine, quick, deep) in plan(prop) {
        let n = scaled(if thorough { *deep } else { *quick });
        // every engine gets its share of the time
        let share = plan(prop).len() as u32;
        let at = plan(prop).iter().position(|p| p.0 == *engine).unwrap() as u32;
        let left = until.saturating_duration_since(Instant::now());
        let until = Instant::now() + left / (share - at);
        for i in (id..n).step_by(WORKERS) {
            if Instant::now() > until { s.capped += ((n - i) / WORKERS + 1) as u64; break; }
            if stop.u32(0) != 0 { break 'all; }
            let seed = seed_of(base, prop, engine, i);
            stop.set_u64(64 + id * 16, seed);
            let sc = e.generate(prop, engine, seed);
            let o = e.run(&sc, &mut s.stats, false);
            *s.runs.entry(engine.to_string()).or_default() += 1;
            s.sub += o.sub; s.events += o.events; s.sim_ns += o.sim_ns;
            if s.first_seed.is_none() { s.first_seed = Some(seed); }
            s.last_seed = Some(seed);
            if o.nontrivial {
                s.nontrivial += 1;
                s.distinct.insert(rng::mix(o.digest ^ o.interleaving.rotate_left(17)));
            }
            if o.interleaving != 0 { s.inter.insert(o.interleaving); }
            if id == 0 && (i / WORKERS) % 40 == 3 && s.samples.len() < 3 {
                let t = sc.print();
                s.samples.push(format!("{}[{} simulated executions, {} events, digest {:016x}, {}]", t.chars().take(1500).collect::<String>(), o.sub, o.events, o.digest, if o.viols.iter().any(|v| v.prop == prop) { "violation" } else { "held" }));
            }
            if i % 64 == id * 7 % 64 {
                let mut dummy = Stats::default();
                let o2 = e.run(&sc, &mut dummy, false);
                s.rechecked += 1;
                if o2.digest != o.digest || o2.viols.len() != o.viols.len() { s.mismatched += 1; }
            }
            for v in o.viols.iter().filter(|v| v.prop == prop) {
                if let Some(k) = kn.iter().position(|k| k.prop == prop && k.kind == v.kind && v.detail.contains(&k.needle)) { *s.knowns.entry(k).or_default() += 1; continue; }
                if kinds.insert(v.kind.clone()) { s.found.push(Found { scen: sc.print(), kind: v.kind.clone(), detail: v.detail.clone() }); }
            }
            if !s.found.is_empty() { stop.set_u32(0, 1); break 'all; }
        }
    }
    s.inter.extend(s.stats.inter.iter());
    std::fs::write(out, dump(&s)).expect("worker result");
    drop(e);
}
fn scaled(n: usize) -> usize {
    let k = std::env::var("WFSIM_SCALE").ok().and_then(|x| x.parse::<f64>().ok()).unwrap_or(1.0);
    ((n as f64 * k) as usize).max(WORKERS)
}

// ---- passing results from workers to the parent: lines of escaped words -----------------------
fn dump(s: &Sum) -> String {
    let mut t = String::new();
    let mut line = |w: &[&str]| { let _ = writeln!(t, "{}", w.iter().map(|x| scen::esc(x.as_bytes())).collect::<Vec<_>>().join(" ")); };
    for (k, v) in &s.runs { line(&["run", k, &v.to_string()]); }
    for (k, v) in [("sub", s.sub), ("events", s.events), ("sim_ns", s.sim_ns), ("rechecked", s.rechecked), ("mismatched", s.mismatched), ("nontrivial", s.nontrivial), ("capped", s.capped)] { line(&["n", k, &v.to_string()]); }
    for (k, v) in &s.stats.fired { line(&["fired", k, &v.to_string()]); }
    for (k, v) in &s.stats.probes { line(&["probe", k, &v.to_string()]); }
    for (k, v) in &s.knowns { line(&["known", &k.to_string(), &v.to_string()]); }
    for x in &s.samples { line(&["sample", x]); }
    for x in &s.found { line(&["found", &x.kind, &x.detail, &x.scen]); }
    if let (Some(a), Some(b)) = (s.first_seed, s.last_seed) { line(&["seeds", &a.to_string(), &b.to_string()]); }
    for x in &s.distinct { line(&["d", &x.to_string()]); }
    for x in &s.inter { line(&["i", &x.to_string()]); }
    line(&["end"]);
    t
}
fn merge(s: &mut Sum, t: &str) -> bool {
    let mut ended = false;
    for l in t.lines() {
        let w: Vec<String> = l.split(' ').map(|x| String::from_utf8_lossy(&scen::unesc(x).unwrap_or_default()).to_string()).collect();
        let g = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let a = |i: usize| w.get(i).cloned().unwrap_or_default();
        match w[0].as_str() {
            "run" => *s.runs.entry(a(1)).or_default() += g(2),
            "n" => { let p = match a(1).as_str() { "sub" => &mut s.sub, "events" => &mut s.events, "sim_ns" => &mut s.sim_ns, "rechecked" => &mut s.rechecked, "mismatched" => &mut s.mismatched, "nontrivial" => &mut s.nontrivial, _ => &mut s.capped }; *p += g(2); }
            "fired" => s.stats.fire(&a(1), g(2)),
            "probe" => *s.stats.probes.entry(a(1)).or_default() += g(2),
            "known" => *s.knowns.entry(g(1) as usize).or_default() += g(2),
            "sample" => s.samples.push(a(1)),
            "found" => s.found.push(Found { kind: a(1), detail: a(2), scen: a(3) }),
            "seeds" => { s.first_seed.get_or_insert(g(1)); s.last_seed = Some(g(2)); }
            "d" => { s.distinct.insert(g(1)); }
            "i" => { s.inter.insert(g(1)); }
            "end" => ended = true,
            _ => {}
        }
    }
    ended
}

pub fn check(prop: &str) -> i32 {
    if plan(prop).is_empty() { eprintln!("wfsim: no check for {:?}", prop); return 2; }
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let cap: u64 = std::env::var("WFSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 5400 } else { 240 });
    let until = t0 + Duration::from_secs(cap);
    let dir = scratch();
    let stop = Shared::new(4096);
    let mut kids = vec![];
    for id in 0..WORKERS {
        let out = dir.join(format!("r{}", id));
        let pid = sys::raw_fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            sys::die_with_parent();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(id, prop, base, thorough, until, &stop, &out)));
            sys::raw_exit(if r.is_ok() { 0 } else { 3 });
        }
        kids.push((pid, out));
    }
    let mut sum = Sum::default();
    for (id, (pid, out)) in kids.iter().enumerate() {
        let left = until.saturating_duration_since(Instant::now()).as_secs() + 200;
        let end = sys::wait_for(*pid, left);
        let t = std::fs::read_to_string(out).unwrap_or_default();
        if end != End::Exit(0) || !merge(&mut sum, &t) {
            sum.lost += 1;
            eprintln!("wfsim: worker {} ended {:?} (last seed {})", id, end, stop.u64(64 + id * 16));
        }
    }
    for (k, _) in kids { let _ = std::fs::remove_dir_all(format!("/dev/shm/wfsim-{:06}", k)); }
    let mut reported = vec![];
    let mut unrepro = vec![];
    let mut e = Engines::new("m");
    let mut seen = BTreeSet::new();
    sum.found.sort_by_key(|f| f.scen.len());
    for f in &sum.found {
        if !seen.insert(f.kind.clone()) || reported.len() >= 3 { continue; }
        let sc = Scen::parse(&f.scen).expect("scenario");
        let (small, detail, tries) = minimise(&mut e, &sc, prop, &f.kind, &f.detail, Instant::now() + Duration::from_secs(if thorough { 180 } else { 50 }));
        let rd = verif().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let body = format!("# property {} violated: {}\n# {}\n# seed {} (VERIF_SEED {}), minimised in {} executions from {} to {} lines\n# replay: {}/run.sh replay FILE\n{}",
            prop, f.kind, one_line(&detail), sc.seed, base, tries, sc.lines.len(), small.lines.len(), verif().display(), small.print());
        let path = rd.join(format!("{}-{}-{:08x}.scn", prop, f.kind, rng::hash(small.print().as_bytes()) as u32));
        if std::fs::write(&path, &body).is_err() { eprintln!("wfsim: cannot write {}", path.display()); continue; }
        // it has to come back from the file alone, in a new process
        let again = (0..2).filter(|_| fresh_replay(&path)).count();
        if again == 2 || (again == 1 && fresh_replay(&path)) { reported.push((f.kind.clone(), detail, path)); }
        else {
            // the minimised one is not stable: fall back to the seed's own scenario
            let body = format!("# property {} violated: {}\n# {}\n# seed {} (VERIF_SEED {}), not minimised\n{}", prop, f.kind, one_line(&f.detail), sc.seed, base, sc.print());
            let _ = std::fs::write(&path, &body);
            if (0..3).any(|_| fresh_replay(&path)) { reported.push((f.kind.clone(), f.detail.clone(), path)); } else { unrepro.push(format!("{}: {}", f.kind, f.detail)); }
        }
    }
    drop(e);
    let kn = known();
    for (k, n) in &sum.knowns { if let Some(k) = kn.get(*k) { println!("KNOWN-FINDING: property={} {} ({} times)", prop, k.what, n); } }
    for (kind, detail, path) in &reported {
        println!("{}: {}", kind, one_line(detail));
        println!("VIOLATION property={} replay={}", prop, path.display());
    }
    for u in &unrepro { eprintln!("wfsim: NOT REPRODUCED from its replay file: {}", one_line(u)); }
    let wall = t0.elapsed().as_secs_f64();
    let total: u64 = sum.runs.values().sum();
    let ev = evidence(prop, base, thorough, &sum, &reported, &unrepro, wall);
    let _ = std::fs::create_dir_all(verif().join("evidence"));
    std::fs::write(verif().join(format!("evidence/{}.json", prop)), ev).expect("evidence");
    println!("{}: {} scenarios, {} simulated executions, {} distinct non-trivial, {} interleavings, {} rechecked ({} differed), {:.1} s{}", prop, total, sum.sub, distinct(&sum), sum.inter.len(), sum.rechecked, sum.mismatched, wall, if sum.capped > 0 { format!(", {} not run (time)", sum.capped) } else { String::new() });
    let _ = std::fs::remove_dir_all(&dir);
    if !reported.is_empty() { return 1; }
    if sum.lost > 0 || total == 0 || !unrepro.is_empty() { return 2; }
    0
}
fn distinct(s: &Sum) -> usize { s.distinct.len() }
fn one_line(s: &str) -> String { s.replace('\n', " ") }
fn scratch() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(format!("{}/wfsim-{}-check", d, std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() { return p; }
    }
    panic!("no scratch directory")
}
fn fresh_replay(p: &Path) -> bool {
    let me = std::env::current_exe().expect("current_exe");
    let st = std::process::Command::new(me).arg("replay").arg(p).arg("--quiet").stdout(std::process::Stdio::null()).status();
    st.map(|s| s.code() == Some(1)).unwrap_or(false)
}

fn violates(e: &mut Engines, sc: &Scen, prop: &str, kind: &str) -> Option<String> {
    let mut st = Stats::default();
    e.run(sc, &mut st, false).viols.into_iter().find(|v| v.prop == prop && v.kind == kind).map(|v| v.detail)
}
fn minimise(e: &mut Engines, sc: &Scen, prop: &str, kind: &str, detail: &str, until: Instant) -> (Scen, String, u64) {
    let mut best = sc.clone();
    let mut why = detail.to_string();
    let mut tries = 0;
    'again: loop {
        for c in scen::candidates(&best) {
            if Instant::now() > until || tries > 6000 { break 'again; }
            tries += 1;
            if let Some(d) = violates(e, &c, prop, kind) { best = c; why = d; continue 'again; }
        }
        break;
    }
    (best, why, tries)
}

pub fn replay(file: &str, quiet: bool) -> i32 {
    let Some(sc) = std::fs::read_to_string(file).ok().and_then(|t| Scen::parse(&t)) else { eprintln!("wfsim: {} is not a scenario", file); return 2 };
    let mut e = Engines::new("r");
    let mut st = Stats::default();
    let o = e.run(&sc, &mut st, true);
    if !quiet {
        for l in &o.trace { println!("{}", l); }
        println!("digest {:016x}, interleaving {:016x}, {} events", o.digest, o.interleaving, o.events);
        for v in &o.viols { println!("{} {}: {}", v.prop, v.kind, one_line(&v.detail)); }
    }
    drop(e);
    if o.viols.iter().any(|v| v.prop == sc.prop) { if !quiet { println!("VIOLATION property={} replay={}", sc.prop, file); } 1 } else { if !quiet { println!("{}: held", sc.prop); } 0 }
}

/// Every engine and property: the same seed gives the same scenario, the same digest and the same
/// verdict in different processes, in a different order.
pub fn selftest(n: usize) -> i32 {
    let props: Vec<&str> = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C28", "C29", "C31"].into_iter().chain(if cfg!(feature = "matchers") { Some("C30") } else { None }).collect();
    let dir = scratch();
    let pass = |rev: bool| -> Vec<String> {
        let mut kids = vec![];
        for w in 0..WORKERS {
            let out = dir.join(format!("s{}{}", rev as u8, w));
            let pid = sys::raw_fork();
            if pid == 0 {
                sys::die_with_parent();
                let mut e = Engines::new(&format!("{}{}", if rev { "b" } else { "a" }, w));
                let mut v = vec![];
                let mut jobs: Vec<(&str, &str, usize)> = props.iter().flat_map(|p| plan(p).iter().flat_map(move |(g, _, _)| (0..n).map(move |i| (*p, *g, i)))).collect();
                if rev { jobs.reverse(); }
                for (j, (p, g, i)) in jobs.into_iter().enumerate() {
                    if j % WORKERS != w { continue; }
                    let sc = e.generate(p, g, seed_of(77, p, g, i));
                    let mut st = Stats::default();
                    let o = e.run(&sc, &mut st, false);
                    if let Some(d) = std::env::var_os("WFSIM_KEEP") { let _ = std::fs::write(Path::new(&d).join(format!("{}-{}-{}-{}", p, g, i, rev as u8)), sc.print()); }
                    v.push(format!("{} {} {} {:016x} {:016x} {:016x} {}", p, g, i, rng::hash(sc.print().as_bytes()), o.digest, o.interleaving, o.viols.iter().map(|v| format!("{}/{}", v.prop, v.kind)).collect::<Vec<_>>().join(",")));
                }
                let _ = std::fs::write(&out, v.join("\n"));
                drop(e);
                sys::raw_exit(0);
            }
            kids.push((pid, out));
        }
        let mut all = vec![];
        for (pid, out) in kids { sys::wait(pid); all.extend(std::fs::read_to_string(out).unwrap_or_default().lines().map(|s| s.to_string())); }
        all.sort();
        all
    };
    let (a, b) = (pass(false), pass(true));
    let _ = std::fs::remove_dir_all(&dir);
    let diff: Vec<_> = a.iter().zip(&b).filter(|(x, y)| x != y).collect();
    for (x, y) in diff.iter().take(20) { println!("{}\n  vs {}", x, y); }
    let viols: Vec<_> = a.iter().filter(|l| l.contains('/')).collect();
    for v in viols.iter().take(20) { println!("violation: {}", v); }
    println!("selftest: {} scenarios twice, {} differ, {} with violations", a.len(), diff.len() + a.len().abs_diff(b.len()), viols.len());
    if diff.is_empty() && a.len() == b.len() { 0 } else { 1 }
}

/// How long scenarios take, and what they find; for tuning.
pub fn profile(prop: &str, engine: &str, n: usize) -> i32 {
    let mut e = Engines::new("p");
    let mut st = Stats::default();
    let t = Instant::now();
    let mut kinds: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut gen_t = Duration::ZERO;
    let from: usize = std::env::var("FROM").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    for i in from..from + n {
        let seed = seed_of(1, prop, engine, i);
        let a = Instant::now();
        let sc = e.generate(prop, engine, seed);
        gen_t += a.elapsed();
        let o = e.run(&sc, &mut st, false);
        for v in o.viols { let k = kinds.entry(format!("{} {}", v.prop, v.kind)).or_insert((0, seed)); k.0 += 1; }
    }
    println!("{} {} x{}: {:?} (generation {:?})", prop, engine, n, t.elapsed(), gen_t);
    for (k, v) in &kinds { println!("  VIOL {} x{} first seed {}", k, v.0, v.1); }
    for (k, v) in &st.probes { println!("  probe {} {}", k, v); }
    println!("  fired {}", st.fired.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
    0
}

// ---- evidence ---------------------------------------------------------------------------------
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn map(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")) }

fn evidence(prop: &str, base: u64, thorough: bool, s: &Sum, rep: &[(String, String, PathBuf)], unrepro: &[String], wall: f64) -> String {
    let total: u64 = s.runs.values().sum();
    let engines: Vec<&str> = plan(prop).iter().map(|p| p.0).collect();
    let mut rule = String::from("One case is one scenario: a workload, a fault plan and a schedule expanded from a seed. ");
    let mut real = BTreeSet::new();
    let mut stub = BTreeSet::new();
    let mut measure = vec![];
    if engines.contains(&"proc") {
        rule.push_str("proc: histories of edits and builds by real processes under injected system-call faults; non-trivial if a fault fired, the input was rejected, something was there before, or builds ran concurrently. ");
        real.extend(["wayfinder Builder, parser, generator and error reporter", "wayfinder-cmd main", "examples' build.rs", "std and libc formatting, files, streams", "scratch file system (tmpfs)"]);
        stub.extend(["system-call results (interposed libc)", "randomness, clock, pid, allocator failures", "Cargo's rebuild decision (model)", "the editor", "disk capacity"]);
        measure.push("proc: hash of every intercepted system call, its result and the injected fault, in order");
    }
    if engines.contains(&"stream") {
        rule.push_str("stream: 24 calls of the generator or error reporter per scenario, each against a writer with its own fault plan; non-trivial if a fault fired. ");
        real.extend(["wayfinder generator", "wayfinder parser and error reporter", "std formatting and write_all"]);
        stub.extend(["the writer", "hash seeds"]);
        measure.push("stream: hash of configuration, bytes received, number of calls and outcome");
    }
    if engines.contains(&"threads") {
        rule.push_str("threads: programs of one to four threads with a preemption schedule over basic blocks, loads and stores of the library; non-trivial if more than one thread ran or control switched. ");
        if prop == "C30" { real.extend(["wayfinder parser and generator (wayfinder-cmd)", "the sixteen matchers it generated"]); stub.insert("parameter types, which refuse, panic, wait or call a matcher as the scenario says"); }
        else { real.insert("wayfinder parser, error reporter, generator, Builder"); stub.insert("writers given to the library"); }
        real.extend(["lazy_static, std Mutex/Once", "OS threads (one at a time)"]);
        stub.extend(["futex wait/wake and thread scheduling", "hash seeds, clock"]);
        measure.push("threads: hash of every switch (from, to, step of the thread)");
    }
    rule.push_str("Distinct: by the digest of the execution (event trace, results, final state).");
    let h = wall.max(0.001) / 3600.0;
    let lists = |v: &BTreeSet<&str>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    format!(r#"{{
 "property": {p}, "tier": {tier}, "seed": {base}, "level": "exploration",
 "coverage": {{
  "evaluations": {total}, "distinct_nontrivial": {dist}, "rule": {rule},
  "samples": [{samples}],
  "scenarios_by_engine": {runs},
  "simulated_executions": {sub}, "simulated_events": {events}, "nontrivial_scenarios": {nontriv},
  "scenarios_per_hour": {sph}, "simulated_executions_per_hour": {eph},
  "seeds": {{"base": {base}, "count": {total}, "first": {s0}, "last": {s1}, "per_hour": {sph}}},
  "simulated_seconds": {sims:.3},
  "faults_fired": {fired},
  "probes": {probes},
  "distinct_interleavings": {inter}, "interleaving_measure": {measure},
  "real_components": {real}, "stub_components": {stub},
  "determinism": {{"rechecked": {re}, "differed": {mis}}},
  "not_run_for_time": {capped}, "workers_lost": {lost}, "not_reproduced": [{unrepro}],
  "known_findings_seen": {knowns}
 }},
 "assumptions": [{assume}],
 "wall_s": {wall:.2}, "violations": {nv},
 "replays": [{reps}]
}}
"#,
        p = js(prop), tier = js(if thorough { "thorough" } else { "quick" }), dist = distinct(s), rule = js(&rule),
        samples = s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), runs = map(&s.runs), sub = s.sub, events = s.events, nontriv = s.nontrivial,
        sph = (total as f64 / h) as u64, eph = (s.sub as f64 / h) as u64, s0 = s.first_seed.unwrap_or(0), s1 = s.last_seed.unwrap_or(0), sims = s.sim_ns as f64 / 1e9,
        fired = map(&s.stats.fired), probes = map(&s.stats.probes), inter = s.inter.len(), measure = js(&measure.join("; ")), real = lists(&real), stub = lists(&stub),
        re = s.rechecked, mis = s.mismatched, capped = s.capped, lost = s.lost, unrepro = unrepro.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), knowns = s.knowns.values().sum::<u64>(),
        assume = ["the seam is libc as std uses it; code that bypassed libc would not see the faults", "sequentially consistent memory (one thread runs at a time)", "file modification times do not go backwards for Cargo's decision", "no power loss: what a write call accepted stays written"].iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        nv = rep.len(), reps = rep.iter().map(|(k, d, p)| format!("{{\"kind\": {}, \"detail\": {}, \"file\": {}}}", js(k), js(d), js(&p.display().to_string()))).collect::<Vec<_>>().join(", "))
}
#[allow(dead_code)]
fn _unused() { let _ = procs::STEP_CAP; }
