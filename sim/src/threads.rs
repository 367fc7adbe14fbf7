//! The thread engine: real library calls on real threads, exactly one of which runs at a time;
//! which one is decided at every basic block, load and store of the library and at every blocking
//! call.
use crate::canon;
use crate::core::*;
use crate::gen;
use crate::rng::{self, Rng};
use crate::scen::{num, w, Line, Scen};
use crate::sys::{self, End, Shared};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
struct Sw { thread: u32, target: u32, step: u64 }
extern "C" {
    fn sched_setup(n: i32, p: *const Sw, np: u32, r: *mut u8, wake: u64, rnd: u64);
    fn sched_prof(p: *mut u32, a: *mut u64, cap: u64);
    fn sched_prof_n() -> u64;
    fn sched_static_lo() -> u64;
    fn sched_static_hi() -> u64;
    fn sched_enter(me: i32);
    fn sched_start(first: i32);
    fn sched_yield_to(want: i32);
    fn sched_others_runnable() -> i32;
    fn sched_slot() -> i32;
    fn sched_exit();
}
pub const MAXT: usize = 4;
const OPS: usize = 32;           // per scenario
const SLOT: usize = 256 << 10;   // result bytes per op
const RES: usize = 4096;         // scheduler results at offset 0
const PROF: usize = 3 << 20;

pub struct Threads { shm: Shared, prof: Shared, addr: Shared, alone: HashMap<Vec<u8>, Vec<u8>>, pub dir: PathBuf }
impl Drop for Threads { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); } }

// ---- what the threads do ---------------------------------------------------------------------
type Pending = Option<Box<dyn FnOnce(&mut dyn Write) + Send>>;
struct Mail { full: AtomicBool, slot: Mutex<Pending> }

/// vec | fail:N | once:N | panic:N | slow:N | nest:N:MALFORMED | nestgen:N:CONFIG
struct Sink { got: Vec<u8>, spec: Vec<u8>, calls: u64, nested: Vec<u8> }
impl Sink {
    fn new(spec: &[u8]) -> Sink { Sink { got: vec![], spec: spec.to_vec(), calls: 0, nested: vec![] } }
    fn parts(&self) -> (String, u64, Vec<u8>) {
        let mut p = self.spec.splitn(3, |c| *c == b':');
        let k = String::from_utf8_lossy(p.next().unwrap_or(b"")).to_string();
        let n = p.next().and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.parse().ok()).unwrap_or(0);
        (k, n, p.next().unwrap_or(b"").to_vec())
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let (k, n, rest) = self.parts();
        let c = self.calls;
        self.calls += 1;
        match k.as_str() {
            "fail" if c >= n => return Err(io::Error::new(io::ErrorKind::BrokenPipe, "simulated")),
            "once" if c == n => return Err(io::Error::new(io::ErrorKind::Other, "simulated")),
            "panic" if c == n => panic!("simulated panic in a writer"),
            "slow" if n > 0 && c % n == 0 => unsafe { sched_yield_to(sched_slot() + 1) },
            "nest" if c == n => {
                let t: *mut str = Box::into_raw(String::from_utf8_lossy(&rest).to_string().into_boxed_str());
                if let wfshim::Parsed::Err(f) = wfshim::parse(unsafe { &*t }) { let mut v = vec![]; f(&mut v); self.nested.extend_from_slice(&v); }
                drop(unsafe { Box::from_raw(t) });
            }
            "nestgen" if c == n => if let Some(cfg) = canon::parse(&String::from_utf8_lossy(&rest)) {
                let mut v = vec![];
                let _ = wfshim::generate(&mut v, &cfg);
                self.nested.extend_from_slice(&v);
            },
            _ => {}
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

struct Pen<'a> { shm: &'a Shared, base: usize }
impl Pen<'_> {
    fn put(&self, idx: usize, how: &str, body: &[u8], extra: &[u8]) {
        let mut v = how.as_bytes().to_vec();
        v.push(b'|');
        v.extend_from_slice(body);
        if !extra.is_empty() { v.extend_from_slice(b"|nested:"); v.extend_from_slice(extra); }
        if v.len() > SLOT - 8 { let h = rng::hash(&v); v.truncate(SLOT - 64); v.extend_from_slice(format!("|cut {:x}", h).as_bytes()); }
        let b = self.base + idx * SLOT;
        self.shm.put(b + 8, &v);
        self.shm.set_u32(b, v.len() as u32 + 1);
    }
    fn get(&self, idx: usize) -> Vec<u8> {
        let b = self.base + idx * SLOT;
        self.shm.bytes(b + 8, (self.shm.u32(b) as usize).saturating_sub(1)).to_vec()
    }
    fn same(&self, idx: usize, first: &[u8]) -> bool {
        let b = self.base + idx * SLOT;
        self.shm.u32(b) as usize == first.len() + 1 && self.shm.bytes(b + 8, first.len()) == first
    }
}

struct Env<'a> { pen: Pen<'a>, mail: &'a [Mail], dir: &'a PathBuf }

/// A caller that reads every text into the same few buffers: the one that was free last is taken
/// first, so texts follow one another in the same memory.
#[derive(Default)]
struct Texts { free: RefCell<Vec<&'static mut [u8]>>, now: RefCell<Option<&'static mut [u8]>> }
const TEXT: usize = 64 << 10;
impl Texts {
    fn read(&self, b: &[u8]) -> &'static str {
        let s = String::from_utf8_lossy(b);
        if s.len() > TEXT { return Box::leak(s.to_string().into_boxed_str()); }
        let buf = self.free.borrow_mut().pop().unwrap_or_else(|| Box::leak(vec![0u8; TEXT].into_boxed_slice()));
        buf[..s.len()].copy_from_slice(s.as_bytes());
        let text = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(buf.as_ptr(), s.len())) };
        *self.now.borrow_mut() = Some(buf);
        text
    }
    /// Nobody refers to the current text any more.
    fn done(&self) { if let Some(b) = self.now.borrow_mut().take() { self.free.borrow_mut().push(b); } }
    /// Somebody else has it now.
    fn gone(&self) { self.now.borrow_mut().take(); }
}
/// How often an operation is to be repeated; the last time counts, or the first that differs.
fn times(l: &Line) -> usize { l.get(5).and_then(|x| x.strip_prefix(b"x")).and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.parse().ok()).unwrap_or(1).clamp(1, if w(l, 2) == "match" { 2_200 } else { affordable(l) }) }
/// A long text is worked on less often: nothing takes more steps than a run may.
fn affordable(l: &Line) -> usize { let n: usize = l.iter().skip(3).map(|x| x.len()).sum(); (100_000_000 / (n * n).max(1)).clamp(3, 400) }

/// How many times before that with names that did not occur before.
fn others(l: &Line) -> usize { l.get(5).and_then(|x| x.strip_prefix(b"y")).and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.parse().ok()).unwrap_or(0).clamp(0, affordable(l)) }

/// One operation; its result goes to slot `idx`.
fn op(env: &Env, l: &Line, from: usize, idx: usize, pending: &RefCell<Pending>, texts: &Texts) {
    let text = |i: usize| String::from_utf8_lossy(l.get(i).map(|x| &x[..]).unwrap_or(b"")).to_string();
    let sink = |i: usize| Sink::new(l.get(i).map(|x| &x[..]).unwrap_or(b"vec"));
    let render = |f: Box<dyn FnOnce(&mut dyn Write) + Send>, mut s: Sink, idx: usize| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s)));
        env.pen.put(idx, if r.is_ok() { "reported" } else { "panicked" }, &s.got, &s.nested);
    };
    match w(l, from) {
        // preport: parsed and reported at once
        what @ ("parse" | "preport") => {
            drop(pending.borrow_mut().take());
            texts.done();
            let text = texts.read(l.get(from + 1).map(|x| &x[..]).unwrap_or(b""));
            match std::panic::catch_unwind(|| wfshim::parse(text)) {
                Ok(wfshim::Parsed::Ok(c)) => { env.pen.put(idx, "accepted", canon::print(&c).as_bytes(), b""); drop(c); texts.done() }
                Ok(wfshim::Parsed::Err(f)) if what == "preport" => { render(f, sink(from + 2), idx); texts.done() }
                Ok(wfshim::Parsed::Err(f)) => { *pending.borrow_mut() = Some(f); env.pen.put(idx, "rejected", b"", b"") }
                Err(_) => { env.pen.put(idx, "panicked", b"", b""); texts.done() }
            }
        }
        "report" => match pending.borrow_mut().take() { Some(f) => { render(f, sink(from + 1), idx); texts.done() } None => env.pen.put(idx, "nothing-pending", b"", b"") },
        "give" => {
            let m = &env.mail[num(l, from + 1) as usize % env.mail.len()];
            if !m.full.load(Ordering::SeqCst) { if let Some(f) = pending.borrow_mut().take() { texts.gone(); *m.slot.lock().unwrap() = Some(f); m.full.store(true, Ordering::SeqCst); } }
            env.pen.put(idx, "gave", b"", b"");
        }
        "take" => {
            let m = &env.mail[num(l, from + 1) as usize % env.mail.len()];
            loop {
                if m.full.swap(false, Ordering::SeqCst) { let f = m.slot.lock().unwrap().take(); if let Some(f) = f { render(f, sink(from + 2), idx); return; } }
                if unsafe { sched_others_runnable() } == 0 { env.pen.put(idx, "no-mail", b"", b""); return; }
                unsafe { sched_yield_to(sched_slot() + 1) };
            }
        }
        "gen" => {
            let Some(cfg) = canon::parse(&text(from + 1)) else { env.pen.put(idx, "not-a-config", b"", b""); return };
            let mut s = sink(from + 2);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wfshim::generate(&mut s, &cfg)));
            env.pen.put(idx, match &r { Ok(Ok(())) => "generated", Ok(Err(_)) => "failed", Err(_) => "panicked" }, &s.got, &s.nested);
        }
        // a request to a matcher: its number and the method, the path
        #[cfg(feature = "matchers")]
        "match" => {
            let (k, method) = router(l, from + 1);
            let path = l.get(from + 2).cloned().unwrap_or_default();
            wfmatch::set_hook(|| unsafe { sched_yield_to(sched_slot() + 1) });
            wfmatch::NESTED.with(|n| n.borrow_mut().clear());
            let text = wfmatch::run_caught(k, &path, &method);
            let nested = wfmatch::NESTED.with(|n| n.borrow_mut().drain(..).collect::<Vec<_>>().join("\n"));
            env.pen.put(idx, "matched", text.as_bytes(), nested.as_bytes());
        }
        // one of several builds of the same route file into the same output
        "race" => {
            let at = |s: &str| if w(l, from + 2) == "rel" { PathBuf::from(s) } else { env.dir.join(s) };
            let r = std::panic::catch_unwind(|| wfshim::build(&at("race/in"), &at("race/out")));
            env.pen.put(idx, if r.is_ok() { "built" } else { "panicked" }, b"", b"");
        }
        "build" | "buildcfg" => {
            // abs: full paths; rel: relative to the working directory; env: to the package's
            let how = w(l, from + 2);
            let at = |s: String| if how == "rel" || how == "env" { PathBuf::from(s) } else { env.dir.join(s) };
            let (i, o) = (at(format!("d{}/in", idx)), at(if how == "env" { format!("o{}.rs", idx) } else { format!("d{}/out", idx) }));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if w(l, from) == "build" { if how == "env" { wfshim::build_env(&i, &o) } else { wfshim::build(&i, &o) } }
                else if let Some(cfg) = canon::parse(&text(from + 1)) { wfshim::build_config(cfg, &o); }
            }));
            let o = if how == "env" { env.dir.join("gen").join(o) } else { env.dir.join(o) };
            env.pen.put(idx, if r.is_ok() { "built" } else { "panicked" }, &std::fs::read(&o).unwrap_or_else(|_| b"(no output)".to_vec()), b"");
        }
        _ => {}
    }
}

/// The same operation about something that never occurred before.
fn fresh(l: &Line, round: usize) -> Line {
    let name: Vec<u8> = (0..6).map(|k| b'a' + ((round >> (3 * k)) & 7) as u8).collect();
    l.iter().map(|x| { let mut x = x.clone(); for i in 0..x.len().saturating_sub(MARK.len() - 1) { if x[i..].starts_with(MARK) { x[i..i + 6].copy_from_slice(&name); } } x }).collect()
}
const MARK: &[u8] = b"Qxyzzyq";

#[cfg(feature = "matchers")]
fn router(l: &Line, i: usize) -> (usize, Vec<u8>) {
    let f = l.get(i).cloned().unwrap_or_default();
    let at = f.iter().position(|c| *c == b':').unwrap_or(f.len());
    (std::str::from_utf8(&f[..at]).ok().and_then(|x| x.parse().ok()).unwrap_or(0), f.get(at + 1..).unwrap_or(b"").to_vec())
}

struct Prog { ops: Vec<(usize, Line)>, sw: Vec<Sw>, wake: u64, first: i32, n: usize, rounds: usize }
fn prog(sc: &Scen) -> Prog {
    let mut p = Prog { ops: vec![], sw: vec![], wake: 1, first: 0, n: 1, rounds: 0 };
    for l in &sc.lines {
        match w(l, 0) {
            "op" => if p.ops.len() < OPS { let t = num(l, 1).clamp(0, MAXT as i64 - 1) as usize; p.n = p.n.max(t + 1); p.ops.push((t, l.clone())); },
            "sw" => p.sw.push(Sw { thread: num(l, 1) as u32, target: num(l, 2) as u32, step: num(l, 3) as u64 }),
            "rounds" => p.rounds = num(l, 1).clamp(1, 200) as usize,
            "opt" => { p.wake = num(l, 1) as u64; p.first = num(l, 2) as i32; }
            _ => {}
        }
    }
    p.sw.sort_by_key(|s| (s.thread, s.step));
    p.first = p.first.rem_euclid(p.n as i32);
    p
}

impl Threads {
    pub fn new(tag: &str) -> Threads {
        let mut dir = PathBuf::new();
        for d in ["/dev/shm", "/tmp"] {
            dir = PathBuf::from(format!("{}/wfthr-{:06}-{:>04}", d, std::process::id() % 1_000_000, tag).replace(' ', "0"));
            let _ = std::fs::remove_dir_all(&dir);
            if std::fs::create_dir_all(&dir).is_ok() { break; }
        }
        Threads { shm: Shared::new(RES + SLOT * OPS), prof: Shared::new(PROF * 4 + 64), addr: Shared::new(PROF * 8 + 64), alone: HashMap::new(), dir }
    }

    /// Executes a program of operations; `None` for a single thread without scheduling points.
    fn exec(&mut self, p: &Prog, seed: u64, profile: bool) -> End {
        let Threads { shm, prof, addr, dir, .. } = self;
        let (shm, prof, addr, dir) = (&*shm, &*prof, &*addr, &*dir);
        for i in 0..p.ops.len() { shm.set_u32(RES + i * SLOT, 0); }
        for i in 0..32 { shm.set_u64(i * 8, 0); }
        for (i, (_, l)) in p.ops.iter().enumerate() {
            if w(l, 2) == "race" {
                let d = dir.join("race");
                let _ = std::fs::create_dir_all(&d);
                let _ = std::fs::write(d.join("in"), l.get(3).cloned().unwrap_or_default());
                let _ = match l.get(5).filter(|x| !x.is_empty()) { Some(old) => std::fs::write(d.join("out"), old), None => std::fs::remove_file(d.join("out")) };
            }
            if !w(l, 2).starts_with("build") { continue; }
            let d = dir.join(format!("d{}", i));
            let _ = std::fs::create_dir_all(&d);
            let _ = std::fs::create_dir_all(dir.join("gen"));
            let _ = std::fs::remove_file(d.join("out"));
            let _ = std::fs::remove_file(dir.join(format!("gen/o{}.rs", i)));
            let _ = std::fs::write(d.join("in"), &l[3..].first().cloned().unwrap_or_default());
        }
        sys::in_fork(60, || {
            sys::stdout_to(&dir.join("stdout"));
            let env = Env { pen: Pen { shm, base: RES }, mail: &[const { Mail { full: AtomicBool::new(false), slot: Mutex::new(None) } }; 4], dir };
            std::panic::set_hook(Box::new(|_| {}));
            std::env::set_current_dir(dir).expect("scratch");
            std::env::set_var("CARGO_MANIFEST_DIR", dir);
            std::env::set_var("OUT_DIR", dir.join("gen"));
            crate::alloc::activate();
            unsafe { sched_setup(p.n as i32, p.sw.as_ptr(), p.sw.len() as u32, shm.ptr(), p.wake, seed); }
            if profile { unsafe { sched_prof(prof.ptr() as *mut u32, addr.ptr() as *mut u64, PROF as u64) } }
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..p.n).map(|t| {
                    let env = &env;
                    s.spawn(move || {
                        unsafe { sched_enter(t as i32) };
                        let pending = RefCell::new(None);
                        let texts = Texts::default();
                        for round in 0..p.rounds { for (idx, (who, l)) in p.ops.iter().enumerate() { if *who == t {
                            let l = fresh(l, round);
                            if w(&l, 2) == "build" { let _ = std::fs::write(env.dir.join(format!("d{}/in", idx)), &l[3]); }
                            op(env, &l, 2, idx, &pending, &texts);
                        } } }
                        if p.rounds == 0 { for (idx, (who, l)) in p.ops.iter().enumerate() { if *who == t {
                            for k in 0..others(l) {
                                let l = fresh(l, k);
                                if w(&l, 2) == "build" { let _ = std::fs::write(env.dir.join(format!("d{}/in", idx)), &l[3]); }
                                op(env, &l, 2, idx, &pending, &texts);
                            }
                            if others(l) > 0 && w(l, 2) == "build" { let _ = std::fs::write(env.dir.join(format!("d{}/in", idx)), &l[3]); }
                            op(env, l, 2, idx, &pending, &texts);
                            let first = if times(l) > 1 { env.pen.get(idx) } else { vec![] };
                            for _ in 1..times(l) {
                                op(env, l, 2, idx, &pending, &texts);
                                if !env.pen.same(idx, &first) { break; }
                            }
                        } } }
                        drop(pending.borrow_mut().take());
                        unsafe { sched_exit() };
                    })
                }).collect();
                unsafe { sched_start(p.first) };
                for h in hs { let _ = h.join(); }
            });
            shm.set_u64(224, crate::alloc::held() as u64);
            if profile { shm.set_u64(200, unsafe { sched_prof_n() }); shm.set_u64(208, unsafe { sched_static_lo() }); shm.set_u64(216, unsafe { sched_static_hi() }); }
            0
        })
    }
    fn result(&self, i: usize) -> Option<Vec<u8>> {
        let b = RES + i * SLOT;
        let n = self.shm.u32(b) as usize;
        if n == 0 { None } else { Some(self.shm.bytes(b + 8, n - 1).to_vec()) }
    }

    /// What the last operation of this chain yields when nothing else ever happened.
    fn alone(&mut self, chain: Vec<Line>) -> Vec<u8> {
        let key = chain.iter().flatten().fold(vec![], |mut a: Vec<u8>, x| { a.extend_from_slice(x); a.push(0); a });
        if let Some(v) = self.alone.get(&key) { return v.clone(); }
        let n = chain.len();
        let p = Prog { ops: chain.into_iter().map(|l| (0, l)).collect(), sw: vec![], wake: 1, first: 0, n: 1, rounds: 0 };
        let end = self.exec(&p, REF_RND, false);
        let v = match (end, self.result(n - 1)) { (End::Exit(0), Some(v)) => v, (e, _) => format!("ended {:?}|", e).into_bytes() };
        if self.alone.len() > 20_000 { self.alone.clear(); }
        self.alone.insert(key, v.clone());
        v
    }

    /// For every operation the chain of operations that determines its result.
    fn chains(p: &Prog) -> Vec<Option<Vec<Line>>> {
        let one = |l: &Line| { let mut x = l.clone(); x[1] = b"0".to_vec(); if x.get(5).map_or(false, |f| f.starts_with(b"x") || f.starts_with(b"y")) { x.truncate(5); } x };
        let mut last: Vec<Option<Line>> = vec![None; MAXT];
        let mut mail: BTreeMap<i64, Vec<Line>> = BTreeMap::new();
        let mut out: Vec<Option<Vec<Line>>> = vec![];
        let mut gives: BTreeMap<i64, usize> = BTreeMap::new();
        for (t, l) in &p.ops {
            match w(l, 2) {
                "parse" => { last[*t] = Some(one(l)); out.push(Some(vec![one(l)])); }
                "preport" => { last[*t] = None; out.push(Some(vec![one(l)])); }
                "report" => out.push(Some(last[*t].take().into_iter().chain(Some(one(l))).collect())),
                "give" => { if let Some(x) = last[*t].take() { mail.entry(num(l, 3)).or_default().push(x); } *gives.entry(num(l, 3)).or_default() += 1; out.push(None); }
                _ => out.push(Some(vec![one(l)])),
            }
        }
        // a mailbox with exactly one giver and one taker determines the taker's result
        for (i, (_, l)) in p.ops.iter().enumerate() {
            if w(l, 2) != "take" { continue; }
            let k = num(l, 3);
            let takers = p.ops.iter().filter(|(_, x)| w(x, 2) == "take" && num(x, 3) == k).count();
            let given = mail.get(&k).cloned().unwrap_or_default();
            out[i] = if takers == 1 && gives.get(&k) == Some(&1) && given.len() == 1 {
                let mut rep = vec![b"op".to_vec(), b"0".to_vec(), b"report".to_vec()];
                if let Some(s) = l.get(4) { rep.push(s.clone()); }
                Some(vec![given[0].clone(), rep])
            } else { None };
        }
        out
    }

    pub fn run(&mut self, sc: &Scen, st: &mut Stats, verbose: bool) -> Outcome {
        let mut p = prog(sc);
        let mut o = Outcome::default();
        // a build of something the generator refuses ends the process, by design
        let refused: Vec<bool> = p.ops.iter().map(|(_, l)| (w(l, 2).starts_with("build") || w(l, 2) == "race") && { let mut x = l.clone(); x[1] = b"0".to_vec(); if w(l, 2) != "race" { x.truncate(5); } self.alone(vec![x]).starts_with(b"ended Exit(101)") }).collect();
        let mut keep = refused.iter();
        p.ops.retain(|_| !*keep.next().unwrap());
        if p.ops.is_empty() { o.invalid = true; return o; }
        if refused.iter().any(|x| *x) { st.probe("refused-build-left-out"); }
        if p.rounds > 0 { return self.rounds(&p, sc.seed, st, verbose, o); }
        let chains = Self::chains(&p);
        let want: Vec<Option<Vec<u8>>> = chains.iter().map(|c| c.clone().map(|c| self.alone(c))).collect();
        let end = self.exec(&p, sc.seed, false);
        let said = std::fs::read(self.dir.join("stdout")).unwrap_or_default();
        let raced = std::fs::read(self.dir.join("race/out")).ok();
        let results: Vec<Option<Vec<u8>>> = (0..p.ops.len()).map(|i| self.result(i)).collect();
        let g = |k: usize| self.shm.u64(8 * k);
        let (steps, switches, blocks, preempts, hash) = (g(0), g(1), g(2), g(3), g(4));
        let (deadlock, livelock) = (self.shm.u32(40), self.shm.u32(44));
        o.sub = p.n as u64;
        o.events = steps;
        o.interleaving = hash;
        o.nontrivial = switches as usize > p.n - 1 || p.n > 1;
        o.mix(hash);
        st.fire("SCHED:preemption", preempts);
        st.fire("SCHED:blocked", blocks);
        for (_, l) in &p.ops { for x in l.iter().skip(3) { for k in [&b"fail:"[..], b"once:", b"panic:", b"nest:", b"nestgen:", b"slow:"] { if x.starts_with(k) { st.fire(&format!("WRITER:{}", String::from_utf8_lossy(&k[..k.len() - 1])), 1); } } } }
        if verbose {
            o.trace.push(format!("{} threads, {} steps, {} switches, {} blocked, ended {:?}", p.n, steps, switches, blocks, end));
            for s in &p.sw { o.trace.push(format!("    thread {} preempted at its step {} in favour of {}", s.thread, s.step, s.target)); }
        }
        // what takes that many steps for honest work shows nothing
        let work: usize = p.ops.iter().map(|(_, l)| { let n: usize = l.iter().skip(3).map(|x| x.len()).sum(); n * n * (times(l) + others(l)) }).sum();
        if livelock != 0 && work > 200_000_000 { st.probe("too-much-work"); o.invalid = true; return o; }
        if deadlock != 0 || livelock != 0 { o.viol("C30", "stuck", format!("no progress after {} steps", steps)); }
        if deadlock != 0 { o.viol("C09", "deadlock", format!("after {} steps every thread is blocked", steps)); }
        else if livelock != 0 { o.viol("C09", "livelock", format!("no end after {} steps", steps)); o.viol("C14", "did-not-terminate", format!("no end after {} steps", steps)); }
        else if end != End::Exit(0) {
            o.viol("C09", "process-ended", format!("{:?}", end));
            o.viol("C30", "process-ended", format!("{:?}", end));
            if matches!(end, End::Hang | End::Signal(24)) { o.viol("C14", "did-not-terminate", format!("{:?}", end)); }
        }
        for (i, (t, l)) in p.ops.iter().enumerate() {
            let got = &results[i];
            if let Some(b) = got { o.mix(rng::hash(b)); }
            if verbose { o.trace.push(format!("    op {} thread {} {} {}: {}", i, t, w(l, 2), show(&l[3..].join(&b' ')), got.as_deref().map(show).unwrap_or("(none)".into()))); }
            let (Some(want), Some(got)) = (&want[i], got) else { continue };
            if got == want { continue; }
            let d = format!("operation {} (thread {}, {}): {}", i, t, w(l, 2), diff(got, want));
            o.viol("C09", "differs-from-alone", d.clone());
            match w(l, 2) {
                "report" | "take" | "preport" => o.viol("C08", "report-depends-on-history", d),
                "match" => o.viol("C30", "match-depends-on-others", d),
                "gen" | "build" | "buildcfg" => o.viol("C07", "module-depends-on-history", d),
                _ => {}
            }
        }
        // a caller's own writer has no influence on what it is given
        for (i, (t, l)) in p.ops.iter().enumerate() {
            let k = match w(l, 2) { "report" => 3, "gen" | "take" | "preport" => 4, _ => continue };
            let Some(sink) = l.get(k).filter(|s| *s != b"vec").cloned() else { continue };
            let (Some(chain), Some(got)) = (&chains[i], results[i].clone()) else { continue };
            let mut c = chain.clone();
            let last = c.last_mut().unwrap();
            let k = if w(last, 2) == "report" { 3 } else { 4 };
            last[k] = b"vec".to_vec();
            let plain = self.alone(c);
            let (Some(a), Some(b)) = (got.iter().position(|x| *x == b'|'), plain.iter().position(|x| *x == b'|')) else { continue };
            if got.windows(5).any(|x| x == b"|cut ") || &plain[..b] == b"nothing-pending" { continue; }
            let (gb, pb) = (&got[a + 1..], &plain[b + 1..]);
            let at = gb.windows(8).rposition(|x| x == b"|nested:");
            let (body, nested) = match at { Some(x) => (&gb[..x], Some(&gb[x + 8..])), None => (gb, None) };
            let kind = sink.split(|x| *x == b':').next().unwrap_or(b"").to_vec();
            let gives_up = matches!(&kind[..], b"fail" | b"once" | b"panic");
            if !pb.starts_with(body) || (!gives_up && body.len() != pb.len()) {
                o.viol("C09", "writer-changes-result", format!("operation {} (thread {}, {} to a {} writer): {}", i, t, w(l, 2), show(&kind), diff(body, pb)));
            }
            if let Some(n) = nested {
                let arg = sink.splitn(3, |x| *x == b':').nth(2).unwrap_or(b"").to_vec();
                let op = |x: &[&[u8]]| -> Line { x.iter().map(|y| y.to_vec()).collect() };
                let c = if kind == b"nestgen" { vec![op(&[b"op", b"0", b"gen", &arg, b"vec"])] } else { vec![op(&[b"op", b"0", b"parse", &arg]), op(&[b"op", b"0", b"report", b"vec"])] };
                let want = self.alone(c);
                let want = want.iter().position(|x| *x == b'|').map(|x| want[x + 1..].to_vec()).unwrap_or_default();
                if n != &want[..] { o.viol("C09", "nested-call-differs", format!("operation {} (thread {}, {} to a {} writer): {}", i, t, w(l, 2), show(&kind), diff(n, &want))); }
            }
        }
        // a matcher called by a parameter type
        #[cfg(feature = "matchers")]
        for (i, (t, l)) in p.ops.iter().enumerate() {
            if w(l, 2) != "match" { continue; }
            let Some(got) = results[i].clone() else { continue };
            for (mark, what) in [(&b"!e"[..], "parameter-type-refuses"), (b"!p", "parameter-type-panics"), (b"!y", "parameter-type-waits"), (b"!Y", "parameter-type-waits-when-printed"), (b"!d", "parameter-type-fails-to-print"), (b"!q", "parameter-type-panics-when-printed")] { if l[4].windows(2).any(|x| x == mark) { st.probe(what); } }
            if l.get(5).is_some() { st.probe("repeated-request"); }
            let calls = calls(&l[4]);
            if calls.is_empty() || got.windows(5).any(|x| x == b"|cut ") { continue; }
            st.probe("matcher-called-by-a-parameter-type");
            let at = got.windows(8).position(|x| x == b"|nested:");
            let (body, nested) = match at { Some(x) => (got[..x].to_vec(), String::from_utf8_lossy(&got[x + 8..]).to_string()), None => (got.clone(), String::new()) };
            let mut quiet: Line = l.clone();
            quiet[1] = b"0".to_vec();
            quiet.truncate(5);
            for k in 0..quiet[4].len().saturating_sub(1) { if quiet[4][k] == b'!' && matches!(quiet[4][k + 1], b'r' | b'R') { quiet[4][k + 1] = b's'; } }
            let plain = self.alone(vec![quiet]);
            let same = |b: &[u8]| String::from_utf8_lossy(b).replace("!r", "!s").replace("!R", "!s").into_bytes();
            let body = same(&body);
            if body != plain { o.viol("C30", "nested-call-changes-match", format!("operation {} (thread {}): {}", i, t, diff(&body, &plain))); }
            let mut ok = vec![];
            for c in &calls { let a = self.alone(vec![c.clone()]); ok.push(String::from_utf8_lossy(a.strip_prefix(b"matched|").unwrap_or(&a)).to_string()); }
            for n in nested.split('\n').filter(|n| !n.is_empty()) {
                if !ok.iter().any(|x| x == n) { o.viol("C30", "nested-match-differs", format!("operation {} (thread {}): a call from inside gave {:?}, alone {:?}", i, t, n, ok)); }
            }
        }
        // several builds of one file into one output
        if let Some((_, l)) = p.ops.iter().find(|(_, l)| w(l, 2) == "race") {
            st.probe("threads-racing-for-one-output");
            let want = self.alone(vec![[b"op".to_vec(), b"0".to_vec(), b"build".to_vec(), l[3].clone(), b"abs".to_vec()].to_vec()]);
            if let (Some(want), true) = (want.strip_prefix(b"built|"), end == End::Exit(0)) {
                if raced.as_deref() != Some(want) { o.viol("C16", "racing-builds-corrupted-output", raced.as_deref().map(|h| diff(h, want)).unwrap_or("no output".into())); }
            }
            if end != End::Exit(0) { o.viol("C16", "racing-build-failed", format!("{:?}", end)); }
            for (i, (t, l)) in p.ops.iter().enumerate() { if w(l, 2) == "race" && end == End::Exit(0) && results[i].as_deref() != Some(b"built|") { o.viol("C16", "racing-build-failed", format!("operation {} (thread {}): {}", i, t, results[i].as_deref().map(show).unwrap_or_default())); } }
        }
        // what Cargo is told: whole lines, naming each input once and nothing else
        if end == End::Exit(0) {
            let mut due: Vec<PathBuf> = p.ops.iter().enumerate().filter(|(_, (_, l))| w(l, 2) == "build" && w(l, 4) == "env").map(|(i, _)| self.dir.join(format!("d{}/in", i))).collect();
            if !due.is_empty() { st.probe("directives-of-concurrent-builds"); }
            let all = due.clone();
            for l in said.split(|c| *c == b'\n') {
                let l = String::from_utf8_lossy(l).to_string();
                if let Some(x) = l.strip_prefix("cargo:rerun-if-changed=").or(l.strip_prefix("cargo::rerun-if-changed=")) {
                    let x = crate::procs::norm(&self.dir.join(x));
                    if let Some(k) = due.iter().position(|d| *d == x) { due.remove(k); }
                    if !all.contains(&x) { o.viol("C09", "directives-mixed-up", format!("standard output has {:?}", l.replace(&*self.dir.to_string_lossy(), "@"))); }
                } else if l.matches("cargo:").count() > 1 { o.viol("C09", "directives-mixed-up", format!("standard output has {:?}", l.replace(&*self.dir.to_string_lossy(), "@"))); }
            }
            if let Some(d) = due.first() { o.viol("C09", "directive-missing", format!("{} is not announced", d.strip_prefix(&self.dir).unwrap().display())); }
        }
        // each message is the one for the construct that failed
        for (i, (_, l)) in p.ops.iter().enumerate() {
            if w(l, 2) != "report" && w(l, 2) != "preport" { continue; }
            let needle = l.iter().find_map(|x| x.strip_prefix(b"~")).unwrap_or(b"");
            let Some(got) = &results[i] else { continue };
            if got.starts_with(b"reported|") && !needle.is_empty() && l.get(if w(l, 2) == "report" { 3 } else { 4 }).map(|s| s == b"vec").unwrap_or(false) && !has(got, needle) {
                o.viol("C08", "wrong-message", format!("operation {}: the report {} lacks {}", i, show(got), show(needle)));
            }
        }
        o
    }

    /// The same work again and again, about other things of the same size each time: what is held
    /// afterwards must not depend on how often.
    fn rounds(&mut self, p: &Prog, seed: u64, st: &mut Stats, verbose: bool, mut o: Outcome) -> Outcome {
        let mut p = Prog { ops: p.ops.clone(), sw: p.sw.clone(), ..*p };
        let (n, mut held) = (p.rounds, vec![]);
        for k in [n, 4 * n] {
            p.rounds = k;
            let end = self.exec(&p, seed, false);
            let g = |k: usize| self.shm.u64(8 * k);
            o.sub += p.n as u64;
            o.events += g(0);
            o.interleaving ^= g(4);
            o.mix(g(4));
            st.fire("SCHED:preemption", g(3));
            st.fire("SCHED:blocked", g(2));
            if verbose { o.trace.push(format!("{} threads, {} rounds, {} steps, {} switches, ended {:?}", p.n, k, g(0), g(1), end)); }
            if end != End::Exit(0) { o.mix(1); st.probe("did-not-end"); if verbose { o.trace.push("no result".into()); } return o; }
            if k == n { for (_, l) in &p.ops { for x in l { o.mix(rng::hash(x)); } } }
            held.push(self.shm.u64(224) as i64);
            o.mix(held[held.len() - 1] as u64);
        }
        for (_, l) in &p.ops { st.probe(w(l, 2)); for x in l.iter().skip(3) { for k in [&b"fail:"[..], b"once:", b"panic:", b"nest:", b"nestgen:", b"slow:"] { if x.starts_with(k) { st.fire(&format!("WRITER:{}", String::from_utf8_lossy(&k[..k.len() - 1])), 5 * n as u64); } } } }
        if verbose {
            for (i, (t, l)) in p.ops.iter().enumerate() { o.trace.push(format!("    op {} thread {} {} {}", i, t, w(l, 2), show(&l[3..].join(&b' ')))); }
            o.trace.push(format!("    {} bytes held after {} rounds, {} after {}", held[0], n, held[1], 4 * n));
        }
        o.nontrivial = true;
        // (less than a word for every round is not a leak)
        if held[1] - held[0] >= 8 * 3 * n as i64 { o.viol("C31", "memory-grows", format!("{} bytes held after {} rounds, {} after {}", held[0], n, held[1], 4 * n)); }
        o
    }

    /// Turns a seed into operations plus a concrete schedule (one profiling run tells where the
    /// threads touch shared data).
    pub fn generate(&mut self, prop: &str, seed: u64) -> Scen {
        let mut rr = Rng::new(seed);
        let r = &mut rr;
        let mut s = Scen::new(prop, "threads", seed);
        let nt = *r.pick(&[1usize, 2, 2, 2, 3, 3, 4]);
        let wake = r.u64() >> 2;
        s.op(&[&"opt", &wake.to_string(), &r.below(nt).to_string()]);
        let small = |r: &mut Rng| { let mut sh = gen::Shape::draw(r); sh.depth = r.below(2); sh.width = 2; sh.res = 2; sh.headers = r.below(2); gen::config_of(r, &sh) };
        let sink = |r: &mut Rng, faulty: bool| -> Vec<u8> {
            if !faulty || r.chance(1, 2) { return b"vec".to_vec(); }
            let n = match r.below(3) { 0 => r.below(400), 1 => r.below(80), _ => r.skewed(40) };
            match r.below(6) { 0 => format!("fail:{}", n).into_bytes(), 1 => format!("panic:{}", n).into_bytes(), 4 => format!("once:{}", n).into_bytes(), 5 => { let c = canon::print(&small(r)); format!("nestgen:{}:{}", n, c).into_bytes() } 2 => format!("slow:{}", r.range(1, 9)).into_bytes(),
                _ => { let mut v = format!("nest:{}:", r.skewed(12)).into_bytes(); v.extend_from_slice(gen::malformed(r).text.as_bytes()); v } }
        };
        #[cfg(feature = "matchers")]
        if prop == "C30" { requests(r, &mut s, nt); if nt > 1 { self.schedule(r, &mut s); } return s; }
        if prop == "C31" {
            s.op(&[&"rounds", &r.pick(&[40, 40, 70, 130]).to_string()]);
            let mark = std::str::from_utf8(MARK).unwrap();
            let config = |r: &mut Rng| {
                let mut c = if r.chance(1, 8) { gen::busy_config(r) } else { small(r) };
                if r.chance(1, 2) { c.headers.push(wayfinder::Header::new(format!("use {}::T;", mark))); }
                if r.chance(1, 2) { c.routes.resources.push(wayfinder::Resource { method: wayfinder::Method::Get, is_redirect: false, modules: vec![mark.to_string()], name: "Index".into(), query_parameters: vec![] }); }
                if r.chance(1, 2) { if let Some(x) = c.routes.resources.last_mut() { x.query_parameters.push(wayfinder::Param::new(&mark[..], "u32")); } }
                canon::print(&c)
            };
            for _ in 0..r.range(1, 4) {
                let t = r.below(nt).to_string();
                let k = sink(r, true);
                match r.below(6) {
                    0 | 1 => { let bad = format!("use {};\n{}", mark, gen::malformed(r).text); s.op(&[&"op", &t, &"preport", &bad, &k]); }
                    2 => { let bad = format!("use {};\n{}", mark, gen::malformed(r).text); s.op(&[&"op", &t, &"parse", &bad]); if r.chance(1, 2) { s.op(&[&"op", &t, &"report", &k]); } }
                    3 => { let c = config(r); s.op(&[&"op", &t, &"gen", &c, &k]); }
                    4 => { let c = config(r); s.op(&[&"op", &t, if r.chance(1, 2) { &"parse" } else { &"buildcfg" }, &c, &"abs"]); }
                    _ => { let c = config(r); s.op(&[&"op", &t, &"build", &c, r.pick(&[&"abs", &"rel", &"env"])]); }
                }
            }
            if nt > 1 { self.schedule(r, &mut s); }
            return s;
        }
        if prop == "C16" {
            let text = canon::print(&small(r));
            let old = match r.below(4) { 0 => b"something older\n".to_vec(), 1 => format!("// {}\n", "longer than any module ".repeat(1000)).into_bytes(), _ => vec![] };
            let nt = nt.max(2);
            let how = *r.pick(&["abs", "abs", "rel"]);
            for t in 0..nt { for _ in 0..r.range(1, 2) {
                if r.chance(1, 6) { s.op(&[&"op", &t.to_string(), &"gen", &text, &"vec"]); }
                s.op(&[&"op", &t.to_string(), &"race", &text, &how, &old]);
            } }
            self.schedule(r, &mut s);
            return s;
        }
        if r.chance(1, 16) {
            // a caller that fails in the same way again and again, and what comes after
            let n = format!("x{}", *r.pick(&[12, 30, 70, 140, 300]));
            let who = |r: &mut Rng| r.below(nt.min(2)).to_string();
            for _ in 0..r.range(1, 2) {
                let mut sh = gen::Shape::draw(r);
                sh.depth = r.below(2); sh.width = 2; sh.res = 3; sh.mods = 3; sh.headers = r.below(2);
                let c = canon::print(&gen::config_of(r, &sh));
                let bad = gen::malformed(r).text;
                let k = sink(r, true);
                if prop == "C08" || (prop == "C09" && r.chance(1, 3)) {
                    s.op(&[&"op", &who(r), &"preport", &bad, &k, &n]);
                    for _ in 0..r.range(1, 2) { s.op(&[&"op", &who(r), &"preport", &gen::sibling(r, &bad), &"vec"]); }
                } else {
                    s.op(&[&"op", &who(r), &"gen", &c, &k, &n]);
                    s.op(&[&"op", &who(r), &"gen", &c, &"vec"]);
                    if r.chance(1, 2) { s.op(&[&"op", &who(r), &"build", &c, &"abs"]); }
                }
            }
            if nt > 1 { self.schedule(r, &mut s); }
            return s;
        }
        if r.chance(1, 14) {
            // many other texts in between
            let mark = std::str::from_utf8(MARK).unwrap();
            let n = *r.pick(&[3usize, 7, 8, 9, 15, 16, 17, 31, 33, 40, 64, 65, 70, 100, 128, 130, 257, 300]);
            let who = |r: &mut Rng| r.below(nt.min(2)).to_string();
            let report = prop == "C08" || (prop == "C09" && r.chance(1, 3));
            let marked = |r: &mut Rng| {
                if report { return format!("use {};\n{}", mark, gen::malformed(r).text); }
                let mut c = small(r);
                if r.chance(1, 3) { c.headers.push(wayfinder::Header::new(format!("use {}::T;", mark))); }
                let x = wayfinder::Resource { method: wayfinder::Method::Get, is_redirect: false, modules: if r.chance(1, 2) { vec![mark.to_string()] } else { vec![] }, name: if r.chance(1, 2) { mark.to_string() } else { "Marked".into() }, query_parameters: if r.chance(1, 3) { vec![wayfinder::Param::new(&mark[..], &mark[..])] } else { vec![] } };
                c.routes.resources.push(x);
                if r.chance(1, 3) { c.routes.routes.push(wayfinder::NestedRoutes { path_segment: wayfinder::PathSegment::Static(mark.into()), routes: wayfinder::Routes { resources: vec![wayfinder::Resource { method: wayfinder::Method::Put, is_redirect: false, modules: vec![], name: format!("Below{}", mark), query_parameters: vec![] }], ..wayfinder::Routes::default() } }); }
                canon::print(&c)
            };
            let kind = if report { "preport" } else { *r.pick(&["gen", "gen", "build", "buildcfg"]) };
            let first = marked(r);
            let how = |kind: &str| if kind.starts_with("build") { "abs" } else { "vec" };
            if r.chance(1, 2) { s.op(&[&"op", &who(r), &kind, &first, &how(kind)]); }
            let t = marked(r);
            s.op(&[&"op", &who(r), &kind, &t, &how(kind), &format!("y{}", n)]);
            s.op(&[&"op", &who(r), &kind, &first, &how(kind)]);
            if nt > 1 && n < 20 { self.schedule(r, &mut s); }
            return s;
        }
        let same = r.chance(1, 3);
        // what failed or was interrupted before must not matter either
        let history = r.chance(1, 3);
        // texts that resemble one used before, of the same length
        let kin = r.chance(1, 2);
        let mut read: Vec<String> = vec![];
        let fixed = gen::malformed(r);
        let mut mails = 0;
        // configurations that resemble one used before
        let family = r.chance(1, 2);
        let mut past: Vec<wayfinder::RouteConfig> = vec![];
        let relative = |r: &mut Rng| *r.pick(&["abs", "rel", "rel", "env"]);
        for t in 0..nt {
            let ts = t.to_string();
            for _ in 0..r.range(1, if nt == 1 { 6 } else { 3 }) {
                let bad = if same { gen::Bad { text: fixed.text.clone(), needle: fixed.needle } } 
                    else if kin && !read.is_empty() && r.chance(3, 4) { let k = r.below(read.len()); gen::Bad { text: gen::sibling(r, &read[k]), needle: "" } }
                    else { gen::malformed(r) };
                read.push(bad.text.clone());
                let kind = match prop { "C08" => *r.pick(&[0, 0, 0, 1, 2]), "C07" => *r.pick(&[0, 3, 3, 3, 4, 5]), _ => *r.pick(&[0, 0, 0, 1, 2, 3, 3, 4, 5]) };
                let faulty = prop == "C09" || (history && r.chance(1, 2));
                let mut config = |r: &mut Rng, busy: bool| -> String {
                    let c = if family && !past.is_empty() && r.chance(3, 4) { let k = r.below(past.len()); if r.chance(1, 5) { past[k].clone() } else { gen::near(r, &past[k]) } } else if busy { gen::busy_config(r) } else { small(r) };
                    past.push(c.clone());
                    canon::print(&c)
                };
                match kind {
                    0 if r.chance(1, 3) => { let k = sink(r, faulty); s.op(&[&"op", &ts, &"preport", &bad.text, &k]); if r.chance(1, 2) { s.op(&[&"op", &ts, &"preport", &gen::sibling(r, &bad.text), &"vec"]); } }
                    0 => { s.op(&[&"op", &ts, &"parse", &bad.text]); let k = sink(r, faulty); s.op(&[&"op", &ts, &"report", &k, &format!("~{}", bad.needle)]); }
                    1 => { s.op(&[&"op", &ts, &"parse", &gen::valid_text(r)]); }
                    2 if nt > 1 && mails < 4 => {
                        let m = mails.to_string();
                        mails += 1;
                        s.op(&[&"op", &ts, &"parse", &bad.text]);
                        s.op(&[&"op", &ts, &"give", &m]);
                        let k = sink(r, faulty);
                        s.op(&[&"op", &((t + 1 + r.below(nt - 1)) % nt).to_string(), &"take", &m, &k]);
                    }
                    3 => { let busy = prop == "C07" && r.chance(1, 2); let c = config(r, busy); let k = sink(r, faulty); s.op(&[&"op", &ts, &"gen", &c, &k]); }
                    4 => { let c = config(r, false); let how = relative(r); s.op(&[&"op", &ts, &"build", &c, &how]); }
                    _ => { let c = config(r, false); let how = if r.chance(1, 2) { "abs" } else { "rel" }; s.op(&[&"op", &ts, &"buildcfg", &c, &how]); }
                }
            }
        }
        // one call again and again
        if r.chance(1, 4) {
            let ks: Vec<usize> = (0..s.lines.len()).filter(|k| matches!(w(&s.lines[*k], 2), "gen" | "preport" | "build" | "buildcfg") && s.lines[*k].len() == 5).collect();
            if !ks.is_empty() {
                let k = *r.pick(&ks);
                let n = if nt > 1 { *r.pick(&[2, 3, 5, 9]) } else { *r.pick(&[2, 5, 20, 70, 140, 300]) };
                s.lines[k].push(format!("x{}", n).into_bytes());
            }
        }
        if nt == 1 { return s; }
        self.schedule(r, &mut s);
        s
    }

    fn schedule(&mut self, r: &mut Rng, s: &mut Scen) {
        let p = prog(s);
        if self.exec(&p, s.seed, true) != End::Exit(0) { return; }
        let n = (self.shm.u64(200) as usize).min(PROF);
        let (lo, hi) = (self.shm.u64(208), self.shm.u64(216));
        let mut at = [0u64; MAXT];
        let mut shared: Vec<(u32, u64)> = vec![];             // accesses to static data
        let mut by_pc: HashMap<u32, Vec<(u32, u64)>> = HashMap::new();
        let mut pcs: Vec<u32> = vec![];
        let mut stat: HashMap<u64, u32> = HashMap::new();      // static address -> threads
        let mut hits: Vec<(u64, u32, u64)> = vec![];
        for i in 0..n {
            let v = self.prof.u32(4 * i);
            let (t, pc) = (v >> 28, v & 0x0fff_ffff);
            if t as usize >= MAXT { continue; }
            at[t as usize] += 1;
            let e = by_pc.entry(pc).or_default();
            if e.is_empty() { pcs.push(pc); }
            if e.len() < 64 { e.push((t, at[t as usize])); }
            let a = self.addr.u64(8 * i);
            if a >= lo && a < hi { *stat.entry(a).or_default() |= 1 << t; hits.push((a, t, at[t as usize])); }
        }
        for (a, t, k) in hits { if stat[&a].count_ones() > 1 || r.chance(1, 8) { shared.push((t, k)); } }
        if pcs.is_empty() { return; }
        let burst = r.chance(1, 4);
        for _ in 0..r.range(1, if burst { 12 } else { 6 }) {
            let (t, k) = match r.below(10) {
                0..=5 if !shared.is_empty() => { let (t, k) = *r.pick(&shared); (t, k + r.below(9) as u64) }
                0..=8 => { let pc = *r.pick(&pcs); let (t, k) = *r.pick(&by_pc[&pc]); (t, k + r.below(3) as u64) }
                _ => { let t = r.below(p.n); (t as u32, r.below(at[t] as usize + 1) as u64) }
            };
            s.op(&[&"sw", &t.to_string(), &r.below(p.n).to_string(), &k.to_string()]);
            if burst { for j in 1..r.range(1, 6) as u64 { s.op(&[&"sw", &t.to_string(), &r.below(p.n).to_string(), &(k + j * r.range(1, 40) as u64).to_string()]); } }
        }
    }
}
fn has(h: &[u8], n: &[u8]) -> bool { h.windows(n.len()).any(|x| x == n) }

/// The requests that the parameter types in this path make.
#[cfg(feature = "matchers")]
fn calls(path: &[u8]) -> Vec<Line> {
    path.split(|c| *c == b'/').filter(|s| s.len() > 2 && s[0] == b'!' && matches!(s[1], b'r' | b'R')).map(|s| {
        let t = String::from_utf8_lossy(&s[2..]).to_string();
        let n = t.bytes().next().unwrap_or(0);
        vec![b"op".to_vec(), b"0".to_vec(), b"match".to_vec(), format!("{}:GET", n).into_bytes(), t.replace('~', "/").get(1..).unwrap_or("").as_bytes().to_vec()]
    }).collect()
}
/// Requests to a few of the matchers: paths that exist, nearly exist, and come again.
#[cfg(feature = "matchers")]
fn requests(r: &mut Rng, s: &mut Scen, nt: usize) {
    use wayfinder::{PathSegment, Routes};
    let n = wfmatch::TEXTS.len();
    let pool: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(n)).collect();
    fn value(r: &mut Rng, typ: &str, inner: usize, n: usize) -> Vec<u8> {
        let own = typ.starts_with('K');
        let t: String = match (own, r.below(8)) {
            (true, 0) => "!e1".into(), (true, 1) => "!p2".into(), (true, 2) => "!y3".into(), (true, 3) => format!("!Y{}", r.below(3)), (true, 4) => (*r.pick(&["!d4", "!q5"])).into(),
            (true, 5) if inner < 1 => {
                let k = r.below(n);
                let p = String::from_utf8_lossy(&path(r, k, inner + 1, n)).replace('/', "~");
                // one byte names the matcher
                let c = (0x40 + ((k + n * 8 - 0x40 % n) % n) as u8) as char;
                format!("{}{}{}", r.pick(&["!r", "!R"]), c, p)
            }
            (_, 6) => return r.pick(&[&b""[..], b"%20", b"\xff", b"\xc3", b"a b", b"-", b"0x1", b"99999999999999999999", b"!", b"new"]).to_vec(),
            _ => match typ { "u32" => (*r.pick(&["7", "0", "42", "4294967295", "x", "-1"])).into(), "i64" => (*r.pick(&["-7", "0", "9", "x"])).into(), "bool" => (*r.pick(&["true", "false", "1"])).into(), _ => (*r.pick(&["a", "b", "abc", "id", "größe", "x1", "7"])).into() },
        };
        t.into_bytes()
    }
    fn walk(r: &mut Rng, x: &Routes, out: &mut Vec<u8>, meth: &mut Vec<String>, own: &mut Vec<(usize, usize)>, inner: usize, n: usize) {
        meth.clear();
        for e in &x.resources { meth.push(e.method.to_string()); }
        if x.routes.is_empty() || (!x.resources.is_empty() && r.chance(1, 4)) { return; }
        let k = r.below(x.routes.len());
        out.push(b'/');
        match &x.routes[k].path_segment { PathSegment::Static(t) => out.extend_from_slice(t.as_bytes()), PathSegment::Dynamic(p) => { let v = value(r, &p.typ, inner, n); let at = out.len(); out.extend_from_slice(&v); if p.typ.starts_with('K') { own.push((at, out.len())) } } }
        walk(r, &x.routes[k].routes, out, meth, own, inner, n)
    }
    fn path(r: &mut Rng, k: usize, inner: usize, n: usize) -> Vec<u8> { request(r, k, inner, n).0 }
    fn request(r: &mut Rng, k: usize, inner: usize, n: usize) -> (Vec<u8>, Vec<u8>) {
        let (mut p, mut m, mut own) = (vec![], vec![], vec![]);
        if let Some(c) = canon::parse(wfmatch::TEXTS[k % wfmatch::TEXTS.len()]) { walk(r, &c.routes, &mut p, &mut m, &mut own, inner, n); }
        // a parameter type that asks for the very route it is part of
        if inner == 0 && !own.is_empty() && r.chance(1, 8) {
            let plain = |p: &[u8]| String::from_utf8_lossy(p).replace('!', "z").replace('/', "~");
            let (a, b) = *r.pick(&own);
            let c = (0x40 + ((k + n * 8 - 0x40 % n) % n) as u8) as char;
            let v = format!("{}{}{}", r.pick(&["!r", "!R", "!R"]), c, plain(&p));
            p.splice(a..b, v.into_bytes());
        }
        match r.below(14) { 0 => { p.pop(); } 1 => p.push(b'/'), 2 => p.push(b'x'), 3 if !p.is_empty() => { p.remove(0); } 4 => { let k = r.below(p.len() + 1); p.insert(k, b'/'); } 5 if p.is_empty() => p.push(b'/'), _ => {} }
        let m = if m.is_empty() || r.chance(1, 6) { (*r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "", "get", "GETX"])).to_string() } else { r.pick(&m).to_string() };
        (p, m.into_bytes())
    }
    let mut past: Vec<(usize, Vec<u8>, Vec<u8>)> = vec![];
    for t in 0..nt {
        for _ in 0..r.range(1, if nt == 1 { 12 } else { 5 }) {
            let (k, p, m) = if !past.is_empty() && r.chance(2, 5) {
                let (mut k, mut p, mut m) = past[r.below(past.len())].clone();
                match r.below(6) {
                    0 => k = *r.pick(&pool),
                    1 => m = r.pick(&["GET", "POST", "PUT", "DELETE"]).as_bytes().to_vec(),
                    2 | 3 if !p.is_empty() => { let i = r.below(p.len()); if p[i].is_ascii_alphanumeric() { p[i] = *r.pick(&[b'a', b'7', b'x', b'1']); } }
                    4 => { p.pop(); }
                    _ => {}
                }
                (k, p, m)
            } else { let k = *r.pick(&pool); let (p, m) = request(r, k, 0, n); (k, p, m) };
            past.push((k, p.clone(), m.clone()));
            let mut f = format!("{}:", k).into_bytes();
            f.extend_from_slice(&m);
            s.op(&[&"op", &t.to_string(), &"match", &f, &p]);
        }
    }
    if r.chance(1, 8) || (nt == 1 && r.chance(1, 4)) {
        let k = r.below(s.lines.len() - 1) + 1;
        let n = if nt > 1 { *r.pick(&[2, 3, 9]) } else { *r.pick(&[5, 70, 140, 300, 300, 1100, 2100]) };
        s.lines[k].push(format!("x{}", n).into_bytes());
    }
}
