//! Shared between the engines: outcomes, statistics, and the reference results computed by the
//! real library on healthy streams in a pristine forked child.
use crate::canon;
use crate::rng;
use crate::sys::{self, End, Shared};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

extern "C" {
    pub fn sched_rnd(seed: u64);
    pub fn sched_stream(s: i32);
}

#[derive(Clone, Debug)]
pub struct Viol { pub prop: String, pub kind: String, pub detail: String }

#[derive(Default, Clone)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub digest: u64,
    pub interleaving: u64,
    pub sub: u64,           // simulated executions inside (nodes, streams, threads)
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub events: u64,
    pub invalid: bool,
    pub trace: Vec<String>,
}
impl Outcome {
    pub fn viol(&mut self, prop: &str, kind: &str, detail: String) {
        self.viols.push(Viol { prop: prop.into(), kind: kind.into(), detail });
    }
    pub fn mix(&mut self, v: u64) { self.digest = rng::mix(self.digest ^ v); }
}

#[derive(Default)]
pub struct Stats {
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub inter: HashSet<u64>,
}
impl Stats {
    pub fn fire(&mut self, k: &str, n: u64) { if n > 0 { *self.fired.entry(k.into()).or_default() += n } }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.into()).or_default() += 1 }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Class {
    /// The complete module, and whether the parsed configuration accounts for the whole text.
    Valid(Arc<Vec<u8>>, Result<(), String>),
    NotUtf8,
    /// The parser's report.
    Parse(Vec<u8>),
    Gen,
    Crash,
    Unreadable,
    Misconfig,
}
impl Class {
    pub fn valid(&self) -> Option<&Arc<Vec<u8>>> { if let Class::Valid(m, _) = self { Some(m) } else { None } }
    pub fn name(&self) -> &'static str {
        match self {
            Class::Valid(..) => "valid", Class::NotUtf8 => "not-utf8", Class::Parse(_) => "malformed", Class::Gen => "refused-by-generator",
            Class::Crash => "crashes-the-library", Class::Unreadable => "unreadable", Class::Misconfig => "misconfigured",
        }
    }
}

pub const REF_RND: u64 = 0x1234_5678;
const REGION: usize = 64 << 20;

pub struct Refs { shm: Shared, cache: HashMap<Vec<u8>, Class> }
impl Refs {
    pub fn new() -> Refs { Refs { shm: Shared::new(REGION), cache: HashMap::new() } }

    /// What a healthy, undisturbed build makes of this route file.
    pub fn of_file(&mut self, content: &[u8]) -> Class { self.get(b'f', content) }
    /// What the generator makes of this (canonical) configuration.
    pub fn of_config(&mut self, canonical: &[u8]) -> Class { self.get(b'c', canonical) }

    fn get(&mut self, tag: u8, content: &[u8]) -> Class {
        let mut key = vec![tag];
        key.extend_from_slice(content);
        if let Some(c) = self.cache.get(&key) { return c.clone(); }
        let c = self.compute(tag, content);
        if self.cache.len() > 4000 { self.cache.clear(); }
        self.cache.insert(key, c.clone());
        c
    }
    fn compute(&mut self, tag: u8, content: &[u8]) -> Class {
        let text = match std::str::from_utf8(content) { Ok(t) => t.to_string(), Err(_) => return Class::NotUtf8 };
        let shm = &self.shm;
        shm.set_u32(0, 0);
        let end = sys::in_fork(30, || {
            unsafe { sched_rnd(REF_RND) };
            std::thread::scope(|s| {
                s.spawn(|| {
                    unsafe { sched_stream(1) };
                    let text: &'static str = Box::leak(text.into_boxed_str());
                    let reply = |kind: u32, a: &[u8], b: &[u8]| {
                        if 16 + a.len() + b.len() > REGION { shm.set_u32(0, 9); sys::raw_exit(0); }
                        shm.set_u32(4, a.len() as u32); shm.set_u32(8, b.len() as u32);
                        shm.put(16, a); shm.put(16 + a.len(), b);
                        shm.set_u32(0, kind);
                    };
                    let cfg = if tag == b'f' {
                        match wfshim::parse(text) {
                            wfshim::Parsed::Ok(c) => c,
                            wfshim::Parsed::Err(f) => { let mut v = vec![]; f(&mut v); reply(2, &v, b""); return; }
                        }
                    } else { match canon::parse(text) { Some(c) => c, None => { reply(4, b"", b""); return; } } };
                    let cons = if tag == b'f' { canon::conserves(text, &cfg).err().unwrap_or_default() } else { String::new() };
                    reply(3, b"", b"");
                    let mut v = vec![];
                    if wfshim::generate(&mut v, &cfg).is_ok() {
                        let cons = if cons.is_empty() { accounts(&v, &cfg).err().unwrap_or_default() } else { cons };
                        reply(1, &v, cons.as_bytes());
                    }
                }).join().ok();
            });
            0
        });
        if end == End::Hang || end == End::Signal(24) { eprintln!("wfsim: the reference run for a {}-byte input did not end", content.len()); }
        if end != End::Exit(0) { return Class::Crash; }
        let (la, lb) = (shm.u32(4) as usize, shm.u32(8) as usize);
        let a = || shm.bytes(16, la).to_vec();
        match shm.u32(0) {
            1 => {
                let e = String::from_utf8_lossy(shm.bytes(16 + la, lb)).to_string();
                Class::Valid(Arc::new(a()), if e.is_empty() { Ok(()) } else { Err(e) })
            }
            2 => Class::Parse(a()),
            3 => Class::Gen,
            4 => Class::Misconfig,
            9 => panic!("wfsim: reference result too large"),
            _ => Class::Crash,
        }
    }
}

/// The module mentions every header, resource, parameter and segment of the configuration.
fn accounts(module: &[u8], c: &wayfinder::RouteConfig) -> Result<(), String> {
    let m = String::from_utf8_lossy(module);
    let mut missing = None;
    let mut need = |s: &str| if missing.is_none() && !m.contains(s) { missing = Some(s.to_string()) };
    fn go(r: &wayfinder::Routes, need: &mut dyn FnMut(&str)) {
        for p in &r.query_parameters { need(&p.name); need(&p.typ); }
        for x in &r.resources {
            need(&x.name);
            for y in &x.modules { need(y) }
            for p in &x.query_parameters { need(&p.name); need(&p.typ); }
        }
        for n in &r.routes {
            match &n.path_segment {
                wayfinder::PathSegment::Static(t) => need(t),
                wayfinder::PathSegment::Dynamic(p) => { need(&p.name); need(&p.typ) }
            }
            go(&n.routes, need);
        }
    }
    for h in &c.headers { need(&h.text) }
    go(&c.routes, &mut need);
    match missing { None => Ok(()), Some(s) => Err(format!("{:?} of the route file does not occur in the module", s)) }
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 300 { format!("{:?}... ({} bytes)", s.chars().take(300).collect::<String>(), b.len()) } else { format!("{:?}", s) }
}
/// Where two byte strings part.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let cut = |b: &[u8]| show(&b[k.saturating_sub(20).min(b.len())..(k + 40).min(b.len())]);
    format!("{} bytes instead of {}, first difference at {}: got {} expected {}", got.len(), want.len(), k, cut(got), cut(want))
}
