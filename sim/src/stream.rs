//! The stream engine: the real generator and error reporter against simulated writers.
use crate::canon;
use crate::core::*;
use crate::gen;
use crate::rng::{self, Rng};
use crate::scen::{w, Line, Scen};
use crate::sys::{self, End, Shared};
use std::io::{self, Write};

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::Other, io::ErrorKind::StorageFull, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidInput, io::ErrorKind::UnexpectedEof, io::ErrorKind::WriteZero, io::ErrorKind::OutOfMemory, io::ErrorKind::InvalidData, io::ErrorKind::NotFound];
const ERRNOS: &[i32] = &[5, 28, 32, 11, 27, 122, 104];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act { Short, Eintr, Zero, Kind, Os, Flush }
#[derive(Clone, Debug)]
struct Fault { at: u64, act: Act, arg: u64, sticky: bool }

pub struct SimWriter { got: Vec<u8>, calls: u64, flushes: u64, plan: Vec<Fault>, cap: u64, fail: Option<(Act, u64, u64)>, fired: [u64; 6], over: bool, pieces: Option<Vec<u64>> }
impl SimWriter {
    fn new(plan: Vec<Fault>, cap: u64) -> SimWriter { SimWriter { got: vec![], calls: 0, flushes: 0, plan, cap, fail: None, fired: [0; 6], over: false, pieces: None } }
    fn error(act: Act, arg: u64, call: u64) -> io::Error {
        match act {
            Act::Os => io::Error::from_raw_os_error(ERRNOS[arg as usize % ERRNOS.len()]),
            _ => io::Error::new(KINDS[arg as usize % KINDS.len()], format!("simulated failure of call {}", call)),
        }
    }
    fn failed(&mut self, act: Act, arg: u64, call: u64) { self.fired[act as usize] += 1; if self.fail.is_none() { self.fail = Some((act, arg, call)); } }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.calls > self.cap { self.over = true; panic!("wfsim: the writer was called {} times", self.calls); }
        if let Some(p) = &mut self.pieces { p.push(rng::hash(buf)); }
        let hit = self.plan.iter().find(|f| f.act != Act::Flush && if f.sticky { k >= f.at } else { k == f.at }).cloned();
        if let (Some(f), false) = (hit, buf.is_empty()) {
            match f.act {
                Act::Short => { let n = (f.arg.max(1) as usize).min(buf.len()); if n < buf.len() { self.fired[0] += 1; } self.got.extend_from_slice(&buf[..n]); return Ok(n); }
                Act::Eintr => { self.fired[1] += 1; return Err(if f.arg % 2 == 0 { io::ErrorKind::Interrupted.into() } else { io::Error::from_raw_os_error(4) }); }
                Act::Zero => { self.failed(Act::Zero, 0, k); return Ok(0); }
                a => { self.failed(a, f.arg, k); return Err(Self::error(a, f.arg, k)); }
            }
        }
        self.got.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        let k = self.flushes;
        self.flushes += 1;
        if self.flushes > self.cap { self.over = true; panic!("wfsim: the writer was flushed {} times", self.flushes); }
        if let Some(f) = self.plan.iter().find(|f| f.act == Act::Flush && if f.sticky { k >= f.at } else { k == f.at }).cloned() {
            self.failed(Act::Flush, f.arg, k);
            return Err(Self::error(Act::Flush, f.arg, k));
        }
        Ok(())
    }
}

/// Fault words: f:POS:ACT:ARG:STICKY with POS = nK (call K), pM (M millionths of the way),
/// cK.J (J-th occurrence of the K-th distinct piece of text).
fn plan_of(l: &Line, pieces: &[u64]) -> Vec<Fault> {
    let n = pieces.len().max(1) as u64;
    let mut distinct: Vec<u64> = vec![];
    for p in pieces { if !distinct.contains(p) { distinct.push(*p); } }
    let mut v = vec![];
    for x in l.iter().skip(2) {
        let t = String::from_utf8_lossy(x).to_string();
        let p: Vec<&str> = t.split(':').collect();
        if p.len() < 5 || p[0] != "f" || p[1].is_empty() { continue; }
        let g = |s: &str| s.parse::<u64>().unwrap_or(0);
        let act = match p[2] { "SHORT" => Act::Short, "EINTR" => Act::Eintr, "ZERO" => Act::Zero, "KIND" => Act::Kind, "OS" => Act::Os, "FLUSH" => Act::Flush, _ => continue };
        let at = match p[1].as_bytes()[0] {
            b'n' => g(&p[1][1..]),
            b'p' => g(&p[1][1..]) * n / 1_000_000,
            b'c' => {
                let mut q = p[1][1..].split('.');
                let (a, b) = (g(q.next().unwrap_or("0")), g(q.next().unwrap_or("0")));
                if distinct.is_empty() { 0 } else {
                    let d = distinct[(a % distinct.len() as u64) as usize];
                    let occ: Vec<usize> = pieces.iter().enumerate().filter(|(_, x)| **x == d).map(|(i, _)| i).collect();
                    occ[(b % occ.len() as u64) as usize] as u64
                }
            }
            _ => continue,
        };
        let sticky = p[4] == "1" && act != Act::Eintr;
        v.push(Fault { at, act, arg: g(p[3]), sticky });
    }
    v
}

const SLOT: usize = 4096;
pub struct Stream { shm: Shared }
impl Stream {
    pub fn new() -> Stream { Stream { shm: Shared::new(SLOT * 130) } }

    pub fn run(&mut self, sc: &Scen, st: &mut Stats, verbose: bool) -> Outcome {
        let mut o = Outcome::default();
        let shm = &self.shm;
        let n = sc.lines.len().min(128);
        for i in 0..=n { shm.set_u32(SLOT * i, 0); }
        shm.set_u32(SLOT * 129, 0);
        let seed = sc.seed;
        let end = sys::in_fork(60, || {
            unsafe { sched_rnd(seed) };
            let mut last: Option<(Vec<u8>, Vec<u8>, Vec<u64>)> = None; // input, reference bytes, pieces
            for (i, l) in sc.lines.iter().take(128).enumerate() {
                shm.set_u32(SLOT * 129, i as u32);
                let kind = w(l, 0).to_string();
                let Some(body) = l.get(1).cloned() else { continue };
                let mut key = kind.clone().into_bytes();
                key.extend_from_slice(&body);
                if last.as_ref().map(|x| x.0 != key).unwrap_or(true) {
                    let r = go(seed, &kind, &body, SimWriter { pieces: Some(vec![]), ..SimWriter::new(vec![], 10_000_000) });
                    match r { Some((0, wr, _)) => last = Some((key, wr.got, wr.pieces.unwrap())), _ => { last = None; shm.set_u32(SLOT * i, 9); continue; } }
                }
                let (_, want, pieces) = last.as_ref().unwrap();
                let plan = plan_of(l, pieces);
                let cap = 4 * want.len() as u64 + 4 * pieces.len() as u64 + 10_000;
                // another hash seed every time: what is generated must not depend on it
                let Some((how, wr, err)) = go(seed ^ (i as u64 + 1) << 20, &kind, &body, SimWriter::new(plan.clone(), cap)) else { continue };
                let mut bad: Vec<(String, String, String)> = vec![];
                let mut v = |p: &str, k: &str, d: String| bad.push((p.into(), k.into(), d));
                let call = wr.fail.map(|f| f.2).unwrap_or(0);
                if wr.over { v("C14", "did-not-terminate", format!("{}: the writer was called {} times for {} bytes", kind, wr.calls, want.len())); }
                else if kind == "gen" {
                    match (wr.fail, how, &err) {
                        (_, 2, _) => v(if wr.fail.is_some() { "C01" } else { "C02" }, "panicked", format!("code generation panicked: {} (failing call: {:?})", err.as_ref().map(|e| e.to_string()).unwrap_or_default(), wr.fail)),
                        (Some(f), 0, _) => v("C01", "failure-swallowed", format!("write call {} failed with {:?}, but code generation returned Ok; the writer has {} of {} bytes", call, f.0, wr.got.len(), want.len())),
                        (Some(f), _, Some(e)) => {
                            let same = match f.0 {
                                Act::Zero => e.kind() == io::ErrorKind::WriteZero,
                                Act::Os => e.raw_os_error() == SimWriter::error(f.0, f.1, f.2).raw_os_error(),
                                a => { let x = SimWriter::error(a, f.1, f.2); e.kind() == x.kind() && e.to_string() == x.to_string() }
                            };
                            if !same { v("C01", "failure-replaced", format!("write call {} failed with {:?}, but code generation returned {:?}", call, SimWriter::error(f.0, f.1, f.2), e)); }
                        }
                        (None, 1, Some(e)) => v("C02", "spurious-failure", format!("only short writes and interruptions, but code generation returned {:?} after {} bytes", e, wr.got.len())),
                        _ => {}
                    }
                    if wr.fail.is_some() { if !want.starts_with(&wr.got) { v("C01", "not-a-prefix", diff(&wr.got, want)); } }
                    else if how == 0 && wr.got != *want { v("C02", "module-changed", diff(&wr.got, want)); }
                } else {
                    if wr.fail.is_some() { if !want.starts_with(&wr.got) { v("C12", "report-not-a-prefix", diff(&wr.got, want)); } }
                    else if how != 0 { v("C12", "report-panicked", format!("only short writes and interruptions, yet reporting panicked after {} of {} bytes", wr.got.len(), want.len())); }
                    else if wr.got != *want { v("C12", "report-garbled", diff(&wr.got, want)); }
                }
                let b = SLOT * i;
                shm.set_u64(b + 8, rng::mix(rng::hash(&wr.got) ^ how as u64) ^ wr.calls);
                shm.set_u64(b + 16, wr.calls);
                for (k, f) in wr.fired.iter().enumerate() { shm.set_u32(b + 24 + 4 * k, *f as u32); }
                shm.set_u32(b + 48, pieces.len() as u32);
                let mut msg = vec![];
                for (p, k, d) in &bad { msg.extend_from_slice(format!("{}\t{}\t{}\n", p, k, d.replace('\n', " ")).as_bytes()); }
                if verbose { msg.extend_from_slice(format!("#\t\t{} plan {:?}: result {} {:?}, {} calls, {} of {} bytes\n", kind, plan, ["Ok", "Err", "panic"][how as usize], err.as_ref().map(|e| e.to_string()), wr.calls, wr.got.len(), want.len()).as_bytes()); }
                msg.truncate(SLOT - 128);
                shm.put(b + 64, &msg);
                shm.set_u32(b + 60, msg.len() as u32);
                shm.set_u32(b, if bad.is_empty() { 1 } else { 2 });
            }
            0
        });
        for i in 0..n {
            let b = SLOT * i;
            let code = shm.u32(b);
            if code == 0 || code == 9 { continue; }
            o.sub += 1;
            o.mix(shm.u64(b + 8));
            o.events += shm.u64(b + 16);
            let mut any = false;
            for (k, nm) in ["SHORT", "EINTR", "ZERO", "ERR-KIND", "ERR-OS", "FLUSH-ERR"].iter().enumerate() {
                let f = shm.u32(b + 24 + 4 * k);
                st.fire(&format!("WRITER:{}", nm), f as u64);
                any |= f > 0;
            }
            if any { o.nontrivial = true; st.inter.insert(rng::mix(shm.u64(b + 8) ^ rng::hash(&sc.lines[i][1]))); }
            for m in String::from_utf8_lossy(shm.bytes(b + 64, shm.u32(b + 60) as usize)).lines() {
                let p: Vec<&str> = m.splitn(3, '\t').collect();
                if p.len() == 3 { if p[0] == "#" { o.trace.push(p[2].into()) } else { o.viol(p[0], p[1], p[2].into()) } }
            }
        }
        if end != End::Exit(0) {
            let at = shm.u32(SLOT * 129) as usize;
            let k = sc.lines.get(at).map(|l| w(l, 0).to_string()).unwrap_or_default();
            if matches!(end, End::Hang | End::Signal(24)) { o.viol("C14", "did-not-terminate", format!("line {} ({}) did not come back: {:?}", at, k, end)); }
            else { for p in ["C01", "C02", "C12"] { if (p == "C12") == (k == "report") { o.viol(p, "crashed", format!("line {} ({}): the process ended {:?}", at, k, end)); } } }
        }
        o
    }
}

/// One call in a fresh thread (fresh hash seeds).  0 ok, 1 error, 2 panic.
fn go(seed: u64, kind: &str, body: &[u8], wr: SimWriter) -> Option<(u32, SimWriter, Option<io::Error>)> {
    let text = std::str::from_utf8(body).ok()?.to_string();
    std::thread::scope(|s| {
        s.spawn(move || {
            unsafe { sched_rnd(seed); sched_stream(1); }
            let mut wr = wr;
            let r = if kind == "gen" {
                let cfg = canon::parse(&text)?;
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wfshim::generate(&mut wr, &cfg)))
            } else {
                let text: &'static str = Box::leak(text.into_boxed_str());
                match wfshim::parse(text) {
                    wfshim::Parsed::Ok(_) => return None,
                    wfshim::Parsed::Err(f) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { f(&mut wr); Ok(()) })),
                }
            };
            Some(match r { Ok(Ok(())) => (0, wr, None), Ok(Err(e)) => (1, wr, Some(e)), Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (2, wr, Some(io::Error::other(m)))
            } })
        }).join().ok().flatten()
    })
}

pub fn generate(prop: &str, seed: u64) -> Scen {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut s = Scen::new(prop, "stream", seed);
    let report = prop == "C12" || (prop == "C14" && r.chance(1, 3));
    let body = if report { gen::malformed(r).text } else { canon::print(&gen::config(r)) };
    let op = if report { "report" } else { "gen" };
    for _ in 0..24 {
        let mut f: Vec<String> = vec![];
        let pos = |r: &mut Rng| match r.below(6) { 0 => format!("n{}", r.below(8)), 1 => format!("p{}", 1_000_000 - 1 - r.below(3000)), 2 | 3 => format!("p{}", r.below(1_000_000)), _ => format!("c{}.{}", r.below(10_000), r.below(100)) };
        let soft = |r: &mut Rng, f: &mut Vec<String>| {
            match r.below(5) {
                0 => f.push(format!("f:n0:SHORT:{}:1", r.pick(&[1, 1, 2, 3, 7, 100]))),
                1 => { for _ in 0..r.range(1, 6) { let p = pos(r); f.push(format!("f:{}:SHORT:{}:0", p, r.pick(&[1, 2, 3, 10]))); } }
                2 => { for _ in 0..r.range(1, 6) { let p = pos(r); f.push(format!("f:{}:EINTR:{}:0", p, r.below(2))); } }
                3 => { let p = r.below(200); for k in 0..r.range(1, 40) { f.push(format!("f:n{}:EINTR:{}:0", p + k, r.below(2))); } }
                _ => { for _ in 0..r.range(1, 4) { let p = pos(r); f.push(format!("f:{}:EINTR:0:0", p)); let p = pos(r); f.push(format!("f:{}:SHORT:1:0", p)); } f.push(format!("f:n{}:SHORT:{}:1", r.below(50), r.pick(&[1, 2, 5]))); }
            }
        };
        let hard = |r: &mut Rng, f: &mut Vec<String>, sticky: bool| {
            let p = pos(r);
            let st = (sticky || r.chance(1, 5)) as u8;
            let w = match r.below(8) { 0 | 1 => format!("f:{}:ZERO:0:{}", p, st), 2 | 3 => format!("f:{}:OS:{}:{}", p, r.below(7), st), 4 if r.chance(1, 3) => format!("f:n0:FLUSH:{}:{}", r.below(12), st), _ => format!("f:{}:KIND:{}:{}", p, r.below(12), st) };
            f.insert(0, w);
        };
        match prop {
            "C01" => { if r.chance(1, 4) { soft(r, &mut f); } hard(r, &mut f, false); }
            "C02" => { for _ in 0..r.range(1, 2) { soft(r, &mut f); } }
            "C12" => match r.below(3) { 0 => hard(r, &mut f, false), 1 => { soft(r, &mut f); hard(r, &mut f, false); } _ => soft(r, &mut f) },
            _ => { if r.chance(1, 3) { soft(r, &mut f); } hard(r, &mut f, true); }
        }
        s.op(&[&op, &body]);
        s.lines.last_mut().unwrap().extend(f.into_iter().map(|x| x.into_bytes()));
    }
    s
}
