//! The process engine: real build scripts and the real command-line tool, each a process whose
//! whole libc surface is simulated, on a scratch disk, with an editor, kills and a model of Cargo.
use crate::core::*;
use crate::rng;
use crate::scen::{num, w, Line, Scen};
use crate::sys::{self, End, Shared};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const CLS: &[&str] = &["OPEN_IN", "READ_IN", "OPEN_OUT", "WRITE_OUT", "STDOUT_W", "STDERR_W", "CLOSE", "META", "SYNC", "ALLOC", "OPEN_OTHER", "RW_OTHER", "ENVIRON", "STAT", "ELSE", "ANY"];
pub const ACT: &[&str] = &["-", "ERR", "SHORT", "EINTR", "ZERO", "KILL_BEFORE", "KILL_AFTER", "KILL_MID", "DELAY"];
const SHM_LEN: usize = 6352 + 16384 * 16;
const MAGIC: u32 = 0x57465331;
pub const STEP_CAP: u32 = 300_000;
const T0: i64 = 1_600_000_000;

extern "C" { fn fcntl(fd: i32, cmd: i32, ...) -> i32; }

pub struct Slot { shm: Shared, path: PathBuf, out: PathBuf, err: PathBuf }
pub struct Procs { base: PathBuf, root: PathBuf, slots: Vec<Slot>, nodes: PathBuf, io: PathBuf, pub refs: Refs, exref: HashMap<String, Class>, errref: HashMap<(String, Vec<u8>), Vec<u8>>, said: Option<Vec<u8>> }

impl Drop for Procs { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.base); } }

#[derive(Clone, Debug)]
struct Node { mode: String, input: Vec<u8>, output: Vec<u8>, faults: Vec<Vec<u8>>, cargo: bool, extra: Vec<(Vec<u8>, Vec<u8>)> }

impl Node {
    /// The builds of a script that builds more than once, one by one.
    fn pairs(&self) -> Vec<Node> {
        let mut v = vec![Node { extra: vec![], ..self.clone() }];
        for (i, o) in &self.extra { v.push(Node { input: i.clone(), output: o.clone(), ..v[0].clone() }); }
        v
    }
}

#[derive(Default)]
struct CargoState { ran: bool, ok: bool, start: i64, watched: Vec<PathBuf> }

type Tree = BTreeMap<PathBuf, (u8, Vec<u8>, i64, u32)>;

struct Multi { nd: Node, input: Option<PathBuf>, output: Option<PathBuf>, class: Class, prev: Option<Vec<u8>> }

struct World { env: BTreeMap<String, Option<Vec<u8>>>, cwd: PathBuf, rnd: u64, clock: i64, step: i64, pid: u32, who: u32, tick: i64 }

struct Ran { end: End, stdout: Vec<u8>, stderr: Vec<u8>, shm: Vec<u8> }
impl Ran {
    fn u32(&self, o: usize) -> u32 { u32::from_le_bytes(self.shm[o..o + 4].try_into().unwrap()) }
    fn i64(&self, o: usize) -> i64 { i64::from_le_bytes(self.shm[o..o + 8].try_into().unwrap()) }
    fn fired(&self, cls: usize, act: usize) -> u32 { self.u32(1184 + 4 * (cls * 16 + act)) }
    fn fired_cls(&self, cls: usize) -> u32 { (0..16).map(|a| self.fired(cls, a)).sum() }
    fn killed(&self) -> bool { self.u32(1112) != 0 }
    fn unrecov(&self) -> u32 { self.u32(1108) }
    fn hung(&self) -> bool { self.u32(840) != 0 || matches!(self.end, End::Hang | End::Signal(24) | End::Signal(25) | End::Exit(122)) }
    /// The calls that failed for good: class and errno, in order; `None` if the log is incomplete.
    fn failures(&self) -> Option<Vec<(usize, i32)>> {
        let n = self.u32(836) as usize;
        if n > 16384 { return None; }
        Some((0..n).filter_map(|i| {
            let e = &self.shm[6352 + 16 * i..6352 + 16 * i + 16];
            let err = i16::from_le_bytes([e[4], e[5]]) as i32;
            if err != 0 && err != 4 { Some((e[1] as usize & 15, err)) } else { None }
        }).collect())
    }
    fn log(&self) -> Vec<String> {
        let n = (self.u32(836) as usize).min(16384);
        let mut v: Vec<String> = vec![];
        let mut last = String::new(); let mut rep = 0;
        for i in 0..n {
            let e = &self.shm[6352 + 16 * i..6352 + 16 * i + 16];
            let err = i16::from_le_bytes([e[4], e[5]]);
            let len = u32::from_le_bytes(e[8..12].try_into().unwrap());
            let ret = i32::from_le_bytes(e[12..16].try_into().unwrap());
            let mut s = format!("{} {} len={} -> {}", e[0] as char, CLS[(e[1] & 15) as usize], len, ret);
            if err != 0 { s.push_str(&format!(" errno={}", err)); }
            if e[2] != 0 { s.push_str(&format!("   [injected {}]", ACT[(e[2] as usize).min(8)])); }
            if s == last { rep += 1; continue; }
            if rep > 0 { v.push(format!("  (repeated {} more times)", rep)); rep = 0; }
            last = s.clone();
            v.push(s);
        }
        if rep > 0 { v.push(format!("  (repeated {} more times)", rep)); }
        if v.len() > 80 { let t = v.split_off(v.len() - 40); v.truncate(40); v.push("  ...".into()); v.extend(t); }
        v
    }
}

fn base_dir(tag: &str) -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(format!("{}/wfsim-{:06}-{:>04}", d, std::process::id() % 1_000_000, tag).replace(' ', "0"));
        let _ = std::fs::remove_dir_all(&p);
        if std::fs::create_dir_all(p.join("aux")).is_ok() { return p; }
    }
    panic!("no scratch directory");
}

const GIVEN: &[u8] = b"Well\nuse given;\n\n/\n  GET given\n";
impl Procs {
    pub fn new(tag: &str) -> Procs {
        let base = base_dir(tag);
        let slots = (0..4).map(|i| {
            let path = base.join(format!("aux/shm{}", i));
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&path).unwrap();
            f.set_len(SHM_LEN as u64).unwrap();
            Slot { shm: Shared::of_file(&f, SHM_LEN), path, out: base.join(format!("aux/out{}", i)), err: base.join(format!("aux/err{}", i)) }
        }).collect();
        let root = base.join("w");
        Procs {
            root, slots,
            nodes: std::env::var_os("WFSIM_NODES").expect("WFSIM_NODES").into(),
            io: std::env::var_os("WFSIM_IO").expect("WFSIM_IO").into(),
            refs: Refs::new(), exref: HashMap::new(), errref: HashMap::new(), said: None, base,
        }
    }

    fn expand(&self, p: &[u8]) -> Vec<u8> {
        if p.starts_with(b"@/") { let mut v = self.root.as_os_str().as_bytes().to_vec(); v.extend_from_slice(&p[1..]); v } else { p.to_vec() }
    }
    fn pb(b: &[u8]) -> PathBuf { PathBuf::from(std::ffi::OsString::from_vec(b.to_vec())) }

    /// Where a node's input or output path points: None if it is not configured.
    fn resolve(&self, wld: &World, mode: &str, p: &[u8], output: bool) -> Option<PathBuf> { self.spelled(wld, mode, p, output).map(|p| norm(&p)) }
    /// The same, as it is written down: every folder on the way has to be there.
    fn spelled(&self, wld: &World, mode: &str, p: &[u8], output: bool) -> Option<PathBuf> {
        if p == b"--none" { return None; }
        let p = Self::pb(&self.expand(p));
        let dir = if mode.starts_with("env-") || mode.starts_with("ex-") || mode == "no-target" || mode == "no-source" {
            let k = if output { "OUT_DIR" } else { "CARGO_MANIFEST_DIR" };
            let v = wld.env.get(k)?.clone()?;
            std::str::from_utf8(&v).ok()?;
            Self::pb(&v)
        } else { wld.cwd.clone() };
        Some(wld.cwd.join(dir).join(p))
    }

    fn setup_slot(&self, i: usize, wld: &World, nd: &Node, lock: u32) {
        let s = &self.slots[i].shm;
        unsafe { std::ptr::write_bytes(s.ptr(), 0, SHM_LEN) };
        s.set_u64(8, rng::mix(wld.rnd ^ (i as u64) << 40));
        s.set_u64(16, wld.clock as u64);
        s.set_u64(24, wld.step as u64);
        s.set_u32(32, wld.pid + i as u32);
        s.set_u32(36, lock);
        s.set_u32(40, STEP_CAP);
        s.set_u32(44, wld.who);
        s.set_u64(48, u64::MAX);
        s.set_u64(56, u64::MAX);
        let put = |off: usize, b: &[u8]| { let n = b.len().min(255); s.put(off, &b[..n]); };
        put(64, self.root.as_os_str().as_bytes());
        if let Some(p) = self.resolve(wld, &nd.mode, &nd.input, false) { put(320, p.as_os_str().as_bytes()); }
        if let Some(p) = self.resolve(wld, &nd.mode, &nd.output, true) { put(576, p.as_os_str().as_bytes()); }
        let mut n = 0;
        for f in &nd.faults {
            let t = String::from_utf8_lossy(f).to_string();
            let p: Vec<&str> = t.split(':').collect();
            if p.len() < 7 { continue; }
            let g = |k: usize| p[k].parse::<i64>().unwrap_or(0);
            if p[1] == "DISK" { s.set_u64(48, g(4) as u64); continue; }
            if p[1] == "FDS" { s.set_u32(2248, g(4) as u32); continue; }
            if p[1] == "SDISK" { s.set_u64(56, g(4) as u64); continue; }
            let (Some(c), Some(a)) = (CLS.iter().position(|x| *x == p[1]), ACT.iter().position(|x| *x == p[2])) else { continue };
            if n >= 256 { break; }
            let mut e = [0u8; 16];
            e[0] = c as u8; e[1] = a as u8; e[2] = g(6) as u8;
            e[4..8].copy_from_slice(&(g(3) as u32).to_le_bytes());
            e[8..12].copy_from_slice(&(g(4) as i32).to_le_bytes());
            e[12..16].copy_from_slice(&(g(5) as i32).to_le_bytes());
            s.put(2256 + 16 * n, &e);
            n += 1;
        }
        s.set_u32(4, n as u32);
        s.set_u32(0, MAGIC);
    }

    fn spawn(&self, i: usize, wld: &World, nd: &Node) -> std::process::Child {
        let sl = &self.slots[i];
        let f = |p: &Path| Stdio::from(std::fs::OpenOptions::new().write(true).create(true).truncate(true).append(false).open(p).unwrap());
        let prog = match nd.mode.as_str() { "cmd" | "cmd-noargs" => "wayfinder-cmd", "ex-cli" => "ex-cli-build", "ex-structured" => "ex-structured-build", _ => "wfnode" };
        let mut c = Command::new(self.nodes.join(prog));
        // standard input: nothing, or a file, open some way in
        let given = || { use std::io::{Seek, SeekFrom}; let p = self.base.join("aux/in"); std::fs::write(&p, GIVEN).ok()?; let mut f = std::fs::File::open(&p).ok()?; f.seek(SeekFrom::Start(5)).ok()?; Some(Stdio::from(f)) };
        let stdin = if wld.who >> 11 & 1 == 1 { given().expect("standard input") } else { Stdio::null() };
        c.env_clear().stdin(stdin).stdout(f(&sl.out)).stderr(f(&sl.err)).current_dir(&wld.cwd);
        let os = |b: &[u8]| std::ffi::OsString::from_vec(self.expand(b));
        for (k, v) in &wld.env { if let Some(v) = v { c.env(k, std::ffi::OsString::from_vec(v.clone())); } }
        c.env("LD_PRELOAD", &self.io).env("WFSIM_SHM", &sl.path);
        match nd.mode.as_str() {
            "cmd" => { c.arg(os(&nd.input)); if wld.who >> 12 & 1 == 1 { c.arg("more").arg("other/mod.rs"); } }
            "cmd-noargs" | "ex-cli" | "ex-structured" => {}
            "script" => { c.arg("script"); for (a, _) in &nd.extra { c.arg(self.steps(a)); } return c.spawn().expect("spawn node"); }
            m if m.contains("config") => { c.arg(m).arg("-").arg(os(&nd.output)).env("WFNODE_CONFIG", os(&nd.input)); }
            m => { c.arg(m).arg(os(&nd.input)).arg(os(&nd.output)); }
        }
        for (i, o) in &nd.extra { c.arg(os(i)).arg(os(o)); }
        c.spawn().expect("spawn node")
    }

    fn collect(&self, i: usize, end: End) -> Ran {
        let sl = &self.slots[i];
        let nlog = (sl.shm.u32(836) as usize).min(16384);
        Ran { end, stdout: std::fs::read(&sl.out).unwrap_or_default(), stderr: std::fs::read(&sl.err).unwrap_or_default(), shm: sl.shm.bytes(0, 6352 + 16 * nlog).to_vec() }
    }

    fn run_single(&self, wld: &World, nd: &Node) -> Ran {
        self.setup_slot(0, wld, nd, 0);
        let c = self.spawn(0, wld, nd);
        let end = sys::wait_for(c.id() as i32, 30);
        std::mem::forget(c);
        self.collect(0, end)
    }

    fn run_group(&self, wld: &mut World, nds: &[Node], sched: &[(char, usize, u32)], edits: &[Line], starts: &mut Vec<i64>) -> Vec<Ran> {
        struct Live { ch: std::process::Child, s: UnixStream, alive: bool, hang: bool }
        // Wait until the node asks for its next quantum, or is gone.
        fn settle(l: &mut Live) {
            let mut b = [0u8; 1];
            l.s.set_read_timeout(Some(std::time::Duration::from_secs(60))).ok();
            match l.s.read(&mut b) {
                Ok(1) => {}
                Ok(_) => l.alive = false,
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => { sys::kill9(l.ch.id() as i32); l.alive = false; l.hang = true; }
                Err(_) => l.alive = false,
            }
        }
        let mut live = vec![];
        for (i, nd) in nds.iter().enumerate() {
            let (a, b) = UnixStream::pair().unwrap();
            unsafe { fcntl(b.as_raw_fd(), 2, 0) };
            self.setup_slot(i, wld, nd, b.as_raw_fd() as u32);
            wld.tick += 1;
            starts.push(wld.tick);
            let ch = self.spawn(i, wld, nd);
            drop(b);
            let mut l = Live { ch, s: a, alive: true, hang: false };
            settle(&mut l);
            live.push(l);
        }
        for &(k, i, q) in sched {
            if k == 'E' {
                if let Some(l) = edits.get(i) { self.edit(wld, l); }
            } else if i < live.len() && live[i].alive {
                let l = &mut live[i];
                if l.s.write_all(&q.max(1).to_le_bytes()).is_ok() { settle(l); } else { l.alive = false; }
            }
        }
        // The rest in turn, so that nobody waits for ever for somebody who never runs.
        while live.iter().any(|l| l.alive) {
            for l in live.iter_mut().filter(|l| l.alive) { if l.s.write_all(&400u32.to_le_bytes()).is_ok() { settle(l); } else { l.alive = false; } }
        }
        live.into_iter().enumerate().map(|(i, l)| {
            let mut end = sys::wait_for(l.ch.id() as i32, 60);
            if l.hang { end = End::Hang; }
            std::mem::forget(l.ch);
            self.collect(i, end)
        }).collect()
    }

    /// put PATH BYTES MTIME inplace|rename, link PATH TARGET, dir PATH, del PATH
    fn edit(&self, wld: &mut World, l: &Line) {
        wld.tick += 1;
        let Some(arg) = l.get(1) else { return };
        let p = norm(&self.root.join(Self::pb(arg)));
        if !p.starts_with(&self.root) || p == self.root { return; }
        if let Some(d) = p.parent() { let _ = std::fs::create_dir_all(d); }
        match w(l, 0) {
            "put" | "pput" => {
                let body = l.get(2).cloned().unwrap_or_default();
                if w(l, 4) == "rename" {
                    let t = self.base.join("aux/edit");
                    let _ = std::fs::write(&t, &body);
                    let _ = std::fs::rename(&t, &p);
                } else { let _ = std::fs::write(&p, &body); }
                sys::set_mtime(&p, (T0 + wld.tick + num(l, 3)) * 1_000_000_000);
            }
            "link" | "plink" => {
                let t = self.base.join("aux/link");
                let _ = std::fs::remove_file(&t);
                if std::os::unix::fs::symlink(Self::pb(&self.expand(l.get(2).map(|x| &x[..]).unwrap_or(b"x"))), &t).is_ok() { let _ = std::fs::rename(&t, &p); }
                sys::set_mtime(&p, (T0 + wld.tick) * 1_000_000_000);
            }
            "rot" => if let Ok(b) = std::fs::read(&p) {
                let mut r = rng::Rng::new(num(l, 2) as u64);
                let (_, t) = crate::gen::damage(&mut r, &b, &b[b.len() / 3..].to_vec());
                let _ = std::fs::write(&p, &t);
                sys::set_mtime(&p, (T0 + wld.tick + num(l, 3)) * 1_000_000_000);
            },
            "dir" => { let _ = std::fs::create_dir_all(&p); }
            "del" | "pdel" => { let _ = std::fs::remove_file(&p); let _ = std::fs::remove_dir(&p); }
            _ => {}
        }
    }

    /// Lengthens a route file by a header so that its length, or that of its module, is a multiple of `n`, plus `d`.
    fn fit(&mut self, p: &Path, module: bool, n: usize, d: i64) {
        let (Ok(old), Some(t)) = (std::fs::read(p), mtime(p)) else { return };
        let pad = |k: usize| { let mut v = b"use ".to_vec(); v.extend(vec![b'a'; k]); v.extend_from_slice(if old.starts_with(b"use") { b";\n" } else { b";\n\n" }); v.extend_from_slice(&old); v };
        let mut len = |k: usize| if module { self.refs.of_file(&pad(k)).valid().map(|m| m.len()) } else { Some(pad(k).len()) };
        let (Some(a), Some(b)) = (len(1), len(2)) else { return };
        let (a, step, n) = (a as i64, b as i64 - a as i64, n as i64);
        let Some(k) = (0..=n).find(|k| (a + step * k - d).rem_euclid(n) == 0) else { return };
        let _ = std::fs::write(p, pad(k as usize + 1));
        sys::set_mtime(p, t * 1_000_000_000);
    }

    fn tree(&self) -> Tree {
        fn walk(d: &Path, t: &mut Tree) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            for e in rd.flatten() {
                let p = e.path();
                let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
                use std::os::unix::fs::MetadataExt;
                if m.is_dir() { t.insert(p.clone(), (b'd', vec![], 0, m.mode())); walk(&p, t); }
                else if m.is_symlink() { t.insert(p.clone(), (b'l', std::fs::read_link(&p).map(|x| x.as_os_str().as_bytes().to_vec()).unwrap_or_default(), 0, 0)); }
                else { let ns = m.mtime() * 1_000_000_000 + m.mtime_nsec(); t.insert(p.clone(), (b'f', std::fs::read(&p).unwrap_or_default(), ns, m.mode())); }
            }
        }
        let mut t = Tree::new();
        walk(&self.root, &mut t);
        t
    }

    fn class(&mut self, wld: &World, nd: &Node, input: &Option<PathBuf>, output: &Option<PathBuf>) -> Class {
        let m = nd.mode.as_str();
        if m == "cmd-noargs" { return Class::Misconfig; }
        if m.starts_with("no-") { return Class::Misconfig; }
        if m.starts_with("env-") || m.starts_with("ex-") {
            for k in ["CARGO_MANIFEST_DIR", "OUT_DIR"] {
                match wld.env.get(k) { Some(Some(v)) if std::str::from_utf8(v).is_ok() => {} _ => return Class::Misconfig }
            }
        }
        if m == "ex-structured" {
            if let Some(c) = self.exref.get(m) { return c.clone(); }
            return Class::Misconfig; // set up by the caller
        }
        let _ = output;
        if m.contains("config") { return self.refs.of_config(&nd.input); }
        if !self.spelled(wld, &nd.mode, &nd.input, false).map_or(false, |p| p.exists()) { return Class::Unreadable; }
        match input { None => Class::Unreadable, Some(p) => match std::fs::read(p) { Ok(b) => self.refs.of_file(&b), Err(_) => Class::Unreadable } }
    }

    pub fn run(&mut self, sc: &Scen, st: &mut Stats, verbose: bool) -> Outcome {
        self.said = None;
        let mut o = self.run1(sc, st, verbose);
        // C28: what a refused build said, compared with what it says when all is in reach
        if let (true, Some(said)) = (sc.prop == "C28" && o.viols.is_empty(), self.said.take()) {
            let mut usual = sc.clone();
            usual.lines.retain(|l| !(w(l, 0) == "unenv" || w(l, 0) == "env" && matches!(w(l, 1), "HOME" | "TMPDIR" | "PATH" | "WFNODE_GONE")));
            for l in &mut usual.lines { l.retain(|x| !x.starts_with(b"f:")); }
            let p = self.run1(&usual, &mut Stats::default(), false);
            o.sub += p.sub;
            o.events += p.events;
            if let Some(u) = self.said.take() {
                st.probe("report-compared-with-usual-surroundings");
                if u != said { o.viol("C28", "report-needs-something-else", format!("usually {}, now {}", show(&u), show(&said))); }
            }
        }
        o
    }
    fn run1(&mut self, sc: &Scen, st: &mut Stats, verbose: bool) -> Outcome {
        let mut o = Outcome::default();
        let _ = std::fs::remove_dir_all(&self.root);
        for d in ["pkg/examples/cli", "pkg/examples/structured", "out", "tmp", "home"] { std::fs::create_dir_all(self.root.join(d)).expect("scratch"); }
        let r = |s: &str| Some(self.root.join(s).as_os_str().as_bytes().to_vec());
        let mut wld = World { env: BTreeMap::new(), cwd: self.root.join("pkg"), rnd: sc.seed, clock: T0 * 1_000_000_000, step: 1_000_000, pid: 4242, who: 0, tick: 0 };
        for (k, v) in [("CARGO_MANIFEST_DIR", r("pkg")), ("OUT_DIR", r("out")), ("TMPDIR", r("tmp")), ("HOME", r("home")), ("PATH", Some(b"/usr/bin:/bin".to_vec()))] { wld.env.insert(k.into(), v); }
        let mut cargo = CargoState::default();
        let mut group: Vec<Node> = vec![];
        let mut gedits: Vec<Line> = vec![];
        let mut gsched: Vec<(char, usize, u32)> = vec![];
        let n = sc.lines.len();
        for k in 0..=n {
            let end = k == n;
            let op = if end { "end" } else { w(&sc.lines[k], 0) }.to_string();
            let joins = matches!(op.as_str(), "pbuild" | "pcargo" | "pput" | "plink" | "pdel" | "sched");
            if !joins && (!group.is_empty() || !gedits.is_empty()) {
                let (g, e, s) = (std::mem::take(&mut group), std::mem::take(&mut gedits), std::mem::take(&mut gsched));
                self.group(sc, &mut wld, &mut cargo, g, e, s, st, &mut o, verbose);
            }
            if end { break; }
            let l = &sc.lines[k];
            let faults = |from: usize| l.iter().skip(from).filter(|x| x.starts_with(b"f:")).cloned().collect::<Vec<_>>();
            let extra = || l.iter().skip(4).filter_map(|x| x.strip_prefix(b"x:")).filter_map(|x| { let k = x.iter().position(|c| *c == b':')?; Some((x[..k].to_vec(), x[k + 1..].to_vec())) }).collect::<Vec<_>>();
            let arg = |i: usize| l.get(i).cloned().unwrap_or_else(|| b"--none".to_vec());
            match op.as_str() {
                "put" | "link" | "dir" | "del" | "rot" => self.edit(&mut wld, l),
                // the module of some route text, or its beginning, from an earlier build
                "mod" => if let Some(m) = self.refs.of_file(&arg(2)).valid() {
                    let keep = if w(l, 4).is_empty() { m.len() } else { (num(l, 4) as usize).min(m.len()) };
                    self.edit(&mut wld, &vec![b"put".to_vec(), arg(1), m[..keep].to_vec(), arg(3), b"inplace".to_vec()]);
                },
                "fit" => { let p = norm(&self.root.join(Self::pb(&arg(1)))); if p.starts_with(&self.root) { self.fit(&p, w(l, 2) == "out", num(l, 3).clamp(1, 1 << 17) as usize, num(l, 4)); } }
                "env" => { let v = self.expand(&arg(2)); wld.env.insert(w(l, 1).into(), Some(v)); }
                "unenv" => { wld.env.insert(w(l, 1).into(), None); }
                "cwd" => { let d = norm(&self.root.join(Self::pb(&arg(1)))); if d.starts_with(&self.root) { let _ = std::fs::create_dir_all(&d); wld.cwd = d; } }
                "sim" => { wld.rnd = num(l, 1) as u64; wld.clock = num(l, 2) * 1_000_000_000; wld.step = num(l, 3); wld.pid = (num(l, 4) as u32).max(2); wld.who = num(l, 5) as u32; }
                "build" => { let nd = Node { mode: w(l, 1).into(), input: arg(2), output: arg(3), faults: faults(4), cargo: false, extra: extra() }; self.group(sc, &mut wld, &mut cargo, vec![nd], vec![], vec![], st, &mut o, verbose); }
                "cargo" => { let nd = Node { mode: w(l, 1).into(), input: arg(2), output: arg(3), faults: faults(4), cargo: true, extra: extra() }; self.group(sc, &mut wld, &mut cargo, vec![nd], vec![], vec![], st, &mut o, verbose); }
                "pbuild" | "pcargo" => { if group.len() < 4 { group.push(Node { mode: w(l, 1).into(), input: arg(2), output: arg(3), faults: faults(4), cargo: op == "pcargo", extra: extra() }); } }
                "script" => self.script(&mut wld, l, faults(1), st, &mut o, verbose),
                "pput" | "plink" | "pdel" => gedits.push(l.clone()),
                "sched" => for x in l.iter().skip(1) {
                    let t = String::from_utf8_lossy(x).to_string();
                    let p: Vec<&str> = t.split(':').collect();
                    if p.len() == 4 && p[0] == "q" { gsched.push((p[1].chars().next().unwrap_or('R'), p[2].parse().unwrap_or(0), p[3].parse().unwrap_or(1))); }
                },
                _ => {}
            }
        }
        o.sim_ns += (wld.tick as u64) * 1_000_000_000;
        let tr = self.tree();
        for (p, (k, b, _, _)) in &tr { o.mix(rng::hash(p.strip_prefix(&self.root).unwrap().as_os_str().as_bytes()) ^ *k as u64); o.mix(rng::hash(&self.anon(b))); }
        o
    }

    #[allow(clippy::too_many_arguments)]
    fn group(&mut self, sc: &Scen, wld: &mut World, cargo: &mut CargoState, nds: Vec<Node>, edits: Vec<Line>, sched: Vec<(char, usize, u32)>, st: &mut Stats, o: &mut Outcome, verbose: bool) {
        let mut nds = nds;
        // The Cargo model: is the build script due?
        if nds.iter().any(|n| n.cargo) {
            let due = !cargo.ran || !cargo.ok || {
                if cargo.watched.is_empty() { true_mtime_after(&self.root.join("pkg"), cargo.start) }
                else { cargo.watched.iter().any(|p| mtime(p).map(|m| m > cargo.start).unwrap_or(true)) }
            };
            st.probe(if due { "cargo-runs-script" } else { "cargo-skips-script" });
            if !due {
                let skipped: Vec<Node> = nds.iter().filter(|n| n.cargo).cloned().collect();
                nds.retain(|n| !n.cargo);
                if edits.is_empty() { for nd in &skipped { for x in nd.pairs() { self.quiescent(wld, &x, o, "Cargo considered the module up to date"); } } }
            }
        }
        for nd in &nds {
            if nd.mode == "ex-structured" && !self.exref.contains_key("ex-structured") {
                // Its configuration is compiled in; a healthy run in an empty world is the reference.
                let clean = Node { mode: nd.mode.clone(), input: b"--none".to_vec(), output: b"routes.rs".to_vec(), faults: vec![], cargo: false, extra: vec![] };
                let dir = self.root.join(".reference");
                let _ = std::fs::create_dir_all(&dir);
                let mut rr = World { env: BTreeMap::new(), cwd: self.root.join("pkg"), rnd: REF_RND, clock: T0 * 1_000_000_000, step: 1, pid: 99, who: 0, tick: 0 };
                for (k, v) in [("CARGO_MANIFEST_DIR", self.root.join("pkg/examples/structured")), ("OUT_DIR", dir.clone()), ("PATH", "/usr/bin:/bin".into())] { rr.env.insert(k.into(), Some(v.as_os_str().as_bytes().to_vec())); }
                let ran = self.run_single(&rr, &clean);
                let out = std::fs::read(dir.join("routes.rs")).unwrap_or_default();
                let _ = std::fs::remove_dir_all(&dir);
                if ran.end == End::Exit(0) { self.exref.insert("ex-structured".into(), Class::Valid(std::sync::Arc::new(out), Ok(()))); }
            }
        }
        nds.retain(|n| n.mode != "ex-structured" || self.exref.contains_key("ex-structured"));
        if nds.is_empty() {
            for e in &edits { self.edit(wld, e); }
            return;
        }
        let ins: Vec<Option<PathBuf>> = nds.iter().map(|n| if n.mode.contains("config") || n.mode == "ex-structured" || n.mode == "cmd-noargs" { None } else { self.resolve(wld, &n.mode, &n.input, false) }).collect();
        let outs: Vec<Option<PathBuf>> = nds.iter().map(|n| if to_stdout(&n.mode) { None } else { self.resolve(wld, &n.mode, &n.output, true) }).collect();
        let classes: Vec<Class> = (0..nds.len()).map(|i| self.class(wld, &nds[i], &ins[i], &outs[i])).collect();
        for (nd, c) in nds.iter_mut().zip(&classes) {
            // A limit given as a distance from the end of the module.
            for f in nd.faults.iter_mut() {
                let t = String::from_utf8_lossy(f).replace(":TAIL:", "\u{1}");
                if let Some((a, b)) = t.split_once('\u{1}') {
                    let q: Vec<&str> = b.split(':').collect();
                    let k = q.get(1).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
                    let n = c.valid().map(|m| (m.len() as i64 - k).max(0)).unwrap_or(0);
                    *f = format!("{}:LIM:0:{}:0:0", a, n).into_bytes();
                }
            }
        }
        let multi: Vec<Vec<Multi>> = nds.iter().map(|n| if n.extra.is_empty() { vec![] } else {
            n.pairs().into_iter().map(|x| {
                let (i, q) = (self.resolve(wld, &x.mode, &x.input, false), self.resolve(wld, &x.mode, &x.output, true));
                let class = self.class(wld, &x, &i, &q);
                let prev = q.as_ref().and_then(|p| std::fs::read(p).ok());
                Multi { nd: x, input: i, output: q, class, prev }
            }).collect()
        }).collect();
        let before = self.tree();
        let prev: Vec<Option<Vec<u8>>> = outs.iter().map(|p| p.as_ref().and_then(|p| std::fs::read(p).ok())).collect();
        let mut starts = vec![];
        let rans = if nds.len() == 1 && edits.is_empty() {
            wld.tick += 1;
            starts.push(wld.tick);
            vec![self.run_single(wld, &nds[0])]
        } else { self.run_group(wld, &nds, &sched, &edits, &mut starts) };
        // edits the schedule did not reach
        let reached: BTreeSet<usize> = sched.iter().filter(|s| s.0 == 'E').map(|s| s.1).collect();
        let after = self.tree();
        for (i, e) in edits.iter().enumerate() { if !reached.contains(&i) { self.edit(wld, e); } }
        let touched_by_edit: BTreeSet<PathBuf> = edits.iter().filter_map(|e| e.get(1).map(|p| norm(&self.root.join(Self::pb(p))))).collect();
        let grouped = nds.len() > 1;
        if grouped { st.probe("concurrent-builds"); }

        let shared_out = |i: usize| outs.iter().enumerate().any(|(j, x)| j != i && x.is_some() && *x == outs[i]);
        for i in 0..nds.len() {
            let (nd, ran, class) = (&nds[i], &rans[i], &classes[i]);
            let input = &ins[i];
            let out = &outs[i];
            let edited = input.as_ref().map(|p| touched_by_edit.contains(p) || std::fs::read_link(p).is_ok() && !edits.is_empty()).unwrap_or(false);
            o.sub += 1;
            o.events += ran.u32(832) as u64;
            o.sim_ns += (ran.i64(16) - wld.clock).max(0) as u64;
            let h = u64::from_le_bytes(ran.shm[2208..2216].try_into().unwrap());
            o.mix(h);
            o.mix(rng::hash(format!("{:?}", ran.end).as_bytes()));
            o.mix(rng::hash(&self.anon(&ran.stdout)));
            if !ran.killed() { o.mix(rng::hash(&self.anon(&ran.stderr))); }
            o.interleaving = rng::mix(o.interleaving ^ h);
            for c in 0..16 { for a in 1..9 { let v = ran.fired(c, a); if v > 0 { st.fire(&format!("{}:{}", CLS[c], ACT[a]), v as u64); o.nontrivial = true; } } }
            if prev[i].is_some() || !class.valid().is_some() || grouped || !edits.is_empty() || nd.cargo { o.nontrivial = true; }
            st.probe(&format!("build of {} input", class.name()));
            let ok = ran.end == End::Exit(0);
            if ok { st.probe("builds-succeeded") } else if ran.killed() { st.probe("builds-killed") } else { st.probe("builds-failed") }
            if verbose {
                o.trace.push(format!("node {} mode={} input={} output={} ({}): {:?}", i, nd.mode, show(&nd.input), show(&nd.output), class.name(), ran.end));
                for l in ran.log() { o.trace.push(format!("    {}", l)); }
                o.trace.push(format!("    stdout {}", show(&ran.stdout)));
                o.trace.push(format!("    stderr {}", show(&ran.stderr)));
            }
            if !multi[i].is_empty() { self.judge_multi(wld, cargo, nd, &multi[i], ran, T0 + starts[i], edits.is_empty(), grouped, st, o); continue; }
            let what = format!("{} build of a {} input ended {:?}", nd.mode, class.name(), ran.end);
            let dest: Option<Vec<u8>> = if to_stdout(&nd.mode) { Some(ran.stdout.clone()) } else { out.as_ref().and_then(|p| std::fs::read(p).ok()) };
            let outfile = !to_stdout(&nd.mode);
            let out_ok = !outfile || self.spelled(wld, &nd.mode, &nd.output, true).map(|p| creatable(&p, 8)).unwrap_or(false);
            let clean = ran.u32(1104) == 0 && ran.unrecov() == 0;
            let recoverable_only = ran.unrecov() == 0 && !ran.killed();
            let same_out = dest == prev[i];

            if ran.hung() { st.probe("did-not-terminate"); o.viol("C14", "did-not-terminate", format!("{} after {} calls", what, ran.u32(832))); }

            // ---- success means the complete module
            if ok && nd.mode != "cmd-noargs" {
                let mut accept: Vec<Class> = vec![];
                let mut judge = true;
                if edited {
                    accept.push(class.clone());
                    for e in &edits {
                        if e.len() > 2 && w(e, 0) == "pput" && w(e, 4) == "rename" { let c = self.refs.of_file(&e[2]); accept.push(c) } else { judge = false }
                    }
                } else { accept.push(class.clone()); }
                let good = accept.iter().any(|c| match c { Class::Valid(m, _) => dest.as_deref() == Some(&m[..]), _ => false });
                if judge && !good && !(0..nds.len()).any(|j| j != i && outs[j].is_some() && outs[j] == outs[i] && rans[j].end != End::Exit(0)) {
                    let d = match (class.valid(), &dest) { (Some(m), Some(d)) => diff(d, m), (Some(_), None) => "there is no output".into(), (None, _) => "there is no module for that input".into() };
                    o.viol("C03", "success-without-complete-module", format!("{}: {}", what, d));
                    if !edited {
                        if clean && class.valid().is_some() { o.viol("C07", "module-depends-on-surroundings", format!("{}: {}", what, d)); }
                        if input.is_some() { o.viol("C13", "module-does-not-match-file", format!("{}: {}", what, d)); }
                    }
                }
                if let (Class::Valid(_, Err(why)), false) = (class, edited) { o.viol("C13", "half-read", format!("{}: {}", what, why)); }
            }
            if class.valid().is_some() && !ok && recoverable_only && !ran.hung() && out_ok && !edited {
                st.probe("valid-build-failed");
                let kind = if clean { "healthy-build-failed" } else { "transient-fault-failed-build" };
                o.viol("C03", kind, format!("{}: stderr {}", what, show(&self.anon(&ran.stderr))));
                o.viol("C28", "build-needs-something-else", format!("{}: stderr {}", what, show(&self.anon(&ran.stderr))));
            }
            if !ok && recoverable_only && !ran.hung() { self.said = Some(self.anon(&ran.stderr)); }
            // ---- a world in which nothing else is in reach
            if let Some(f) = nd.faults.iter().find(|f| f.starts_with(b"f:ELSE:")).filter(|_| !edited) {
                let _ = f;
                o.nontrivial = true;
                st.probe("nothing-else-in-reach");
                if nd.faults.iter().any(|f| f.starts_with(b"f:FDS:")) { st.fire("FDS:LIM", 1); }
                if ok && class.valid().is_some() && dest.as_deref() != class.valid().map(|m| &m[..]) { o.viol("C28", "result-depends-on-something-else", format!("{}: {}", what, diff(dest.as_deref().unwrap_or(b""), class.valid().unwrap()))); }
                if let (Class::Parse(r), false, true) = (class, ok, recoverable_only && !ran.hung()) {
                    if !String::from_utf8_lossy(&ran.stderr).contains(&*String::from_utf8_lossy(r)) { o.viol("C28", "report-needs-something-else", format!("{}: stderr {}", what, show(&self.anon(&ran.stderr)))); }
                }
            }
            // ---- a file replaced as a whole in the middle: one version of it, all of it
            if edited && !ran.hung() && !ran.killed() && nds.len() == 1 {
                let mut versions = vec![class.clone()];
                let mut whole = true;
                for e in &edits {
                    if w(e, 0) == "pput" && w(e, 4) == "rename" && norm(&self.root.join(Self::pb(&e[1]))) == *input.as_ref().unwrap() { versions.push(self.refs.of_file(&e[2])); }
                    else if w(e, 0) == "plink" && norm(&self.root.join(Self::pb(&e[1]))) == *input.as_ref().unwrap() {
                        match std::fs::read(Self::pb(&self.expand(&e[2]))) { Ok(b) => versions.push(self.refs.of_file(&b)), Err(_) => versions.push(Class::Unreadable) }
                    } else { whole = false; }
                }
                if whole {
                    let names: Vec<&str> = versions.iter().map(|c| c.name()).collect();
                    let what = format!("{} build while its route file was replaced (versions: {}) ended {:?}", nd.mode, names.join(", "), ran.end);
                    st.probe("route-file-replaced-during-build");
                    if ok && !versions.iter().any(|c| c.valid().map(|m| dest.as_deref() == Some(&m[..])).unwrap_or(false)) {
                        let d = versions.iter().filter_map(|c| c.valid()).map(|m| diff(dest.as_deref().unwrap_or(b""), m)).next_back().unwrap_or("there is no module for any version".into());
                        o.viol("C19", "blend-of-versions", format!("{}: {}", what, d));
                    }
                    if !ok && recoverable_only && out_ok && versions.iter().all(|c| c.valid().is_some()) { o.viol("C19", "failed-between-valid-versions", format!("{}: stderr {}", what, show(&self.anon(&ran.stderr)))); }
                    if !ok && recoverable_only && out_ok && versions.iter().all(|c| matches!(c, Class::Valid(..) | Class::Parse(_))) && ran.fired_cls(5) == ran.fired(5, 2) + ran.fired(5, 3) + ran.fired(5, 8) {
                        let said = String::from_utf8_lossy(&ran.stderr);
                        if !versions.iter().any(|c| matches!(c, Class::Parse(r) if said.contains(&*String::from_utf8_lossy(r)))) { o.viol("C19", "report-of-no-version", format!("{}: {}", what, show(&self.anon(&ran.stderr)))); }
                        st.probe("report-while-replaced");
                    }
                    if !ok && recoverable_only && out_ok && if outfile { !same_out } else { !ran.stdout.is_empty() } { o.viol("C19", "rejection-changed-output", what.clone()); }
                }
            }
            // ---- rejection
            if class.valid().is_none() && !edited && nd.mode != "cmd-noargs" {
                if ok {
                    o.viol("C04", "rejected-input-reported-as-success", what.clone());
                    o.viol("C12", "failure-masked", what.clone());
                    if matches!(class, Class::NotUtf8 | Class::Parse(_)) { o.viol("C13", "damaged-file-accepted", what.clone()); }
                }
                if outfile && !same_out && !shared_out(i) {
                    o.viol("C04", "rejected-input-changed-output", format!("{}: output was {}, is {}", what, prev[i].as_deref().map(show).unwrap_or("absent".into()), dest.as_deref().map(show).unwrap_or("absent".into())));
                }
            }
            if !ok && !edited && outfile && !shared_out(i) && ran.u32(2240) > 0 && !same_out && ran.fired_cls(2) == 0 && ran.fired_cls(3) == 0 && !ran.killed() && ran.fired_cls(9) == 0 {
                o.viol("C04", "read-failure-changed-output", format!("{}: output was {}, is {}", what, prev[i].as_deref().map(show).unwrap_or("absent".into()), dest.as_deref().map(show).unwrap_or("absent".into())));
            }
            if ok && input.is_some() && nd.mode != "cmd-noargs" && ran.u32(2240) > 0 && nd.faults.iter().any(|f| f.starts_with(b"f:OPEN_IN:ERR:0:") && f.ends_with(b":1")) {
                o.viol("C04", "unreadable-input-reported-as-success", what.clone());
            }
            // ---- whatever stopped it, no mixture of old and new
            if outfile && !edited && !shared_out(i) {
                let fine = same_out || match (class.valid(), &dest) { (Some(m), Some(d)) => m.starts_with(d), (Some(_), None) => true, _ => false };
                if !ok && prev[i].is_some() && !same_out { st.probe("stopped-build-over-earlier-output"); }
                if !fine { o.viol("C18", "mixed-output", format!("{}: the output was {}, is {}{}", what, prev[i].as_deref().map(show).unwrap_or("absent".into()), dest.as_deref().map(show).unwrap_or("absent".into()), match (class.valid(), &dest) { (Some(m), Some(d)) => format!("; {}", diff(d, m)), _ => String::new() })); }
            }
            // ---- healing
            if nd.faults.is_empty() && !grouped && edits.is_empty() && outfile && class.valid().is_some() && out_ok && !ran.hung() {
                if !ok { o.viol("C05", "undisturbed-build-failed", format!("{}: stderr {}", what, show(&self.anon(&ran.stderr)))); }
                else if dest.as_deref() != class.valid().map(|m| &m[..]) {
                    o.viol("C05", "residue-survived", format!("{}: {}", what, diff(dest.as_deref().unwrap_or(b""), class.valid().unwrap())));
                }
                if prev[i].is_some() { st.probe("rebuild-over-residue"); }
            }
            // ---- isolation from other builds
            if grouped && !edited && !ran.hung() {
                if let Some(m) = class.valid() {
                    if recoverable_only && out_ok && (!ok || dest.as_deref() != Some(&m[..])) {
                        o.viol("C10", "concurrent-build-disturbed", format!("{}: {}", what, dest.as_deref().map(|d| diff(d, m)).unwrap_or("no output".into())));
                    }
                } else if ok || (outfile && !same_out) { o.viol("C10", "concurrent-build-disturbed", format!("{} (its output changed: {})", what, !same_out)); }
            }
            if ran.u32(844) > 0 {
                let p = ran.shm[848..1104].split(|c| *c == 0).next().unwrap_or(b"").to_vec();
                o.viol("C10", "writes-elsewhere", format!("{}: tried to write {}", what, show(&p)));
            }
            // ---- standard output
            if to_stdout(&nd.mode) && !edited {
                match class.valid() {
                    Some(m) => {
                        if ok && ran.stdout[..] != m[..] { o.viol("C11", "impure-stdout", format!("{}: {}", what, diff(&ran.stdout, m))); }
                        if !ok && !m.starts_with(&ran.stdout) { o.viol("C11", "impure-stdout-on-failure", format!("{}: {}", what, diff(&ran.stdout, m))); }
                        if !ok && ran.u32(2240) > 0 && ran.fired_cls(4) == 0 && !ran.killed() && !ran.stdout.is_empty() && ran.fired_cls(9) == 0 {
                            o.viol("C11", "stdout-despite-unreadable-input", format!("{}: stdout {}", what, show(&ran.stdout)));
                        }
                    }
                    None => if !ran.stdout.is_empty() { o.viol("C11", "stdout-despite-rejected-input", format!("{}: stdout {}", what, show(&ran.stdout))); }
                }
            }
            // ---- the report
            if let Class::Parse(_) = class {
                let only_stderr = (0..16).all(|c| c == 5 || c == 12 || ran.fired_cls(c) == ran.fired(c, 3) + ran.fired(c, 2) + ran.fired(c, 8));
                let killed = ran.killed();
                if !edited && !killed && !grouped && only_stderr && ran.fired_cls(5) > 0 && !ran.hung() && !ok {
                    let hard = |f: &&Vec<u8>| f.starts_with(b"f:STDERR_W:ERR") || f.starts_with(b"f:STDERR_W:ZERO") || f.starts_with(b"f:ANY:");
                    let sticky = nd.faults.iter().filter(hard).all(|f| f.ends_with(b":1"));
                    let unrec = ran.fired(5, 1) + ran.fired(5, 4) > 0;
                    if !unrec || sticky {
                        // what the same build reports on a healthy stream, with ordinary surroundings
                        let mut plain = World { env: wld.env.clone(), cwd: wld.cwd.clone(), rnd: REF_RND, clock: T0 * 1_000_000_000, step: 1, pid: 99, who: 0, tick: 0 };
                        plain.env.retain(|k, _| k.starts_with("WFNODE") || k == "CARGO_MANIFEST_DIR" || k == "OUT_DIR" || k == "PATH" || k == "HOME");
                        let key = (nd.mode.clone(), [nd.input.clone(), std::fs::read(input.as_ref().unwrap()).unwrap_or_default(), format!("{:?} {:?}", plain.env, plain.cwd).into_bytes()].concat());
                        let want = match self.errref.get(&key) { Some(x) => x.clone(), None => {
                            let c = Node { faults: vec![], ..nd.clone() };
                            let rr = self.run_single(&plain, &c);
                            let e = rr.stderr.clone();
                            if self.errref.len() > 1000 { self.errref.clear(); }
                            self.errref.insert(key, e.clone());
                            e
                        } };
                        let got = ran.stderr.clone();
                        st.probe("report-on-flaky-stderr");
                        if !unrec && got != want { o.viol("C12", "report-garbled", format!("{}: {}", what, diff(&got, &want))); }
                        if unrec && !want.starts_with(&got) { o.viol("C12", "report-not-a-prefix", format!("{}: {}", what, diff(&got, &want))); }
                    }
                }
            }
            // ---- a failure says what it was
            if !ok && !ran.killed() && !ran.hung() && ran.fired_cls(5) == 0 && ran.fired_cls(9) == 0 && !edited { self.explained(wld, nd, ran, class, st, o, &what); }
            // ---- the process afterwards
            if ran.end == End::Exit(77) { o.viol("C17", "process-changed", format!("{}: {}", what, show(&self.anon(&ran.stderr)))); }
            // ---- what Cargo is told
            if (nd.mode == "env-file" || nd.mode == "ex-cli") && !ran.killed() && !ran.hung() && ran.fired_cls(4) == ran.fired(4, 2) + ran.fired(4, 3) + ran.fired(4, 8) && ran.fired_cls(9) == 0 && !matches!(class, Class::Misconfig) {
                let said = announced(&ran.stdout, &self.root.join("pkg").join(if nd.mode == "ex-cli" { "examples/cli" } else { "" }));
                let want = input.clone().unwrap();
                let same = |p: &PathBuf| norm(p) == want;
                if said.is_empty() { o.viol("C06", "input-not-announced", format!("{}: stdout {}", what, show(&self.anon(&ran.stdout)))); }
                else if !said.iter().all(same) { o.viol("C06", "wrong-path-announced", format!("{}: announced {:?} instead of {:?}", what, said, want)); }
            }
            if nd.cargo {
                cargo.ran = true;
                cargo.ok = ok;
                cargo.start = T0 + starts[i];
                cargo.watched = announced(&ran.stdout, &self.root.join("pkg").join(if nd.mode == "ex-cli" { "examples/cli" } else { "" }));
                if nd.faults.is_empty() && edits.is_empty() && !ran.hung() {
                    let reported = !ok && class.valid().is_none();
                    if !reported { self.quiescent(wld, nd, o, &what); }
                }
            }
            // the output's timestamp, in simulated time
            if let Some(p) = out { if let Some((b'f', _, ns, _)) = after.get(p) { if before.get(p).map(|x| x.2) != Some(*ns) { wld.tick += 1; sys::set_mtime(p, (T0 + wld.tick) * 1_000_000_000); } } }
        }
        // ---- several builds of one route file into one output
        for i in 0..nds.len() {
            let racing: Vec<usize> = (0..nds.len()).filter(|j| outs[*j].is_some() && outs[*j] == outs[i] && multi[*j].is_empty()).collect();
            if racing.len() < 2 || racing[0] != i || !edits.is_empty() { continue; }
            let Some(want) = classes[i].valid() else { continue };
            if racing.iter().any(|j| classes[*j].valid() != Some(want) || rans[*j].unrecov() > 0 || rans[*j].killed() || rans[*j].hung()) { continue; }
            if !outs[i].as_ref().map(|p| creatable(p, 8)).unwrap_or(false) { continue; }
            st.probe("builds-racing-for-one-output");
            for j in &racing { if rans[*j].end != End::Exit(0) { o.viol("C16", "racing-build-failed", format!("{} build {} of {} into one output ended {:?}: stderr {}", nds[*j].mode, j, racing.len(), rans[*j].end, show(&self.anon(&rans[*j].stderr)))); } }
            let have = outs[i].as_ref().and_then(|p| std::fs::read(p).ok());
            if have.as_deref() != Some(&want[..]) { o.viol("C16", "racing-builds-corrupted-output", format!("{} builds into one output left {}", racing.len(), have.as_deref().map(|h| diff(h, want)).unwrap_or("nothing".into()))); }
        }
        // ---- nothing else was touched
        let outs: Vec<Option<PathBuf>> = outs.into_iter().chain(multi.iter().flatten().map(|m| m.output.clone())).collect();
        // (an output that is a link is the file it leads to)
        let led: Vec<PathBuf> = outs.iter().flatten().filter_map(|p| lead(p, 8)).collect();
        let allowed = |p: &PathBuf| touched_by_edit.contains(p) || outs.iter().flatten().chain(&led).any(|x| x == p);
        for (p, v) in &after {
            if allowed(p) { continue; }
            match before.get(p) {
                None => o.viol("C10", "new-file", format!("{} appeared", self.rel(p))),
                Some(x) if x.1 != v.1 || x.0 != v.0 => o.viol("C10", "file-changed", format!("{}: {}", self.rel(p), diff(&v.1, &x.1))),
                Some(x) if x.2 != v.2 => o.viol("C10", "file-rewritten", format!("{} was written to", self.rel(p))),
                Some(x) if x.3 != v.3 => o.viol("C10", "file-mode-changed", format!("{}: {:o} instead of {:o}", self.rel(p), v.3, x.3)),
                _ => {}
            }
        }
        for p in before.keys() { if !after.contains_key(p) && !touched_by_edit.contains(p) {
            if !outs.iter().flatten().any(|x| x == p) { o.viol("C10", "file-lost", format!("{} is gone", self.rel(p))); }
        } }
        let _ = sc;
    }

    /// The cause of a failure is on standard error (which worked).
    #[allow(clippy::too_many_arguments)]
    fn explained(&mut self, wld: &World, nd: &Node, ran: &Ran, class: &Class, st: &mut Stats, o: &mut Outcome, what: &str) {
        let said = String::from_utf8_lossy(&ran.stderr).to_string();
        if said.trim().is_empty() { o.viol("C15", "silent-failure", what.into()); return; }
        st.probe("failure-explained");
        let last = |p: &[u8]| { let p = String::from_utf8_lossy(p).to_string(); p.rsplit('/').next().unwrap_or("").to_string() };
        let (inp, out) = (if nd.mode == "ex-cli" { "example.routes".into() } else { last(&nd.input) }, if nd.mode.starts_with("ex-") { "routes.rs".into() } else { last(&nd.output) });
        let Some(fails) = ran.failures() else { return };
        let fails: Vec<_> = fails.into_iter().filter(|f| matches!(f.0, 0..=4)).collect();
        if !fails.is_empty() {
            let texts: BTreeSet<String> = fails.iter().map(|f| strerror(f.1)).collect();
            if !texts.iter().any(|t| said.contains(t)) { o.viol("C15", "cause-not-named", format!("{}: it failed with {:?}, standard error says {}", what, texts, show(&self.anon(&ran.stderr)))); }
            // the file, when it is clear which one
            let classes: BTreeSet<usize> = fails.iter().map(|f| f.0).collect();
            if classes.iter().all(|c| *c < 2) && !said.contains(&inp) { o.viol("C15", "file-not-named", format!("{}: reading {:?} failed, standard error says {}", what, inp, show(&self.anon(&ran.stderr)))); }
            if classes.iter().all(|c| *c == 2) && !said.contains(&out) { o.viol("C15", "file-not-named", format!("{}: creating {:?} failed, standard error says {}", what, out, show(&self.anon(&ran.stderr)))); }
            return;
        }
        if ran.unrecov() > 0 { return; }
        match class {
            Class::NotUtf8 => if !said.contains(&inp) { o.viol("C15", "file-not-named", format!("{}: standard error says {}", what, show(&self.anon(&ran.stderr)))); },
            Class::Parse(report) => {
                if !said.contains(&inp) { o.viol("C15", "file-not-named", format!("{}: standard error says {}", what, show(&self.anon(&ran.stderr)))); }
                let r = String::from_utf8_lossy(report);
                if !said.contains(&*r) { o.viol("C15", "report-missing", format!("{}: {}", what, diff(&ran.stderr, report))); }
            }
            Class::Misconfig => if nd.mode.starts_with("env-") || nd.mode.starts_with("ex-") {
                let bad: Vec<&str> = ["CARGO_MANIFEST_DIR", "OUT_DIR"].into_iter().filter(|k| !matches!(wld.env.get(*k), Some(Some(v)) if std::str::from_utf8(v).is_ok())).collect();
                if !bad.is_empty() && !bad.iter().any(|k| said.contains(k)) { o.viol("C15", "variable-not-named", format!("{}: {:?}, standard error says {}", what, bad, show(&self.anon(&ran.stderr)))); }
            },
            _ => {}
        }
    }

    /// One process that runs several builds, one after the other.
    #[allow(clippy::too_many_arguments)]
    fn judge_multi(&mut self, wld: &mut World, cargo: &mut CargoState, nd: &Node, pairs: &[Multi], ran: &Ran, start: i64, no_edits: bool, grouped: bool, st: &mut Stats, o: &mut Outcome) {
        st.probe("several-builds-in-one-script");
        let ok = ran.end == End::Exit(0);
        let names: Vec<&str> = pairs.iter().map(|m| m.class.name()).collect();
        let what = format!("{} script with builds of {} inputs ended {:?}", nd.mode, names.join(", "), ran.end);
        let clean = ran.u32(1104) == 0 && ran.unrecov() == 0;
        let recoverable_only = ran.unrecov() == 0 && !ran.killed();
        if ran.hung() { o.viol("C14", "did-not-terminate", format!("{} after {} calls", what, ran.u32(832))); return; }
        // edits during the run are judged by what Cargo ends up with
        let bad = pairs.iter().position(|m| m.class.valid().is_none());
        let dirs = pairs.iter().all(|m| m.output.as_ref().map(|p| creatable(p, 8)).unwrap_or(false));
        if no_edits {
            for (k, m) in pairs.iter().enumerate() {
                let dest = m.output.as_ref().and_then(|p| std::fs::read(p).ok());
                match m.class.valid() {
                    Some(want) => {
                        if dest != m.prev && !dest.as_ref().map(|d| want.starts_with(d)).unwrap_or(true) { o.viol("C18", "mixed-output", format!("{}, build {}: {}", what, k, diff(dest.as_deref().unwrap_or(b""), want))); }
                        let due = ok || (recoverable_only && dirs && bad.map(|b| k < b).unwrap_or(true));
                        if due && dest.as_deref() != Some(&want[..]) {
                            let d = dest.as_deref().map(|d| diff(d, want)).unwrap_or("no output".into());
                            let d = format!("{}, build {}: {}", what, k, d);
                            if ok { o.viol("C03", "success-without-complete-module", d.clone()); } else { o.viol("C03", "transient-fault-failed-build", d.clone()); }
                            if clean { o.viol("C07", "module-depends-on-surroundings", d.clone()); }
                            if nd.faults.is_empty() && !grouped { o.viol("C05", "residue-survived", d.clone()); }
                            if grouped { o.viol("C10", "concurrent-build-disturbed", d); }
                        }
                        if bad.map(|b| k > b).unwrap_or(false) && !ran.killed() && dest != m.prev { o.viol("C04", "build-after-a-failed-one", format!("{}, build {}", what, k)); }
                    }
                    None => if dest != m.prev { o.viol("C04", "rejected-input-changed-output", format!("{}, build {}", what, k)); o.viol("C18", "mixed-output", format!("{}, build {}", what, k)); }
                }
            }
            if ok && bad.is_some() { o.viol("C04", "rejected-input-reported-as-success", what.clone()); o.viol("C12", "failure-masked", what.clone()); }
            if !ok && bad.is_none() && recoverable_only && dirs { o.viol("C03", if clean { "healthy-build-failed" } else { "transient-fault-failed-build" }, what.clone()); }
        }
        if ran.u32(844) > 0 {
            let p = ran.shm[848..1104].split(|c| *c == 0).next().unwrap_or(b"").to_vec();
            o.viol("C10", "writes-elsewhere", format!("{}: tried to write {}", what, show(&p)));
        }
        if ran.end == End::Exit(77) { o.viol("C17", "process-changed", format!("{}: {}", what, show(&self.anon(&ran.stderr)))); }
        if !ok && !ran.killed() && ran.fired_cls(5) == 0 && ran.fired_cls(9) == 0 && ran.stderr.is_empty() { o.viol("C15", "silent-failure", what.clone()); }
        let said = announced(&ran.stdout, &self.root.join("pkg"));
        if nd.mode == "env-file" && !ran.killed() && ran.fired_cls(4) == ran.fired(4, 2) + ran.fired(4, 3) + ran.fired(4, 8) && ran.fired_cls(9) == 0 && pairs.iter().all(|m| !matches!(m.class, Class::Misconfig)) {
            let inputs: Vec<&PathBuf> = pairs.iter().filter_map(|m| m.input.as_ref()).collect();
            // every build that was begun; without a failure, all of them
            for (k, p) in inputs.iter().enumerate() {
                let begun = ok || (no_edits && recoverable_only && dirs && bad.map(|b| k <= b).unwrap_or(true));
                if begun && !said.iter().any(|s| norm(s) == **p) { o.viol("C06", "input-not-announced", format!("{}, build {}: stdout {}", what, k, show(&self.anon(&ran.stdout)))); }
            }
            if let Some(x) = said.iter().find(|s| !inputs.iter().any(|p| norm(s) == **p)) { o.viol("C06", "wrong-path-announced", format!("{}: announced {:?}", what, x)); }
        }
        if nd.cargo {
            *cargo = CargoState { ran: true, ok, start, watched: said };
            if nd.faults.is_empty() && no_edits && (ok || bad.is_none()) { for m in pairs { self.quiescent(wld, &m.nd, o, &what); } }
        }
        for m in pairs { if let Some(p) = &m.output { if p.is_file() { wld.tick += 1; sys::set_mtime(p, (T0 + wld.tick) * 1_000_000_000); } } }
    }

    fn steps(&self, a: &[u8]) -> std::ffi::OsString {
        let root = self.root.to_string_lossy();
        std::ffi::OsString::from_vec(String::from_utf8_lossy(a).replace(":@/", &format!(":{}/", root)).into_bytes())
    }
    /// One process in which several builders are made, told things and run, in any order.
    fn script(&mut self, wld: &mut World, l: &Line, faults: Vec<Vec<u8>>, st: &mut Stats, o: &mut Outcome, verbose: bool) {
        let steps: Vec<Vec<u8>> = l.iter().skip(1).filter(|x| !x.starts_with(b"f:")).cloned().collect();
        let nd = Node { mode: "script".into(), input: b"--none".to_vec(), output: b"--none".to_vec(), faults, cargo: false, extra: steps.iter().map(|s| (s.clone(), vec![])).collect() };
        // what has to come of it
        #[derive(Clone, Default)]
        struct B { dirs: Option<(PathBuf, PathBuf)>, source: Option<Result<PathBuf, Vec<u8>>>, target: Option<Option<PathBuf>> }
        let mut slots: BTreeMap<String, B> = BTreeMap::new();
        let mut env = wld.env.clone();
        let mut cwd = wld.cwd.clone();
        let mut files: BTreeMap<PathBuf, Vec<u8>> = self.tree().into_iter().filter(|(_, v)| v.0 == b'f').map(|(p, v)| (p, v.1)).collect();
        let mut said: Vec<PathBuf> = vec![];
        let mut printed: Vec<u8> = vec![];
        let mut fails: Option<String> = None;
        let mut builds = 0;
        for step in &steps {
            let t = self.steps(step).to_string_lossy().to_string();
            let (op, rest) = t.split_once(':').unwrap_or((&t, ""));
            let (a, b) = rest.split_once(':').unwrap_or((rest, ""));
            match op {
                "new" => { slots.insert(a.into(), B::default()); }
                "env" => {
                    let g = |k: &str| env.get(k).cloned().flatten().map(|v| Self::pb(&v));
                    match (g("CARGO_MANIFEST_DIR"), g("OUT_DIR")) { (Some(x), Some(y)) => { slots.insert(a.into(), B { dirs: Some((x, y)), ..B::default() }); } _ => { fails = Some("a variable is not set".into()); break; } }
                }
                "in" => if let Some(s) = slots.get_mut(a) { s.source = Some(Ok(b.into())); },
                "conf" => if let Some(s) = slots.get_mut(a) { s.source = Some(Err(b.as_bytes().to_vec())); },
                "out" => if let Some(s) = slots.get_mut(a) { s.target = Some(Some(b.into())); },
                "stdout" => if let Some(s) = slots.get_mut(a) { s.target = Some(None); },
                "drop" => { slots.remove(a); }
                "set" => { env.insert(a.into(), Some(b.as_bytes().to_vec())); }
                "unset" => { env.insert(a.into(), None); }
                "cd" => cwd = norm(&cwd.join(rest)),
                "write" => { files.insert(norm(&cwd.join(a)), b.as_bytes().to_vec()); }
                "build" | "tbuild" => if let Some(s) = slots.remove(a) {
                    builds += 1;
                    let (Some(src), Some(tgt)) = (s.source, s.target) else { fails = Some("an incomplete builder".into()); break };
                    let class = match src {
                        Ok(p) => {
                            let p = norm(&cwd.join(match &s.dirs { Some(d) => d.0.join(p), None => p }));
                            if s.dirs.is_some() { said.push(p.clone()); }
                            match files.get(&p) { Some(x) => { let x = x.clone(); self.refs.of_file(&x) } None => Class::Unreadable }
                        }
                        Err(c) => self.refs.of_config(&c),
                    };
                    let Some(m) = class.valid() else { fails = Some(format!("build {} of a {} input", builds, class.name())); break };
                    match tgt {
                        None => printed.extend_from_slice(m),
                        Some(p) => {
                            let p = norm(&cwd.join(match &s.dirs { Some(d) => d.1.join(p), None => p }));
                            if p.is_dir() || !p.parent().map(|d| d.is_dir()).unwrap_or(false) { fails = Some("an output in a missing folder".into()); break; }
                            files.insert(p, m.to_vec());
                        }
                    }
                },
                _ => {}
            }
        }
        wld.tick += 1;
        let ran = self.run_single(wld, &nd);
        o.sub += 1;
        o.events += ran.u32(832) as u64;
        o.sim_ns += (ran.i64(16) - wld.clock).max(0) as u64;
        let h = u64::from_le_bytes(ran.shm[2208..2216].try_into().unwrap());
        o.mix(h);
        o.mix(rng::hash(format!("{:?}", ran.end).as_bytes()));
        o.mix(rng::hash(&self.anon(&ran.stdout)));
        o.mix(rng::hash(&self.anon(&ran.stderr)));
        o.interleaving = rng::mix(o.interleaving ^ h);
        o.nontrivial = builds > 1;
        for c in 0..16 { for a in 1..9 { let v = ran.fired(c, a); if v > 0 { st.fire(&format!("{}:{}", CLS[c], ACT[a]), v as u64); } } }
        for _ in 0..builds { st.probe("builds-by-interleaved-builders"); }
        if let Some(w) = &fails { st.probe(&format!("script-must-fail: {}", w.trim_start_matches(|c: char| c != 'a'))); }
        if verbose {
            o.trace.push(format!("script: {:?}", ran.end));
            for l in ran.log() { o.trace.push(format!("    {}", l)); }
            o.trace.push(format!("    stdout {}", show(&ran.stdout)));
            o.trace.push(format!("    stderr {}", show(&ran.stderr)));
        }
        let what = format!("a script of {} builds ended {:?}", builds, ran.end);
        if ran.hung() { o.viol("C29", "builder-hangs", what); return; }
        if ran.unrecov() > 0 || ran.killed() { return; }
        let ok = ran.end == End::Exit(0);
        match &fails {
            None if !ok => o.viol("C29", "builder-fails", format!("{}: stderr {}", what, show(&self.anon(&ran.stderr)))),
            Some(w) if ok => o.viol("C29", "builder-succeeds", format!("{} in spite of {}", what, w)),
            _ => {}
        }
        let have: BTreeMap<PathBuf, Vec<u8>> = self.tree().into_iter().filter(|(_, v)| v.0 == b'f').map(|(p, v)| (p, v.1)).collect();
        for (p, want) in &files {
            match have.get(p) { None => o.viol("C29", "builder-confused", format!("{}: {} is not there", what, self.rel(p))), Some(x) if x != want => o.viol("C29", "builder-confused", format!("{}: {}: {}", what, self.rel(p), diff(x, want))), _ => {} }
        }
        for p in have.keys() { if !files.contains_key(p) { o.viol("C29", "builder-confused", format!("{}: {} appeared", what, self.rel(p))); } }
        let got = announced(&ran.stdout, &self.root.join("pkg"));
        let got: Vec<PathBuf> = got.iter().map(|p| norm(p)).collect();
        // a build may name its file more than once
        let mut g = got.clone(); g.dedup();
        let mut s = said.clone(); s.dedup();
        if g != s { o.viol("C29", "wrong-file-announced", format!("{}: announced {:?} instead of {:?}", what, got, said)); }
        let rest: Vec<u8> = ran.stdout.split_inclusive(|c| *c == b'\n').filter(|l| !l.starts_with(b"cargo:")).flatten().cloned().collect();
        if rest != printed { o.viol("C29", "wrong-module-printed", format!("{}: {}", what, diff(&rest, &printed))); }
    }

    /// Nothing is going on: the module must be that of the current route file.
    fn quiescent(&mut self, wld: &World, nd: &Node, o: &mut Outcome, how: &str) {
        let (Some(i), Some(p)) = (self.resolve(wld, &nd.mode, &nd.input, false), self.resolve(wld, &nd.mode, &nd.output, true)) else { return };
        let class = match std::fs::read(&i) { Ok(b) => self.refs.of_file(&b), Err(_) => Class::Unreadable };
        let have = std::fs::read(&p).ok();
        match class.valid() {
            Some(m) => if have.as_deref() != Some(&m[..]) {
                o.viol("C06", "stale-module", format!("{}, but the output is not the module of the current route file: {}", how, diff(have.as_deref().unwrap_or(b""), m)));
            },
            None => o.viol("C06", "stale-module", format!("{}, but the current route file is {}", how, class.name())),
        }
    }
    fn rel(&self, p: &Path) -> String { p.strip_prefix(&self.root).unwrap_or(p).display().to_string() }
    /// Output with the scratch location taken out.
    fn anon(&self, b: &[u8]) -> Vec<u8> {
        let s = String::from_utf8_lossy(b).replace(&*self.root.to_string_lossy(), "@");
        // also where output stopped in the middle of it
        let root = self.root.to_string_lossy().to_string();
        let fixed = root.find("wfsim-").map(|k| k + 6).unwrap_or(root.len());
        let mut out = String::new();
        let mut rest = &s[..];
        while let Some(k) = rest.find(&root[..fixed]) {
            let n = rest[k..].bytes().zip(root.bytes()).take_while(|(a, b)| a == b).count();
            out.push_str(&rest[..k]);
            out.push_str("@~");
            rest = &rest[k + n..];
        }
        out.push_str(rest);
        out.into_bytes()
    }
}

fn strerror(e: i32) -> String {
    let s = std::io::Error::from_raw_os_error(e).to_string();
    s.split(" (os error").next().unwrap_or("").to_string()
}
fn to_stdout(mode: &str) -> bool { matches!(mode, "new-stdout" | "new-config-stdout" | "cmd" | "cmd-noargs") }
/// Can a file be created there, through whatever links?
fn creatable(p: &Path, depth: usize) -> bool {
    let folder = p.parent().map(|d| d.is_dir()).unwrap_or(false);
    match std::fs::read_link(p) { Ok(t) => folder && depth > 0 && creatable(&p.parent().unwrap().join(t), depth - 1), Err(_) => folder && !p.is_dir() }
}
fn lead(p: &Path, depth: usize) -> Option<PathBuf> {
    match std::fs::read_link(p) { Ok(t) if depth > 0 => lead(&norm(&p.parent()?.join(t)), depth - 1), Ok(_) => None, Err(_) => Some(norm(p)) }
}
fn mtime(p: &Path) -> Option<i64> { use std::os::unix::fs::MetadataExt; std::fs::metadata(p).ok().map(|m| m.mtime()) }
fn true_mtime_after(d: &Path, t: i64) -> bool {
    std::fs::read_dir(d).map(|rd| rd.flatten().any(|e| { let p = e.path(); if p.is_dir() { true_mtime_after(&p, t) } else { mtime(&p).map(|m| m > t).unwrap_or(false) } })).unwrap_or(false)
}
fn announced(stdout: &[u8], base: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    for l in stdout.split(|c| *c == b'\n') {
        for k in [&b"cargo:rerun-if-changed="[..], b"cargo::rerun-if-changed="] {
            if let Some(p) = l.strip_prefix(k) { v.push(base.join(Procs::pb(p))); }
        }
    }
    v
}
pub fn norm(p: &Path) -> PathBuf {
    let mut o = PathBuf::from("/");
    for c in p.components() {
        match c { std::path::Component::Normal(x) => o.push(x), std::path::Component::ParentDir => { o.pop(); } _ => {} }
    }
    o
}
