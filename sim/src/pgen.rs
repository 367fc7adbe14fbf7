//! Scenario generation for the process engine.
use crate::canon;
use crate::gen;
use crate::rng::Rng;
use crate::scen::Scen;

// errno values
const EPERM: i32 = 1; const ENXIO: i32 = 6; const ENOMEM: i32 = 12; const EBUSY: i32 = 16; const EEXIST: i32 = 17; const ENODEV: i32 = 19; const ENOTDIR: i32 = 20; const EINVAL: i32 = 22; const ENFILE: i32 = 23;
const ETXTBSY: i32 = 26; const ENAMETOOLONG: i32 = 36; const EBADMSG: i32 = 74; const EOVERFLOW: i32 = 75; const ECONNRESET: i32 = 104; const ETIMEDOUT: i32 = 110;
const ENOENT: i32 = 2; const EIO: i32 = 5; const EAGAIN: i32 = 11; const EACCES: i32 = 13; const EISDIR: i32 = 21; const EMFILE: i32 = 24;
const EFBIG: i32 = 27; const ENOSPC: i32 = 28; const EROFS: i32 = 30; const EPIPE: i32 = 32; const ELOOP: i32 = 40; const ESTALE: i32 = 116; const EDQUOT: i32 = 122;

fn f(cls: &str, act: &str, nth: usize, arg: usize, err: i32, sticky: bool) -> Vec<u8> {
    format!("f:{}:{}:{}:{}:{}:{}", cls, act, nth, arg, err, sticky as u8).into_bytes()
}
fn nth(r: &mut Rng, cls: &str) -> usize {
    match cls {
        "OPEN_IN" | "OPEN_OUT" => if r.chance(4, 5) { 0 } else { r.below(3) },
        "READ_IN" => r.skewed(8),
        "STDERR_W" => if r.chance(3, 4) { r.below(12) } else { r.below(200) },
        _ => match r.below(20) { 0..=8 => 0, 9..=12 => r.range(1, 4), 13..=15 => r.below(40), 16 | 17 => r.below(400), _ => r.below(4000) },
    }
}
fn errs(cls: &str) -> &'static [i32] {
    match cls {
        "OPEN_IN" => &[ENOENT, EACCES, EMFILE, EIO, ELOOP, ENOENT, EACCES, EAGAIN, EPERM, ENXIO, ENOMEM, EBUSY, ENODEV, ENOTDIR, ENFILE, ENAMETOOLONG, EOVERFLOW, ETIMEDOUT, ESTALE],
        "READ_IN" => &[EIO, EISDIR, ESTALE, EAGAIN, EIO, EINVAL, ENOMEM, ENXIO, EBADMSG, ETIMEDOUT, ECONNRESET, EOVERFLOW],
        "OPEN_OUT" => &[EACCES, ENOSPC, EROFS, EMFILE, EIO, EISDIR, ENOSPC, EPERM, EAGAIN, ENXIO, ENOMEM, EBUSY, ENFILE, ETXTBSY, EEXIST, ENOENT, ENOTDIR, EDQUOT, ETIMEDOUT, ESTALE],
        "WRITE_OUT" => &[ENOSPC, EIO, EDQUOT, EFBIG, EAGAIN, ENOSPC, EPERM, ENOMEM, EINVAL, EPIPE, ENXIO, ETIMEDOUT, ESTALE, EROFS, ECONNRESET, EBUSY],
        "STDOUT_W" => &[EPIPE, EIO, ENOSPC, EAGAIN, EPIPE, EINVAL, ECONNRESET, ETIMEDOUT, ENOMEM, EFBIG, ENXIO],
        _ => &[EPIPE, EIO, ENOSPC],
    }
}
pub fn transient(r: &mut Rng, out: &mut Vec<Vec<u8>>, classes: &[&str]) {
    if classes.contains(&"READ_IN") && r.chance(1, 12) {
        // what the file system says about sizes is not up to date
        let a = *r.pick(&[0usize, 1, 10, 64, 100, 4096, 1 << 20]);
        let s = r.chance(2, 3);
        let n = if s { 0 } else { r.below(3) };
        out.push(f("STAT", "SHORT", n, a, 0, s));
        return;
    }
    let cls = *r.pick(classes);
    match r.below(4) {
        0 => { for _ in 0..r.range(1, 4) { let n = nth(r, cls); out.push(f(cls, "EINTR", n, 0, 0, false)); } }
        1 => { let n = nth(r, cls); let a = *r.pick(&[1, 1, 2, 3, 7, 64, 511, 1000]); out.push(f(cls, "SHORT", n, a, 0, false)); }
        2 if !cls.starts_with("OPEN") => {
            // a stream that never moves more than this
            let a = *r.pick(&[1usize, 2, 3, 5, 16, 100, 512, 1024, 4096]);
            let s = r.chance(1, 2);
            out.push(f(cls, "SHORT", if s { 0 } else { nth(r, cls) }, a, 0, true));
            if r.chance(1, 2) { for _ in 0..r.range(1, 6) { let n = r.below(40); out.push(f(cls, "EINTR", n, 0, 0, false)); } }
        }
        _ => { let n = nth(r, cls); for k in 0..r.range(1, 12) { out.push(f(cls, "EINTR", n + k, 0, 0, false)); } }
    }
}
pub fn hard(r: &mut Rng, out: &mut Vec<Vec<u8>>, classes: &[&str]) {
    let cls = *r.pick(classes);
    let n = nth(r, cls);
    // Room for a later fault even when the data would go out in one call.
    if matches!(cls, "WRITE_OUT" | "STDOUT_W" | "READ_IN" | "STDERR_W") && r.chance(2, 5) {
        out.push(f(cls, "SHORT", 0, *r.pick(&[1, 7, 50, 300, 1024, 4096]), 0, true));
    }
    if matches!(cls, "WRITE_OUT" | "STDOUT_W" | "STDERR_W") && r.chance(1, 8) { let s = r.chance(1, 2); out.insert(0, f(cls, "ZERO", n, 0, 0, s)); return; }
    let e = *r.pick(errs(cls));
    let s = r.chance(1, 3);
    out.insert(0, f(cls, "ERR", n, 0, e, s));
}
pub fn kill(r: &mut Rng, out: &mut Vec<Vec<u8>>) {
    let act = *r.pick(&["KILL_BEFORE", "KILL_AFTER", "KILL_MID"]);
    let cls = *r.pick(&["OPEN_OUT", "WRITE_OUT", "WRITE_OUT", "CLOSE", "READ_IN", "ANY", "ANY", "META", "META", "SYNC", "OPEN_IN", "OPEN_OTHER", "STAT"]);
    let n = if cls == "ANY" { r.skewed(60) } else { nth(r, cls) };
    if cls == "WRITE_OUT" && r.chance(1, 2) { out.push(f(cls, "SHORT", 0, *r.pick(&[1, 64, 700, 2048]), 0, true)); }
    let a = *r.pick(&[0usize, 1, 10, 100, 1000, 4000]);
    out.insert(0, f(cls, act, n, a, 0, false));
}
fn disk(r: &mut Rng, out: &mut Vec<Vec<u8>>) {
    let which = if r.chance(1, 2) { "DISK" } else { "SDISK" };
    // so many bytes short of the whole module
    if r.chance(2, 5) { let k = match r.below(3) { 0 => r.range(1, 30), 1 => r.range(1, 1024), _ => r.range(1, 9000) }; out.push(f(which, "TAIL", 0, k, 0, false)); return; }
    let n = match r.below(3) { 0 => r.below(64), 1 => r.below(5000), _ => r.below(20000) }; out.push(f(which, "LIM", 0, n, 0, false));
}
fn alloc(r: &mut Rng, out: &mut Vec<Vec<u8>>) { let n = match r.below(3) { 0 => r.below(20), 1 => r.below(300), _ => r.below(6000) }; let s = r.chance(1, 3); out.push(f("ALLOC", "ERR", n, 0, 12, s)); }

const ALL: &[&str] = &["OPEN_IN", "READ_IN", "OPEN_OUT", "WRITE_OUT", "STDOUT_W", "STDERR_W"];

fn faults(r: &mut Rng, classes: &[&str]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for _ in 0..r.range(1, 3) {
        match r.below(12) {
            0..=4 => transient(r, &mut v, classes),
            5..=7 => hard(r, &mut v, classes),
            8 => disk(r, &mut v),
            9 => alloc(r, &mut v),
            10 => kill(r, &mut v),
            _ => { let n = r.below(40); let a = *r.pick(&[1usize, 1000, 3_600_000]); v.push(f("ANY", "DELAY", n, a, 0, r.chance(1, 2))); transient(r, &mut v, classes) }
        }
    }
    v
}

/// (path as the build script gives it, path below the scratch root)
struct Place { inp: (&'static str, &'static str), out: (&'static str, &'static str) }
fn place(r: &mut Rng, mode: &str) -> Place {
    match mode {
        "ex-cli" => return Place { inp: ("../../example.routes", "pkg/example.routes"), out: ("routes.rs", "out/routes.rs") },
        "ex-structured" => return Place { inp: ("--none", "pkg/unused"), out: ("routes.rs", "out/routes.rs") },
        _ => {}
    }
    let env = mode.starts_with("env-") || mode == "no-source" || mode == "no-target";
    let inp = *r.pick(&[("app.routes", "pkg/app.routes"), ("app.routes", "pkg/app.routes"), ("conf/app.routes", "pkg/conf/app.routes"), ("../shared/site.routes", "shared/site.routes"), ("@/abs/in.routes", "abs/in.routes"), ("my routes.routes", "pkg/my routes.routes"), ("sub/../app.routes", "pkg/app.routes"), ("./app.routes", "pkg/app.routes"), ("\u{fc}n\u{ef}.routes", "pkg/\u{fc}n\u{ef}.routes"), ("routes.rs", "pkg/routes.rs"), ("src/app.routes", "pkg/src/app.routes")]);
    let odd = if r.chance(1, 12) { Some(*r.pick(&["~app.routes", "$HOME.routes", "{name}.routes", "{}", "app%20x.routes", "-app.routes", ".routes", "back\\slash.routes", "100%.routes", "a*?.routes", "a'b\".routes", "#app.routes", "app:1=2.routes", "=x.routes", "app.routes.bak", "ROUTES", "tab\there.routes", "-", "-", " app.routes", "app.routes ", "a,b;c.routes", "APP.Routes", "app..routes", "u\u{308}.routes", "app.routes.tmp"])) } else { None };
    let inp = match odd { Some(x) => { let full: &'static str = Box::leak(format!("pkg/{}", x).into_boxed_str()); (x, full) } None => inp };
    let out = if env { *r.pick(&[("routes.rs", "out/routes.rs"), ("routes.rs", "out/routes.rs"), ("gen/routes.rs", "out/gen/routes.rs"), ("@/other/mod.rs", "other/mod.rs"), ("a b.rs", "out/a b.rs"), ("../routes.rs", "routes.rs"), ("routes", "out/routes"), ("{}.rs", "out/{}.rs"), ("-routes.rs", "out/-routes.rs"), ("~routes.rs", "out/~routes.rs"), ("$OUT.rs", "out/$OUT.rs"), (".rs", "out/.rs"), ("-", "out/-"), (" routes.rs", "out/ routes.rs"), ("routes.rs ", "out/routes.rs "), ("ROUTES.RS", "out/ROUTES.RS"), ("routes.tmp", "out/routes.tmp"), ("routes..rs", "out/routes..rs")]) }
              else { *r.pick(&[("../out/routes.rs", "out/routes.rs"), ("@/out/routes.rs", "out/routes.rs"), ("gen.rs", "pkg/gen.rs"), ("-", "pkg/-"), ("../gen/routes.rs", "gen/routes.rs")]) };
    let out = if out.1 == inp.1 { if env { ("routes.rs", "out/routes.rs") } else { ("gen.rs", "pkg/gen.rs") } } else { out };
    Place { inp, out }
}
fn dirs(s: &mut Scen, p: &Place) {
    for d in [p.inp.1, p.out.1] { if let Some(k) = d.rfind('/') { s.op(&[&"dir", &&d[..k]]); } }
    if p.inp.0.starts_with("sub/") { s.op(&[&"dir", &"pkg/sub"]); }
}
fn manifest(s: &mut Scen, mode: &str) {
    if mode == "ex-cli" { s.op(&[&"env", &"CARGO_MANIFEST_DIR", &"@/pkg/examples/cli"]); s.op(&[&"cwd", &"pkg/examples/cli"]); }
    if mode == "ex-structured" { s.op(&[&"env", &"CARGO_MANIFEST_DIR", &"@/pkg/examples/structured"]); s.op(&[&"cwd", &"pkg/examples/structured"]); }
}
fn put(s: &mut Scen, path: &str, body: &[u8], age: i64, how: &str) { s.op(&[&"put", &path, &body, &age.to_string(), &how]); }
fn op_build(s: &mut Scen, op: &str, mode: &str, inp: &[u8], out: &str, fl: &[Vec<u8>]) {
    s.op(&[&op, &mode, &inp, &out]);
    s.lines.last_mut().unwrap().extend(fl.iter().cloned());
}
fn residue(r: &mut Rng, s: &mut Scen, p: &Place) {
    let age = *r.pick(&[0i64, 0, -5, 100, 1_000_000, -1_000_000_000]);
    if r.chance(1, 3) {
        // the module of another configuration, complete or cut off
        let t = gen::valid_text(r);
        let keep = if r.chance(1, 2) { String::new() } else { r.below(9000).to_string() };
        s.op(&[&"mod", &p.out.1, &t, &age.to_string(), &keep]);
        return;
    }
    let body: Vec<u8> = match r.below(7) {
        0 => vec![],
        1 => b"garbage that is not a module\n".to_vec(),
        2 => vec![0u8; r.below(100)],
        3 => format!("pub mod routes {{\n{}", "    // an older and much longer module\n".repeat(r.range(1, 800))).into_bytes(),
        4 => gen::valid_text(r).into_bytes(),
        5 => b"\xff\xfe\x00not utf8".to_vec(),
        _ => b"pub mod routes {\n\n    //! Application route configuration.\n".to_vec(),
    };
    put(s, p.out.1, &body, age, "inplace");
}
/// Another builds in the same script: words for the operation, files for the disk.
fn more_builds(r: &mut Rng, s: &mut Scen, bad: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for k in 0..r.range(1, 2) {
        let name = format!("more{}.routes", k);
        let c = content(r, bad);
        put(s, &format!("pkg/{}", name), &c, 0, "inplace");
        v.push(format!("x:{}:more{}.rs", name, k).into_bytes());
    }
    v
}
/// The same text with one letter of a name changed: everything keeps its length.
fn tweak(r: &mut Rng, t: &[u8]) -> Vec<u8> {
    let mut t = t.to_vec();
    let body = t.windows(3).position(|x| x == b"\n/\n").unwrap_or(0);
    for _ in 0..20 {
        let i = r.range(body, t.len().max(body + 1) - 1);
        let in_name = i > 0 && i + 1 < t.len() && t[i - 1].is_ascii_alphanumeric() && t[i].is_ascii_lowercase() && t[i + 1].is_ascii_alphanumeric();
        if in_name { t[i] = if t[i] == b'q' { b'k' } else { b'q' }; break; }
    }
    t
}
fn rot(r: &mut Rng, s: &mut Scen, path: &str) { let seed = r.below(1 << 40).to_string(); s.op(&[&"rot", &path, &seed, &r.pick(&["0", "1000", "-1000000"])]); }
/// Something a file-based build must reject, or sometimes a valid file.
fn content(r: &mut Rng, bad: usize) -> Vec<u8> {
    if r.chance(1, 150) { return gen::big_text(r).into_bytes(); }
    if !r.chance(bad, 10) { return gen::valid_text(r).into_bytes(); }
    match r.below(6) {
        0 | 1 => gen::malformed(r).text.into_bytes(),
        2 | 3 => gen::refused_text(r).into_bytes(),
        4 => { let mut b = gen::valid_text(r).into_bytes(); let k = r.below(b.len()); b.insert(k, *r.pick(&[0xff, 0xc3, 0x80, 0xf0])); b }
        _ => { let a = gen::valid_text(r).into_bytes(); let b = gen::valid_text(r).into_bytes(); gen::damage(r, &a, &b).1 }
    }
}
/// Who runs the build and on what machine (see `who` in wfsim_io.c).
fn who(r: &mut Rng) -> u64 {
    if r.chance(1, 4) { return 0; }
    let tty = *r.pick(&[0u64, 0, 7, 7, 2, 4, 6, 1]);
    tty | r.chance(1, 2) as u64 * 8 | (r.below(8) as u64) << 4 | r.chance(1, 2) as u64 * 128 | (r.below(8) as u64) << 8 | (r.below(2) as u64) << 11 | r.chance(1, 3) as u64 * 4096 | (r.below(0x8000) as u64) << 16
}
fn surroundings(r: &mut Rng, s: &mut Scen) {
    s.op(&[&"sim", &(r.u64() >> 1).to_string(), &r.pick(&[0u64, 1, 946_684_800, 1_600_000_000, 2_147_483_648, 4_102_444_800]).to_string(), &r.pick(&[0u64, 1, 1_000_000, 1_000_000_000]).to_string(), &r.range(2, 4_000_000).to_string(), &who(r).to_string()]);
    for (k, v) in [("LANG", "de_DE.UTF-8"), ("LC_ALL", "C"), ("TZ", "Asia/Tokyo"), ("RUST_BACKTRACE", "0"), ("USER", "someone"), ("SOURCE_DATE_EPOCH", "315532800"), ("PROFILE", "release"), ("DEBUG", "false"), ("CARGO_PKG_NAME", "some-app"), ("CARGO_PKG_VERSION", "9.9.9"), ("TARGET", "wasm32-unknown-unknown"), ("NUM_JOBS", "8"), ("OPT_LEVEL", "3"), ("HOSTNAME", "build-7"), ("CI", "true"), ("RUST_LOG", "trace"), ("NO_COLOR", "1"), ("TERM", "dumb"), ("COLUMNS", "40"), ("HOST", "x86_64-unknown-linux-gnu"), ("RUST_MIN_STACK", "4194304")] {
        if r.chance(1, 5) { s.op(&[&"env", &k, &v]); }
    }
    // any other variable the code might ask for
    if r.chance(1, 4) { let v = *r.pick(&["1", "0", "true", "debug", "x", "verbose", "out"]); s.op(&[&"env", &"WFSIM_SWEEP", &v]); }
}
/// Things that make no difference: where directories are written down, links, earlier builder calls.
fn twist(r: &mut Rng, s: &mut Scen, mode: &str, p: &Place, links: bool) {
    let plain = matches!(mode, "env-file" | "env-config");
    if plain && r.chance(1, 6) { let v = *r.pick(&["@/pkg/", ".", "", "../pkg", "@/out/../pkg", "./"]); s.op(&[&"env", &"CARGO_MANIFEST_DIR", &v]); }
    if plain && r.chance(1, 6) { let v = *r.pick(&["@/out/", "../out", "@/pkg/../out/", "../out/./"]); s.op(&[&"env", &"OUT_DIR", &v]); }
    if mode.starts_with("env-") || mode.starts_with("new-") { if r.chance(1, 6) { s.op(&[&"env", &"WFNODE_TWICE", &r.range(1, 15).to_string()]); } }
    let moved = s.lines.iter().any(|l| l[0] == b"cwd" || l[0] == b"env" && (l[1] == b"CARGO_MANIFEST_DIR" || l[1] == b"OUT_DIR"));
    if plain && !moved && r.chance(1, 10) { s.op(&[&"env", &"WFNODE_GONE", &"1"]); }
    if links && !to_stdout(mode) && r.chance(1, 8) {
        if r.chance(1, 2) { put(s, "other/real.rs", b"something else\n", 0, "inplace"); } else { s.op(&[&"dir", &"other"]); }
        s.op(&[&"link", &p.out.1, &"@/other/real.rs"]);
    }
    if links && !is_config(mode) && !mode.starts_with("ex-") && r.chance(1, 10) {
        if let Some(l) = s.lines.iter_mut().rev().find(|l| l[0] == b"put" && l[1] == p.inp.1.as_bytes()) { l[1] = b"shared/real.routes".to_vec(); let i = p.inp.1; s.op(&[&"link", &i, &"@/shared/real.routes"]); }
    }
}
/// A route file or an output whose name is not text.
fn odd_name(r: &mut Rng, s: &mut Scen, mode: &str, p: &Place) {
    if matches!(mode, "env-file" | "new-file" | "env-config" | "new-config") && p.out.0.ends_with("routes.rs") && r.chance(1, 30) {
        for l in &mut s.lines { for w in l.iter_mut().skip(1) { if w == p.out.0.as_bytes() || w == p.out.1.as_bytes() { let k = w.len() - 9; w.splice(k..k, [0xff, 0xc3]); } } }
        return;
    }
    if !matches!(mode, "env-file" | "new-file" | "new-stdout") || !r.chance(1, 20) || !p.inp.0.ends_with("app.routes") { return; }
    for l in &mut s.lines { for w in l.iter_mut().skip(1) { if w == p.inp.0.as_bytes() || w == p.inp.1.as_bytes() { let k = w.len() - 10; w.splice(k..k, [0xff, 0xfe]); } } }
}
fn neighbours(r: &mut Rng, s: &mut Scen, p: &Place) {
    let o = p.out.1;
    for x in [format!("{}.tmp", o), format!("{}.bak", o), format!("{}~", o), format!("{}.new", o), o.rsplit_once('.').map(|t| format!("{}.tmp", t.0)).unwrap_or_default(), "out/neighbour.rs".into(), "pkg/src/main.rs".into(), "tmp/routes.rs".into(), "out/routes.rs.old".into()] {
        if !x.is_empty() && x != o && x != p.inp.1 && r.chance(1, 3) { put(s, &x, b"neighbour\n", 0, "inplace"); }
    }
}
fn file_mode(r: &mut Rng) -> &'static str { *r.pick(&["env-file", "env-file", "env-file", "new-file", "ex-cli"]) }
fn any_mode(r: &mut Rng) -> &'static str { *r.pick(&["env-file", "env-file", "env-file", "new-file", "ex-cli", "cmd", "cmd", "new-stdout", "env-config", "new-config", "new-config-stdout", "ex-structured"]) }
fn to_stdout(m: &str) -> bool { matches!(m, "cmd" | "new-stdout" | "new-config-stdout") }
fn is_config(m: &str) -> bool { m.contains("config") }
fn source<'a>(r: &mut Rng, s: &mut Scen, mode: &str, p: &'a Place, bad: usize) -> Vec<u8> {
    if is_config(mode) { let t = if r.chance(bad, 14) { gen::refused_text(r) } else { canon::print(&gen::config(r)) }; return t.into_bytes(); }
    if mode != "ex-structured" { let c = content(r, bad); put(s, p.inp.1, &c, 0, "inplace"); }
    p.inp.0.as_bytes().to_vec()
}

pub fn generate(prop: &str, seed: u64) -> Scen {
    let mut s = generate1(prop, seed);
    // now and then a folder that is not there
    if matches!(prop, "C03" | "C04" | "C10" | "C15") { let r = &mut Rng::new(seed ^ 0x0f01_de25_0f01_de25); if r.chance(1, 12) { s.lines.retain(|l| l[0] != b"dir"); } }
    // now and then a file, or the module made of it, as long as some number of blocks
    let r = &mut Rng::new(seed ^ 0x5eed_f17f_17f1_75ee);
    if r.chance(1, 9) && !s.lines.iter().any(|l| l[0] == b"script") {
        let at: Vec<usize> = s.lines.iter().enumerate().filter(|(_, l)| l[0] == b"put" && l[2].windows(2).any(|x| x == b"/\n") && !l[2].starts_with(b"pub mod") && [&b"pkg/"[..], b"shared/", b"abs/"].iter().any(|d| l[1].starts_with(d))).map(|(i, _)| i).collect();
        if !at.is_empty() {
            let k = *r.pick(&at);
            let n = if r.chance(1, 12) { 65536 } else { *r.pick(&[512, 512, 1024, 2048, 4096, 4096, 4096, 8192, 8192, 16384]) };
            let path = s.lines[k][1].clone();
            let l: Vec<Vec<u8>> = vec![b"fit".to_vec(), path, r.pick(&["in", "out", "out"]).as_bytes().to_vec(), n.to_string().into_bytes(), r.pick(&["0", "0", "0", "1", "-1"]).as_bytes().to_vec()];
            if n > 20_000 { s.lines.push(vec![b"#".to_vec(), vec![b'-'; 9000]]); }
            s.lines.insert(k + 1, l);
        }
    }
    // a long file must not trickle out byte by byte: that would take more calls than a run may make
    if s.lines.iter().flatten().any(|w| w.len() > 8000) {
        s.lines.retain(|l| l[0] != b"#");
        for l in &mut s.lines { l.retain(|w| { let p: Vec<&[u8]> = w.split(|c| *c == b':').collect(); !(w.starts_with(b"f:") && p.len() > 6 && p[2] == b"SHORT" && p[6] == b"1" && p[4].len() < 4) }); }
    }
    s
}
fn generate1(prop: &str, seed: u64) -> Scen {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut s = Scen::new(prop, "proc", seed);
    if r.chance(1, 3) || prop == "C07" { surroundings(r, &mut s); }
    match prop {
        "C03" | "C14" => {
            let mode = any_mode(r);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let inp = source(r, &mut s, mode, &p, if prop == "C14" { 4 } else { 2 });
            if r.chance(1, 3) { residue(r, &mut s, &p); }
            twist(r, &mut s, mode, &p, true);
            if prop == "C14" && r.chance(1, 4) {
                // what an earlier build left behind
                let mut fl = vec![];
                match r.below(3) { 0 => hard(r, &mut fl, ALL), 1 => disk(r, &mut fl), _ => kill(r, &mut fl) }
                op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
            }
            let mut fl = match r.below(10) { 0 => vec![], 1..=4 => { let mut v = vec![]; for _ in 0..r.range(1, 4) { transient(r, &mut v, ALL); } v } _ => faults(r, ALL) };
            if prop == "C14" && r.chance(2, 3) {
                // something that never gets better
                let c = *r.pick(&["READ_IN", "WRITE_OUT", "STDOUT_W", "STDERR_W", "OPEN_IN", "OPEN_OUT"]);
                let n = if r.chance(1, 2) { 0 } else { nth(r, c) };
                if matches!(c, "WRITE_OUT" | "STDOUT_W" | "STDERR_W") && r.chance(1, 3) { fl.insert(0, f(c, "ZERO", n, 0, 0, true)); }
                else { let e = *r.pick(errs(c)); fl.insert(0, f(c, "ERR", n, 0, e, true)); }
            }
            if matches!(mode, "env-file" | "new-file") && r.chance(1, 5) { fl.extend(more_builds(r, &mut s, 2)); }
            if r.chance(1, 8) { for k in ["CARGO_MANIFEST_DIR", "OUT_DIR"] { if !mode.starts_with("env-") && !mode.starts_with("ex-") { s.op(&[&"unenv", &k]); } } }
            if prop == "C03" && !is_config(mode) && mode != "ex-structured" && r.chance(1, 8) && !fl.iter().any(|x| x.starts_with(b"x:")) {
                // the file is replaced, as a whole, while the build is under way
                op_build(&mut s, "pbuild", mode, &inp, p.out.0, &fl);
                let ne = r.range(1, 2);
                let mut text = s.lines.iter().rev().find(|l| l[0] == b"put" && l[1] == p.inp.1.as_bytes()).map(|l| l[2].clone()).unwrap_or_default();
                for _ in 0..ne { text = if r.chance(1, 2) { tweak(r, &text) } else { content(r, 2) }; let t = text.clone(); s.op(&[&"pput", &p.inp.1, &t, &"0", &"rename"]); }
                s.op(&[&"sched"]);
                for e in 0..ne { let q = format!("q:R:0:{}", r.range(1, 6)); let x = format!("q:E:{}:0", e); let l = s.lines.last_mut().unwrap(); l.push(q.into_bytes()); l.push(x.into_bytes()); }
                return s;
            }
            if prop == "C14" && mode != "ex-structured" && r.chance(1, 6) {
                for i in 0..r.range(2, 3) { op_build(&mut s, "pbuild", mode, &inp, p.out.0, if i == 0 { &fl } else { &[] }); }
                s.op(&[&"sched"]);
                for _ in 0..r.range(4, 40) { let w = format!("q:R:{}:{}", r.below(3), *r.pick(&[1, 1, 3, 12, 30])); s.lines.last_mut().unwrap().push(w.into_bytes()); }
                return s;
            }
            op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
            odd_name(r, &mut s, mode, &p);
        }
        "C04" => {
            let mode = *r.pick(&["env-file", "env-file", "env-file", "new-file", "ex-cli", "env-config", "new-config", "no-source", "no-source-new", "no-target", "no-target-new", "cmd", "new-stdout"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let inp = source(r, &mut s, mode, &p, 8);
            if r.chance(3, 4) { residue(r, &mut s, &p); }
            twist(r, &mut s, mode, &p, true);
            match r.below(12) {
                0 => s.op(&[&"del", &p.inp.1]),
                1 => { s.op(&[&"del", &p.inp.1]); s.op(&[&"dir", &p.inp.1]); }
                2 => { let k = *r.pick(&["CARGO_MANIFEST_DIR", "OUT_DIR"]); s.op(&[&"unenv", &k]); }
                3 => { let k = *r.pick(&["CARGO_MANIFEST_DIR", "OUT_DIR"]); s.op(&[&"env", &k, &b"/dev/shm/\xff\xfe"]); }
                _ => {}
            }
            let mut fl = vec![];
            match r.below(6) {
                0 => hard(r, &mut fl, &["OPEN_IN", "READ_IN"]),
                1 => { let c = *r.pick(&["OPEN_IN", "READ_IN"]); let e = *r.pick(errs(c)); let n = if c == "OPEN_IN" { 0 } else { r.below(3) }; fl.push(f(c, "ERR", n, 0, e, true)); }
                2 => { transient(r, &mut fl, ALL); hard(r, &mut fl, ALL); }
                3 => transient(r, &mut fl, ALL),
                _ => {}
            }
            if matches!(mode, "env-file" | "new-file") && r.chance(1, 8) { fl.extend(more_builds(r, &mut s, 4)); }
            op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
            odd_name(r, &mut s, mode, &p);
        }
        "C05" => {
            let mode = *r.pick(&["env-file", "env-file", "env-file", "new-file", "ex-cli", "env-config", "new-config", "ex-structured"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let mut inp = source(r, &mut s, mode, &p, 1);
            let mut text: Vec<u8> = if is_config(mode) { inp.clone() } else { s.lines.iter().rev().find(|l| l[0] == b"put").map(|l| l[2].clone()).unwrap_or_default() };
            if r.chance(2, 3) { residue(r, &mut s, &p); }
            twist(r, &mut s, mode, &p, true);
            let more = if matches!(mode, "env-file" | "new-file") && r.chance(1, 6) { more_builds(r, &mut s, 1) } else { vec![] };
            for _ in 0..r.below(4) {
                let mut fl = more.clone();
                match r.below(6) { 0 => {} 1 => hard(r, &mut fl, ALL), 2 => disk(r, &mut fl), 3 | 4 => kill(r, &mut fl), _ => fl = faults(r, ALL) }
                op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
                if r.chance(1, 2) {
                    let near = r.chance(1, 2);
                    if is_config(mode) { inp = if near { tweak(r, &text) } else { canon::print(&gen::config(r)).into_bytes() }; text = inp.clone(); }
                    else if mode != "ex-structured" { let c = if near { tweak(r, &text) } else { content(r, 2) }; text = c.clone(); let age = *r.pick(&[0i64, 0, -10, -100_000, 1000]); put(&mut s, p.inp.1, &c, age, *r.pick(&["inplace", "rename"])); }
                }
                if r.chance(1, 6) { residue(r, &mut s, &p); }
                if r.chance(1, 4) { rot(r, &mut s, p.out.1); }
            }
            // whatever happened, the last text is valid and the last build undisturbed
            let near = r.chance(1, 3);
            if is_config(mode) { if r.chance(1, 2) { inp = if near { tweak(r, &text) } else { canon::print(&gen::config(r)).into_bytes() }; } }
            else if mode != "ex-structured" && r.chance(5, 6) { let age = *r.pick(&[0i64, 0, -10, -1_000_000, 500_000]); let c = if near { tweak(r, &text) } else { gen::valid_text(r).into_bytes() }; put(&mut s, p.inp.1, &c, age, "inplace"); }
            if r.chance(1, 4) { residue(r, &mut s, &p); }
            if r.chance(1, 3) { rot(r, &mut s, p.out.1); }
            op_build(&mut s, "build", mode, &inp, p.out.0, &more);
            if r.chance(1, 3) { rot(r, &mut s, p.out.1); op_build(&mut s, "build", mode, &inp, p.out.0, &more); }
            odd_name(r, &mut s, mode, &p);
        }
        "C06" => {
            let mode = *r.pick(&["env-file", "env-file", "env-file", "ex-cli"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            if r.chance(1, 6) { s.op(&[&"cwd", &"home"]); }
            dirs(&mut s, &p);
            let link = mode != "ex-cli" && r.chance(1, 6);
            let mut gen_no = 0;
            let more = if mode == "env-file" && r.chance(1, 4) { more_builds(r, &mut s, 1) } else { vec![] };
            let nmore = more.len();
            let mut last = gen::valid_text(r).into_bytes();
            let mut change = |r: &mut Rng, s: &mut Scen, op: &str| {
                gen_no += 1;
                let c = if r.chance(1, 3) { tweak(r, &last) } else { content(r, 1) };
                last = c.clone();
                let how = if r.chance(1, 2) { "inplace" } else { "rename" };
                if nmore > 0 && gen_no > 1 && r.chance(1, 2) { s.op(&[&op, &format!("pkg/more{}.routes", r.below(nmore)), &c, &"0", &how]); }
                else if link {
                    let t = format!("shared/target{}", gen_no);
                    let sop = if op == "pput" { ("pput", "plink") } else { ("put", "link") };
                    s.op(&[&sop.0, &t, &c, &"0", &how]);
                    s.op(&[&sop.1, &p.inp.1, &format!("@/{}", t)]);
                } else if r.chance(1, 15) { s.op(&[&if op == "pput" { "pdel" } else { "del" }, &p.inp.1]); }
                else { s.op(&[&op, &p.inp.1, &c, &"0", &how]); }
            };
            change(r, &mut s, "put");
            for _ in 0..r.range(1, 5) {
                let mut fl = more.clone();
                match r.below(8) { 0..=3 => {} 4 => kill(r, &mut fl), 5 => hard(r, &mut fl, ALL), 6 => disk(r, &mut fl), _ => transient(r, &mut fl, ALL) }
                if r.chance(1, 3) {
                    op_build(&mut s, "pcargo", mode, p.inp.0.as_bytes(), p.out.0, &fl);
                    let before = s.lines.len();
                    for _ in 0..r.range(1, 2) { change(r, &mut s, "pput"); }
                    let ne = s.lines.len() - before;
                    s.op(&[&"sched"]);
                    for e in 0..ne { let q = format!("q:R:0:{}", r.range(1, 8)); let x = format!("q:E:{}:0", e); let l = s.lines.last_mut().unwrap(); l.push(q.into_bytes()); l.push(x.into_bytes()); }
                } else { op_build(&mut s, "cargo", mode, p.inp.0.as_bytes(), p.out.0, &fl); }
                if r.chance(1, 2) { change(r, &mut s, "put"); }
            }
            if r.chance(1, 2) { change(r, &mut s, "put"); }
            op_build(&mut s, "cargo", mode, p.inp.0.as_bytes(), p.out.0, &more);
            if r.chance(1, 2) { change(r, &mut s, "put"); op_build(&mut s, "cargo", mode, p.inp.0.as_bytes(), p.out.0, &more); }
        }
        "C07" => {
            let mode = any_mode(r);
            let p = place(r, mode);
            manifest(&mut s, mode);
            if r.chance(1, 4) && mode.starts_with("env-") { s.op(&[&"cwd", &"home"]); }
            dirs(&mut s, &p);
            let cfg = if r.chance(2, 3) { gen::busy_config(r) } else { gen::config(r) };
            let text = canon::print(&cfg).into_bytes();
            let inp = if is_config(mode) { text.clone() } else { put(&mut s, p.inp.1, &text, 0, "inplace"); p.inp.0.as_bytes().to_vec() };
            twist(r, &mut s, mode, &p, true);
            op_build(&mut s, "build", mode, &inp, p.out.0, &[]);
            if r.chance(1, 2) { surroundings(r, &mut s); op_build(&mut s, "build", mode, &inp, p.out.0, &[]); }
        }
        "C10" => {
            if r.chance(2, 5) {
                let mode = any_mode(r);
                let p = place(r, mode);
                manifest(&mut s, mode);
                dirs(&mut s, &p);
                let inp = source(r, &mut s, mode, &p, 3);
                if r.chance(1, 2) { residue(r, &mut s, &p); }
                neighbours(r, &mut s, &p);
                twist(r, &mut s, mode, &p, false);
                let mut fl = if r.chance(1, 3) { vec![] } else { faults(r, ALL) };
                if matches!(mode, "env-file" | "new-file") && r.chance(1, 5) { fl.extend(more_builds(r, &mut s, 2)); }
                op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
                if r.chance(1, 3) { op_build(&mut s, "build", mode, &inp, p.out.0, &[]); }
            } else {
                let n = r.range(2, 3);
                let shared = r.chance(1, 3);
                let mut ins = vec![];
                for i in 0..n {
                    let name = if shared { "pkg/app.routes".to_string() } else { format!("pkg/app{}.routes", i) };
                    if i == 0 || !shared { let c = content(r, 2); put(&mut s, &name, &c, 0, "inplace"); }
                    ins.push(name["pkg/".len()..].to_string());
                }
                // outputs that are easy to confuse
                let outs: [&str; 3] = *r.pick(&[["routes.rs", "routes2.rs", "routes3.rs"], ["a.rs", "a.txt", "a"], ["one/routes.rs", "two/routes.rs", "three/routes.rs"], ["routes.rs", "routes.rs.tmp", "routes.tmp"], ["x.rs", "X.rs", ".x.rs"]]);
                for o in outs { if let Some(k) = o.rfind('/') { s.op(&[&"dir", &format!("out/{}", &o[..k])]); } }
                for i in 0..n {
                    if r.chance(1, 3) { put(&mut s, &format!("out/{}", outs[i]), b"older\n", 0, "inplace"); }
                }
                for i in 0..n {
                    let mode = *r.pick(&["env-file", "env-file", "new-file", "cmd"]);
                    let fl = match r.below(4) { 0 => faults(r, ALL), 1 => { let mut v = vec![]; transient(r, &mut v, ALL); v } _ => vec![] };
                    let out = if mode == "new-file" { format!("@/out/{}", outs[i]) } else { outs[i].to_string() };
                    op_build(&mut s, "pbuild", mode, ins[i].as_bytes(), &out, &fl);
                }
                s.op(&[&"sched"]);
                let style = r.below(3);
                for _ in 0..r.range(4, 40) {
                    let q = match style { 0 => 1, 1 => r.range(1, 4), _ => *r.pick(&[1, 2, 5, 30, 200]) };
                    let w = format!("q:R:{}:{}", r.below(n), q);
                    s.lines.last_mut().unwrap().push(w.into_bytes());
                }
            }
        }
        "C11" => {
            let mode = *r.pick(&["cmd", "cmd", "cmd", "new-stdout", "new-config-stdout", "cmd-noargs"]);
            let p = place(r, mode);
            dirs(&mut s, &p);
            let inp = source(r, &mut s, mode, &p, 4);
            if r.chance(1, 10) { s.op(&[&"del", &p.inp.1]); }
            let c = &["STDOUT_W", "STDOUT_W", "STDERR_W", "READ_IN", "OPEN_IN"];
            let mut fl = vec![];
            match r.below(6) { 0 => {} 1 | 2 => { for _ in 0..r.range(1, 3) { transient(r, &mut fl, c); } } 3 => { hard(r, &mut fl, c); } 4 => { transient(r, &mut fl, c); hard(r, &mut fl, c); } _ => fl = faults(r, c) }
            if r.chance(1, 3) { for k in ["CARGO_MANIFEST_DIR", "OUT_DIR"] { if r.chance(2, 3) { s.op(&[&"unenv", &k]); } } }
            twist(r, &mut s, mode, &p, true);
            op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
        }
        "C12" => {
            let mode = *r.pick(&["env-file", "env-file", "new-file", "cmd", "new-stdout", "ex-cli", "no-source", "no-target-new", "env-config"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let inp = if !is_config(mode) && r.chance(2, 3) { let b = gen::malformed(r); put(&mut s, p.inp.1, b.text.as_bytes(), 0, "inplace"); p.inp.0.as_bytes().to_vec() } else { source(r, &mut s, mode, &p, 10) };
            let mut fl = vec![];
            match r.below(5) {
                0 => for _ in 0..r.range(1, 4) { transient(r, &mut fl, &["STDERR_W"]); },
                1 => hard(r, &mut fl, &["STDERR_W"]),
                2 => { let e = *r.pick(errs("STDERR_W")); let n = r.below(14); fl.push(f("STDERR_W", "ERR", n, 0, e, true)); if r.chance(1, 2) { fl.push(f("STDERR_W", "SHORT", 0, *r.pick(&[1, 3, 10]), 0, true)); } }
                3 => { transient(r, &mut fl, &["STDERR_W", "STDERR_W", "READ_IN"]); hard(r, &mut fl, &["STDERR_W", "STDOUT_W"]); }
                _ => fl = faults(r, &["STDERR_W", "STDERR_W", "STDOUT_W", "READ_IN", "OPEN_IN"]),
            }
            op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
        }
        "C13" => {
            let mode = *r.pick(&["env-file", "env-file", "new-file", "cmd", "new-stdout", "ex-cli"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let clean = if r.chance(1, 100) { gen::big_text(r) } else { gen::valid_text(r) }.into_bytes();
            let stale = if r.chance(1, 2) { gen::valid_text(r).into_bytes() } else { let mut t = clean.clone(); let k = r.below(t.len()); t[k] = b'Q'; t };
            let mut t = clean;
            if t.len() < 20_000 || r.chance(1, 2) { for _ in 0..r.range(1, 2) { t = gen::damage(r, &t, &stale).1; } }
            put(&mut s, p.inp.1, &t, 0, "inplace");
            if r.chance(1, 3) { residue(r, &mut s, &p); }
            let mut fl = vec![];
            match r.below(8) { 0 | 1 => transient(r, &mut fl, &["READ_IN", "OPEN_IN"]), 2 => hard(r, &mut fl, &["READ_IN"]), 3 => { transient(r, &mut fl, &["READ_IN"]); hard(r, &mut fl, &["READ_IN"]); } _ => {} }
            twist(r, &mut s, mode, &p, true);
            op_build(&mut s, "build", mode, &inp_bytes(&p), p.out.0, &fl);
            odd_name(r, &mut s, mode, &p);
        }
        "C15" => {
            let mode = *r.pick(&["env-file", "env-file", "env-file", "new-file", "ex-cli", "cmd", "cmd", "new-stdout", "env-config", "new-config", "new-config-stdout", "ex-structured", "no-source", "no-target", "no-source-new", "no-target-new"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let inp = source(r, &mut s, mode, &p, 4);
            if r.chance(1, 3) { residue(r, &mut s, &p); }
            match r.below(14) {
                0 => s.op(&[&"del", &p.inp.1]),
                1 => { s.op(&[&"del", &p.inp.1]); s.op(&[&"dir", &p.inp.1]); }
                2 => { let k = *r.pick(&["CARGO_MANIFEST_DIR", "OUT_DIR"]); s.op(&[&"unenv", &k]); }
                3 => { let k = *r.pick(&["CARGO_MANIFEST_DIR", "OUT_DIR"]); s.op(&[&"env", &k, &b"/dev/shm/\xff\xfe"]); }
                4 if !to_stdout(mode) => { s.op(&[&"del", &p.out.1]); s.op(&[&"dir", &p.out.1]); }
                5 if mode.starts_with("env-") => s.op(&[&"env", &"OUT_DIR", &"@/not/there"]),
                _ => {}
            }
            let mut fl = vec![];
            const NOT_STDERR: &[&str] = &["OPEN_IN", "READ_IN", "OPEN_OUT", "OPEN_OUT", "WRITE_OUT", "STDOUT_W"];
            match r.below(6) { 0 => {} 1 | 2 => hard(r, &mut fl, NOT_STDERR), 3 => { transient(r, &mut fl, NOT_STDERR); hard(r, &mut fl, NOT_STDERR); } 4 => disk(r, &mut fl), _ => { let c = *r.pick(NOT_STDERR); let e = *r.pick(errs(c)); fl.push(f(c, "ERR", 0, 0, e, r.chance(1, 2))); } }
            if matches!(mode, "env-file" | "new-file") && r.chance(1, 10) { fl.extend(more_builds(r, &mut s, 2)); }
            op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
            odd_name(r, &mut s, mode, &p);
        }
        "C16" => {
            let mode = *r.pick(&["env-file", "env-file", "new-file", "env-config", "ex-cli", "ex-structured"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let inp = source(r, &mut s, mode, &p, 0);
            if r.chance(1, 2) { residue(r, &mut s, &p); }
            twist(r, &mut s, mode, &p, true);
            let again = r.chance(1, 4);
            let rounds = r.range(1, 2);
            for round in 0..rounds {
                let n = r.range(2, 4);
                for _ in 0..n {
                    let mut fl = vec![];
                    if r.chance(1, 2) { let a = *r.pick(&[1usize, 40, 200, 700, 1500, 4000]); let st = r.chance(2, 3); let k = if st { 0 } else { r.below(4) }; fl.push(f("WRITE_OUT", "SHORT", k, a, 0, st)); }
                    if r.chance(1, 2) { transient(r, &mut fl, ALL); }
                    op_build(&mut s, "pbuild", mode, &inp, p.out.0, &fl);
                }
                s.op(&[&"sched"]);
                let style = r.below(4);
                for _ in 0..r.range(4, 60) {
                    let q = match style { 0 => 1, 1 => r.range(1, 4), 2 => *r.pick(&[1, 2, 5, 30, 200]), _ => *r.pick(&[1, 1, 1, 12, 20, 28]) };
                    let w = format!("q:R:{}:{}", r.below(n), q);
                    s.lines.last_mut().unwrap().push(w.into_bytes());
                }
                if again && round + 1 < rounds {
                    // one of them dies; the next ones find what it left
                    let mut fl = vec![];
                    kill(r, &mut fl);
                    op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
                }
            }
        }
        "C17" => {
            s.op(&[&"env", &"WFNODE_WATCH", &(r.u64() >> 1).to_string()]);
            let mode = *r.pick(&["env-file", "env-file", "env-file", "new-file", "new-file", "new-stdout", "env-config", "new-config", "new-config-stdout"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            if r.chance(1, 6) && mode.starts_with("env-") { s.op(&[&"cwd", &"home"]); }
            dirs(&mut s, &p);
            let bad = if r.chance(1, 3) { 6 } else { 0 };
            let inp = source(r, &mut s, mode, &p, bad);
            if r.chance(1, 2) { residue(r, &mut s, &p); }
            neighbours(r, &mut s, &p);
            twist(r, &mut s, mode, &p, true);
            let mut fl = vec![];
            if r.chance(1, 2) { for _ in 0..r.range(1, 3) { transient(r, &mut fl, &["OPEN_IN", "READ_IN", "OPEN_OUT", "WRITE_OUT", "WRITE_OUT", "STDOUT_W"]); } }
            if matches!(mode, "env-file" | "new-file") && r.chance(1, 2) { fl.extend(more_builds(r, &mut s, 1)); }
            op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
        }
        "C18" => {
            let mode = *r.pick(&["env-file", "env-file", "env-file", "new-file", "ex-cli", "env-config", "new-config", "ex-structured"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let mut inp = source(r, &mut s, mode, &p, 1);
            if r.chance(3, 4) { residue(r, &mut s, &p); }
            twist(r, &mut s, mode, &p, true);
            let more = if matches!(mode, "env-file" | "new-file") && r.chance(1, 6) { more_builds(r, &mut s, 1) } else { vec![] };
            for k in 0..r.range(1, 4) {
                if k > 0 {
                    if r.chance(1, 3) { residue(r, &mut s, &p); }
                    if r.chance(1, 2) { if is_config(mode) { inp = canon::print(&gen::config(r)).into_bytes() } else if mode != "ex-structured" { let c = content(r, 1); put(&mut s, p.inp.1, &c, 0, "inplace"); } }
                }
                let mut fl = vec![];
                match r.below(8) {
                    0..=2 => kill(r, &mut fl),
                    3 | 4 => hard(r, &mut fl, &["OPEN_OUT", "WRITE_OUT", "WRITE_OUT", "WRITE_OUT", "STDOUT_W", "READ_IN"]),
                    5 => disk(r, &mut fl),
                    6 => { let st = r.chance(1, 3); let n = match r.below(3) { 0 => r.below(100), 1 => r.below(1000), _ => r.below(9000) }; fl.push(f("ALLOC", "ERR", n, 0, 12, st)); }
                    _ => fl = faults(r, ALL),
                }
                if r.chance(1, 2) { transient(r, &mut fl, &["WRITE_OUT", "WRITE_OUT", "READ_IN"]); }
                fl.extend(more.iter().cloned());
                op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
            }
        }
        "C28" => {
            let mode = any_mode(r);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let inp = source(r, &mut s, mode, &p, 3);
            if r.chance(1, 2) { residue(r, &mut s, &p); }
            twist(r, &mut s, mode, &p, false);
            let mut fl = vec![f("ELSE", "ERR", 0, 0, *r.pick(&[ENOENT, EACCES, EROFS, ENOSPC, EIO, EMFILE]), true)];
            if r.chance(1, 3) { fl[0] = { let n = r.below(4); let e = *r.pick(&[ENOENT, EACCES, EROFS, ENOSPC, EIO, EMFILE]); f("ELSE", "ERR", n, 0, e, r.chance(1, 2)) }; }
            if r.chance(1, 2) {
                fl.push(f("FDS", "LIM", 0, *r.pick(&[2, 2, 3, 5, 12]), 0, false));
                // nothing else denied: what is held open counts
                if r.chance(1, 2) { fl[0] = f("ELSE", "ERR", 99_999, 0, EMFILE, false); }
            }
            if r.chance(1, 4) { for _ in 0..r.range(1, 2) { transient(r, &mut fl, ALL); } fl.retain(|x| !x.starts_with(b"f:STAT")); }
            for k in ["HOME", "TMPDIR", "PATH"] { if r.chance(1, 2) { s.op(&[&"unenv", &k]); } else if r.chance(1, 3) { s.op(&[&"env", &k, &r.pick(&["/nonexistent", "", "@/missing", "@", "@/pkg", "@/out"])]); } }
            if !mode.starts_with("env-") && !mode.starts_with("ex-") && r.chance(1, 2) { for k in ["CARGO_MANIFEST_DIR", "OUT_DIR"] { s.op(&[&"unenv", &k]); } }
            if matches!(mode, "new-file" | "new-config") && p.out.0.starts_with('@') && (p.inp.0.starts_with('@') || mode == "new-config") && r.chance(1, 2) { s.op(&[&"env", &"WFNODE_GONE", &"1"]); }
            op_build(&mut s, "build", mode, &inp, p.out.0, &fl);
        }
        "C29" => {
            for d in ["pkg/sub", "home/sub", "shared", "out/sub", "gen", "pkg/out"] { s.op(&[&"dir", &d]); }
            let ins = ["a.routes", "b.routes", "sub/a.routes", "../shared/a.routes", "@/shared/b.routes", "./b.routes", "-"];
            for d in ["pkg", "home", "shared", "out"] { for x in ["a.routes", "b.routes", "-", "sub/a.routes"] { if d == "shared" && x.starts_with("sub") || d == "out" && x.starts_with("sub") { continue; } let bad = if r.chance(1, 30) { 10 } else { 0 }; let c = content(r, bad); put(&mut s, &format!("{}/{}", d, x), &c, 0, "inplace"); } }
            let outs = ["r.rs", "s.rs", "sub/r.rs", "@/gen/r.rs", "@/gen/s.rs", "./s.rs", "../out/s.rs", "-", "r"];
            let mut steps: Vec<String> = vec![];
            let mut set: Vec<Option<(bool, bool)>> = vec![None; 4];
            for _ in 0..r.range(10, 45) {
                let k = r.below(4);
                match (set[k], r.below(20)) {
                    (_, 0) => steps.push(format!("cd:{}", r.pick(&["@/pkg", "@/home", "@/out", "@/shared", "@/pkg/sub/.."]))),
                    (_, 1 | 2) => steps.push(format!("set:{}:{}", r.pick(&["CARGO_MANIFEST_DIR"]), r.pick(&["@/pkg", "@/home", "@/shared", "@/home/sub/.."]))),
                    (_, 3) => steps.push(format!("set:{}:{}", r.pick(&["OUT_DIR"]), r.pick(&["@/out", "@/pkg", "@/home", "@/gen"]))),
                    (_, 4) if r.chance(1, 8) => steps.push(format!("unset:{}", r.pick(&["CARGO_MANIFEST_DIR", "OUT_DIR"]))),
                    (_, 4) => { let t = gen::malformed(r).text; if t.is_ascii() { steps.push(format!("report:{}", t)) } }
                    (_, 5) => { let c = gen::valid_text(r); steps.push(format!("write:{}:{}", r.pick(&["@/pkg/a.routes", "@/home/a.routes", "@/shared/a.routes", "@/pkg/b.routes", "@/shared/b.routes", "@/gen/r.rs"]), c)) }
                    (Some(_), 6) if r.chance(1, 3) => { steps.push(format!("drop:{}", k)); set[k] = None; }
                    (None, _) => { steps.push(format!("{}:{}", r.pick(&["new", "env", "env"]), k)); set[k] = Some((false, false)); }
                    (Some((a, b)), _) if a && b && r.chance(1, 3) => { steps.push(format!("{}:{}", r.pick(&["build", "build", "tbuild"]), k)); set[k] = None; }
                    (Some((false, false)), 7) if r.chance(1, 20) => { steps.push(format!("build:{}", k)); set[k] = None; }
                    (Some((_, b)), 8..=12) => { if r.chance(1, 5) { let c = canon::print(&gen::config(r)); steps.push(format!("conf:{}:{}", k, c)); } else { steps.push(format!("in:{}:{}", k, r.pick(&ins))); } set[k] = Some((true, b)); }
                    (Some((a, _)), _) => { if r.chance(1, 8) { steps.push(format!("stdout:{}", k)); } else { steps.push(format!("out:{}:{}", k, r.pick(&outs))); } set[k] = Some((a, true)); }
                }
            }
            for k in 0..4 { if set[k] == Some((true, true)) { steps.push(format!("build:{}", k)); } }
            s.op(&[&"script"]);
            let mut fl = vec![];
            if r.chance(1, 3) { for _ in 0..r.range(1, 3) { transient(r, &mut fl, &["OPEN_OTHER", "RW_OTHER", "WRITE_OUT", "STDOUT_W", "STDERR_W"]); } }
            let l = s.lines.last_mut().unwrap();
            l.extend(steps.into_iter().map(|x| x.into_bytes()));
            l.extend(fl);
        }
        "C19" => {
            let mode = *r.pick(&["env-file", "env-file", "env-file", "new-file", "ex-cli", "cmd", "new-stdout"]);
            let p = place(r, mode);
            manifest(&mut s, mode);
            dirs(&mut s, &p);
            let bad = *r.pick(&[0usize, 0, 3, 8]);
            let link = mode != "ex-cli" && r.chance(1, 5);
            let ne = r.range(1, 3);
            let mut texts = vec![if r.chance(1, 40) { gen::big_text(r).into_bytes() } else { content(r, bad) }];
            for k in 0..ne {
                let last = texts[k].clone();
                let t = match r.below(6) {
                    0 | 1 => tweak(r, &last),
                    // the same and more, or less
                    2 => { let mut t = last.clone(); t.extend_from_slice(format!("  extra{}\n    GET Extra{}\n", k, k).as_bytes()); t }
                    3 => { let mut n = last.len(); while n > 0 && last[n - 1] != b'\n' { n -= 1; } let m = last[..n.saturating_sub(1)].iter().rposition(|c| *c == b'\n').map(|m| m + 1).unwrap_or(0); last[..if r.chance(1, 2) { m } else { n }].to_vec() }
                    _ => content(r, bad),
                };
                texts.push(t);
            }
            if link { for (k, t) in texts.iter().enumerate() { let t = t.clone(); put(&mut s, &format!("shared/v{}", k), &t, 0, "inplace"); } s.op(&[&"link", &p.inp.1, &"@/shared/v0"]); }
            else { let t = texts[0].clone(); put(&mut s, p.inp.1, &t, 0, "inplace"); }
            if r.chance(1, 3) { residue(r, &mut s, &p); }
            let mut fl = vec![];
            match r.below(8) {
                // many small reads
                0..=2 => { let a = *r.pick(&[1usize, 3, 10, 20, 100]); fl.push(f("READ_IN", "SHORT", 0, a, 0, true)); }
                3 | 4 => { for _ in 0..r.range(1, 3) { transient(r, &mut fl, &["OPEN_IN", "READ_IN", "OPEN_OUT", "WRITE_OUT", "STDERR_W", "STDOUT_W"]); } }
                5 => hard(r, &mut fl, &["READ_IN", "OPEN_OUT", "WRITE_OUT", "STDOUT_W", "STDERR_W"]),
                _ => {}
            }
            op_build(&mut s, "pbuild", mode, p.inp.0.as_bytes(), p.out.0, &fl);
            for k in 1..=ne {
                if link { s.op(&[&"plink", &p.inp.1, &format!("@/shared/v{}", k)]); }
                else { let t = texts[k].clone(); s.op(&[&"pput", &p.inp.1, &t, &"0", &"rename"]); }
            }
            s.op(&[&"sched"]);
            for e in 0..ne { let q = if r.chance(9, 10) { r.range(1, 6) } else { r.range(1, 60) }; let l = s.lines.last_mut().unwrap(); l.push(format!("q:R:0:{}", q).into_bytes()); l.push(format!("q:E:{}:0", e).into_bytes()); }
        }
        _ => panic!("no process scenarios for {}", prop),
    }
    s
}
fn inp_bytes(p: &Place) -> Vec<u8> { p.inp.0.as_bytes().to_vec() }
