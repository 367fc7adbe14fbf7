//! Workload generation: route configurations, malformed texts, storage damage.
use crate::canon;
use crate::rng::Rng;
use wayfinder::{Header, Method, NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes};

const SEG: &[&str] = &["users", "user", "people", "new", "newer", "edit", "books", "a", "ab", "abc", "b", "x_1", "api", "v2", "Users", "foo", "foobar", "über", "日本", "z9", "get", "posts", "_"];
const MODS: &[&str] = &["Users", "users", "USers", "People", "Books", "Admin", "AdminUsers", "adminUsers", "Api", "V2", "Zoo", "Alpha", "M1", "M2", "M10", "Ünï", "beta_gamma", "BetaGamma"];
const ACTS: &[&str] = &["Index", "Show", "Create", "New", "Edit", "Update", "Destroy", "index", "List", "list_all", "ListAll", "A", "B", "Zz", "Überblick", "X1", "X2", "X10"];
const PARS: &[&str] = &["id", "name", "lang", "page", "q", "user_id", "größe", "n2", "ID"];
const TYPS: &[&str] = &["String", "Uuid", "u32", "i64", "bool", "Größe", "T1"];
const HEAD: &[&str] = &["use uuid::Uuid;", "use std::io;", "use super::*;", "use crate::größe::Maß; // größe ≥ 0", "#[allow(unused)] use crate::x;", "use a::{b, c};", "  use indented::Thing;", "pub type T1 = u8; // /not a root", "use a::Aaa;", "use b::Bbb;", "use c::Ccc;", "use d::d::D;", "use z::Zzz;", "use Z::Zzz;", "extern crate z;"];

pub struct Shape { pub depth: usize, pub width: usize, pub res: usize, pub mods: usize, pub pool: usize, pub dup: bool, pub unicode: bool, pub redirects: bool, pub query: bool, pub dynamics: bool, pub headers: usize }
impl Shape {
    /// Swarm style: every run draws its own mix.
    pub fn draw(r: &mut Rng) -> Shape {
        let big = r.chance(1, 8);
        Shape {
            depth: if r.chance(1, 12) { r.range(4, 9) } else { r.range(0, 3) },
            width: if big { r.range(3, 8) } else { r.range(1, 4) },
            res: if big { r.range(1, 4) } else { r.range(1, 3) },
            mods: r.range(0, 3),
            pool: r.range(2, MODS.len()),
            dup: false,
            unicode: r.chance(1, 4),
            redirects: r.chance(1, 2),
            query: r.chance(1, 2),
            dynamics: r.chance(2, 3),
            headers: if r.chance(1, 10) { r.range(3, 9) } else { r.below(4) },
        }
    }
}
/// Names in use, and how many more routes and resources the configuration may have.
struct Used(std::collections::BTreeSet<String>, usize);

fn name<'a>(r: &mut Rng, pool: &[&'a str], unicode: bool) -> &'a str {
    loop { let s = *r.pick(pool); if unicode || s.is_ascii() { return s; } }
}
fn params(r: &mut Rng, s: &Shape) -> Vec<Param> {
    if !s.query || !r.chance(1, 3) { return vec![]; }
    (0..r.range(1, 3)).map(|_| Param::new(name(r, PARS, s.unicode), name(r, TYPS, s.unicode))).collect()
}
fn routes(r: &mut Rng, s: &Shape, depth: usize, used: &mut Used) -> Routes {
    let mut out = Routes { query_parameters: params(r, s), ..Routes::default() };
    let leaf = depth == 0;
    let leaf = leaf || used.1 == 0;
    let nres = if leaf { if used.1 == 0 { 1 } else { r.range(1, s.res) } } else { r.below(s.res + 1) };
    used.1 = used.1.saturating_sub(nres);
    for _ in 0..nres {
        let modules: Vec<String> = (0..r.below(s.mods + 1)).map(|_| name(r, &MODS[..s.pool], s.unicode).to_string()).collect();
        let mut n = name(r, ACTS, s.unicode).to_string();
        let is_redirect = s.redirects && r.chance(1, 5);
        if !is_redirect && !s.dup {
            let mut k = 0;
            while !used.0.insert(format!("{}::{}", modules.join("::"), n)) { k += 1; n = format!("{}{}", name(r, ACTS, s.unicode), k); }
        }
        out.resources.push(Resource {
            method: *r.pick(&[Method::Get, Method::Post, Method::Put, Method::Delete]),
            modules, name: n, is_redirect,
            query_parameters: params(r, s),
        });
    }
    if !leaf {
        let kids = r.range(if nres == 0 { 1 } else { 0 }, s.width);
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..kids {
            let seg = if s.dynamics && r.chance(1, 3) { PathSegment::Dynamic(Param::new(name(r, PARS, s.unicode), name(r, TYPS, s.unicode))) }
                      else { PathSegment::Static(name(r, SEG, s.unicode).to_string()) };
            let key = match &seg { PathSegment::Static(t) => t.clone(), PathSegment::Dynamic(p) => format!("{{{}", p.name) };
            if !s.dup && !seen.insert(key) { continue; }
            if used.1 == 0 { break; }
            used.1 -= 1;
            let d = if r.chance(1, 3) { 0 } else { depth - 1 };
            out.routes.push(NestedRoutes { path_segment: seg, routes: routes(r, s, d, used) });
        }
        if out.routes.is_empty() && out.resources.is_empty() {
            let mut leafy = routes(r, s, 0, used);
            leafy.query_parameters.append(&mut out.query_parameters);
            return leafy;
        }
    }
    out
}
pub fn config_of(r: &mut Rng, s: &Shape) -> RouteConfig {
    let mut headers = vec![];
    for _ in 0..s.headers { let h = name(r, HEAD, s.unicode); headers.push(Header::new(h)); }
    let budget = match r.below(24) { 0 => 120, 1..=4 => 50, 5..=12 => 24, _ => 12 };
    let mut used = Used(Default::default(), budget);
    let mut c = RouteConfig { headers, routes: routes(r, s, s.depth, &mut used) };
    if r.chance(1, 24) { extreme(r, &mut c); }
    c
}
/// One thing in unusual number or length, mostly around a power of two.
fn extreme(r: &mut Rng, c: &mut RouteConfig) {
    let get = |name: String, modules: Vec<String>| Resource { method: Method::Get, modules, name, is_redirect: false, query_parameters: vec![] };
    let stat = |name: String, routes: Routes| NestedRoutes { path_segment: PathSegment::Static(name), routes };
    let long = *r.pick(&[31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024]);
    let many = *r.pick(&[8usize, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 130]);
    match r.below(11) {
        0 => { let n = *r.pick(&[long, 1023, 4095, 4096, 8192, 9000]); c.headers.push(Header::new(format!("use {};", "h".repeat(n)))); }
        1 => for k in 0..many { c.headers.push(Header::new(format!("use h{}::X{};", k % 40, k))); },
        2 => c.routes.resources.push(get("LongModule".into(), vec!["M".repeat(long)])),
        3 => c.routes.resources.push(get("N".repeat(long), vec![])),
        4 => c.routes.query_parameters.push(Param::new("p".repeat(long), "T".repeat(*r.pick(&[3, long])))),
        5 => for k in 0..many { let p = Param::new(format!("p{}", k), "u32"); match c.routes.resources.last_mut() { Some(x) if k % 2 == 0 => x.query_parameters.push(p), _ => c.routes.query_parameters.push(p) } },
        6 => for k in 0..many { c.routes.routes.push(stat(format!("wide{}", k), Routes { resources: vec![get(format!("Wide{}", k), vec!["Wide".into(); k % 3])], ..Routes::default() })); },
        7 => {
            let mut x = Routes { resources: vec![get("Deep".into(), vec![])], ..Routes::default() };
            for k in 0..many.min(33) { x = Routes { routes: vec![stat(format!("d{}", k), x)], ..Routes::default() }; }
            c.routes.routes.append(&mut x.routes);
        }
        8 => c.routes.resources.push(get("Inner".into(), (0..many.min(33)).map(|k| format!("In{}", k)).collect())),
        9 => for k in 0..many { c.routes.resources.push(get(format!("Many{}", k), vec![])); },
        _ => c.routes.routes.push(stat("s".repeat(long.min(65)), Routes { resources: vec![get("LongPath".into(), vec![])], ..Routes::default() })),
    }
}
/// A configuration the generator should accept (the reference run has the last word).
pub fn config(r: &mut Rng) -> RouteConfig { let s = Shape::draw(r); config_of(r, &s) }
/// Many modules and actions on each level, names colliding up to case: provokes order leaks.
pub fn busy_config(r: &mut Rng) -> RouteConfig {
    let mut s = Shape::draw(r);
    s.mods = r.range(1, 3); s.pool = MODS.len(); s.res = 6; s.depth = r.range(1, 3); s.width = r.range(2, 5);
    config_of(r, &s)
}
/// The same configuration with one small difference, of a kind that a lookup by too little would miss.
pub fn near(r: &mut Rng, c: &RouteConfig) -> RouteConfig {
    let mut c = c.clone();
    for _ in 0..8 {
        let before = canon::print(&c);
        if r.chance(1, 3) {
            match r.below(4) {
                0 if !c.headers.is_empty() => { let k = r.below(c.headers.len()); c.headers.remove(k); }
                1 if !c.headers.is_empty() => { let k = r.below(c.headers.len()); c.headers[k] = Header::new(*r.pick(HEAD)); }
                2 if c.headers.len() > 1 => { let k = c.headers.len() - 1; c.headers.swap(0, k); }
                _ => c.headers.push(Header::new(*r.pick(HEAD))),
            }
        } else {
            let mut n = 0;
            count(&c.routes, &mut n);
            let mut k = r.below(n);
            touch(r, &mut c.routes, &mut k);
        }
        if canon::print(&c) != before { break; }
    }
    c
}
fn count(x: &Routes, n: &mut usize) { *n += 1; for k in &x.routes { count(&k.routes, n); } }
fn touch(r: &mut Rng, x: &mut Routes, k: &mut usize) -> bool {
    if *k > 0 {
        *k -= 1;
        for n in &mut x.routes { if touch(r, &mut n.routes, k) { return true; } }
        return false;
    }
    fn param(r: &mut Rng, p: &mut Param) { if r.chance(1, 2) { p.typ = (*r.pick(TYPS)).into(); } else { p.name = (*r.pick(PARS)).into(); } }
    fn flip(s: &str) -> String { let mut c = s.chars(); match c.next() { Some(f) if f.is_lowercase() => f.to_uppercase().chain(c).collect(), Some(f) => f.to_lowercase().chain(c).collect(), None => String::new() } }
    let what = r.below(10);
    match what {
        0..=5 if !x.resources.is_empty() => {
            let i = r.below(x.resources.len());
            let e = &mut x.resources[i];
            match what {
                0 => e.method = *r.pick(&[Method::Get, Method::Post, Method::Put, Method::Delete]),
                1 => e.is_redirect = !e.is_redirect,
                2 => e.name = if r.chance(1, 2) { flip(&e.name) } else { format!("{}X", e.name) },
                3 => if e.modules.is_empty() || r.chance(1, 4) { e.modules.push((*r.pick(MODS)).into()) } else if r.chance(1, 3) { e.modules.pop(); } else { let j = r.below(e.modules.len()); e.modules[j] = flip(&e.modules[j]); },
                4 => match e.query_parameters.first_mut() { Some(p) => param(r, p), None => e.query_parameters.push(Param::new(*r.pick(PARS), *r.pick(TYPS))) },
                _ => { let j = r.below(x.resources.len()); x.resources.swap(i, j); }
            }
        }
        6 | 7 if !x.query_parameters.is_empty() => { let j = r.below(x.query_parameters.len()); param(r, &mut x.query_parameters[j]); }
        _ if !x.routes.is_empty() => {
            let i = r.below(x.routes.len());
            let j = r.below(x.routes.len());
            if r.chance(1, 4) { x.routes.swap(i, j); return true; }
            match &mut x.routes[i].path_segment { PathSegment::Static(t) => *t = if r.chance(1, 2) { flip(t) } else { format!("{}2", t) }, PathSegment::Dynamic(p) => param(r, p) }
        }
        _ => x.query_parameters.push(Param::new(*r.pick(PARS), *r.pick(TYPS))),
    }
    true
}
/// A long route file: hundreds to thousands of lines.
pub fn big_text(r: &mut Rng) -> String {
    let n = *r.pick(&[130usize, 260, 300, 520, 600, 1050, 1300, 2100]);
    let mut t = String::from("use uuid::Uuid;\n\n/\n  GET Index\n");
    let wide = r.chance(1, 2);
    for k in 0..n {
        match (wide, r.below(3)) {
            (true, 0) => t.push_str(&format!("  POST Section{}::Act{}\n", k % 7, k)),
            (_, 1) => t.push_str(&format!("  section{}\n    GET Section{}::Show{}\n      [lang: String]\n", k, k % 11, k)),
            _ => t.push_str(&format!("  part{}\n    {{id: Uuid}}\n      PUT Part::Of::Act{}\n", k, k)),
        }
    }
    // resources come before child routes
    let (mut a, mut b) = (String::new(), String::new());
    let (h, body) = t.split_once("/\n").unwrap();
    for l in body.split_inclusive('\n') { if l.starts_with("  ") && !l.starts_with("   ") && l.contains(' ') && (l.starts_with("  GET") || l.starts_with("  POST")) { a.push_str(l) } else { b.push_str(l) } }
    format!("{}/\n{}{}", h, a, b)
}
pub fn valid_text(r: &mut Rng) -> String { let t = canon::print(&config(r)); decorate(r, t) }

/// Harmless variety in how a text is laid out: blank lines, CRLF, method case.
pub fn decorate(r: &mut Rng, t: String) -> String {
    let mut t = t;
    if r.chance(1, 8) { t = t.replace("GET ", "get ").replace("POST ", "Post "); }
    if r.chance(1, 8) { t = t.replace('\n', "\r\n"); }
    if r.chance(1, 6) { t = t.replace("::", " :: "); }
    if r.chance(1, 6) { t = format!("{}\n\n", t); }
    t
}

/// A text that parses but that the generator refuses.
pub fn refused_text(r: &mut Rng) -> String {
    let base = canon::print(&config(r));
    match r.below(3) {
        0 => format!("{}  dup_here\n    GET Mod::Dup9\n    POST Mod::Dup9\n", base),
        1 => format!("{}  dup_here\n    GET Dup8\n  dup_here\n    GET Dup9\n", base),
        _ => format!("{}  da\n    GET M::N::Dup9\n    db\n      PUT M::N::Dup9\n", base),
    }
}

pub struct Bad { pub text: String, pub needle: &'static str }
/// A malformed text together with a message its report must contain ("" if none is prescribed).
pub fn malformed(r: &mut Rng) -> Bad {
    let ok = canon::print(&config(r));
    let lines: Vec<String> = ok.lines().map(|s| s.to_string()).collect();
    let slash = lines.iter().position(|l| l == "/").unwrap();
    let head = lines[..=slash].join("\n");
    let q = "Expected \":\"";
    match r.below(15) {
        12 | 13 => {
            // below many segments
            let n = *r.pick(&[1usize, 2, 3, 7, 8, 9, 15, 16, 17, 33]);
            let way: String = (1..=n).map(|k| format!("{}seg{}\n", "  ".repeat(k), k)).collect();
            let ind = "  ".repeat(n + 1);
            // (nom reports the outermost list that came out empty)
            let end = *r.pick(&["[lang String]\n", "FETCH Index\n", "GET Index  \n x\n", "GET [id: Größe\n"]);
            Bad { text: format!("{}\n{}{}{}", head, way, ind, end), needle: "" }
        }
        14 => { let n = *r.pick(&[70usize, 80, 120, 127, 128, 129, 255, 256, 300, 1000]); let (a, b) = if r.chance(1, 2) { ("l", "") } else { ("ö", "é") }; Bad { text: format!("{}\n  [{} {}String]\n  GET Index\n", head, a.repeat(n), b), needle: q } }
        0 => Bad { text: format!("{}\n  [lang String]\n  GET Index\n", head), needle: q },
        1 => Bad { text: format!("{}\n  [lang]\n  GET Index\n", head), needle: q },
        2 => Bad { text: format!("{}\n  [lang: String\n  GET Index\n", head), needle: "Expected a \"]\"" },
        3 => Bad { text: format!("{}\n  [a: T1]\n  [lang: String}}\n  GET Index\n", head), needle: "Expected a \"]\"" },
        4 => Bad { text: format!("{}\n", head), needle: "Expected resources or child routes" },
        5 => Bad { text: format!("{}\n  users\n", head), needle: "" },
        6 => Bad { text: format!("{}\n  FETCH Index\n", head), needle: "Expected resources or child routes" },
        7 => Bad { text: format!("{}\n GET Index\n", head), needle: "Expected resources or child routes" },
        8 => Bad { text: format!("{}\n  {{id: Uuid\n    GET Show\n", head), needle: "" },
        9 => Bad { text: format!("{}\n@@@\n", ok.trim_end()), needle: "" },
        10 => { let k = r.range(slash, lines.len() - 1); Bad { text: format!("{}\n   !? {}\n", lines[..k].join("\n"), lines[k]), needle: "" } }
        _ => Bad { text: lines[..slash].join("\n"), needle: "" },
    }
}

/// A text of the same length that differs in one place: in its lines, a word or a letter.
pub fn sibling(r: &mut Rng, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let at = |b: &[u8], f: &dyn Fn(usize) -> bool| -> Vec<usize> { (0..b.len()).filter(|k| f(*k)).collect() };
    for _ in 0..r.range(1, 2) {
        let ks = match r.below(5) {
            0 | 1 => at(&b, &|k| b[k] == b'\n' || b[k] == b' '),
            2 => at(&b, &|k| b[k].is_ascii_alphabetic()),
            3 => at(&b, &|k| matches!(b[k], b'[' | b']' | b'{' | b'}' | b':' | b'/' | b'@')),
            _ => at(&b, &|k| b[k..].starts_with(b"GET ") || b[k..].starts_with(b"PUT ")),
        };
        if ks.is_empty() { continue; }
        let k = *r.pick(&ks);
        match b[k] {
            b'\n' => b[k] = b' ',
            b' ' => b[k] = b'\n',
            c if b[k..].starts_with(b"GET ") || b[k..].starts_with(b"PUT ") => { let n: &[u8] = if c == b'G' { b"PUT" } else { b"GET" }; b[k..k + 3].copy_from_slice(n) }
            c if c.is_ascii_alphabetic() => b[k] = if r.chance(1, 2) { c ^ 0x20 } else { b'a' + r.below(26) as u8 },
            _ => b[k] = *r.pick(&[b'[', b']', b'{', b'}', b':', b' ', b'x']),
        }
    }
    String::from_utf8(b).unwrap_or_else(|_| t.to_string())
}

/// Storage damage to a file as it sat on disk.
pub fn damage(r: &mut Rng, clean: &[u8], stale: &[u8]) -> (&'static str, Vec<u8>) {
    let mut t = clean.to_vec();
    let n = t.len();
    if n < 2 { return ("truncate", vec![]); }
    let at = r.below(n);
    let blk = *r.pick(&[1usize, 2, 4, 8, 16, 64, 512]);
    let starts: Vec<usize> = std::iter::once(0).chain(t.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1)).filter(|i| *i < n).collect();
    let line = |t: &[u8], i: usize| { let e = t[i..].iter().position(|c| *c == b'\n').map(|p| i + p + 1).unwrap_or(t.len()); (i, e) };
    match r.below(16) {
        0 => { t.truncate(at); ("truncate", t) }
        1 => { t[at] ^= 1 << r.below(8); ("bit-flip", t) }
        2 => { t[at] = (r.u64() & 0xff) as u8; ("byte", t) }
        3 => { let e = (at + blk).min(n); for c in &mut t[at..e] { *c = 0; } ("zero-block", t) }
        4 => { let e = (at + blk).min(n); t.drain(at..e); ("lost-block", t) }
        5 => { let e = (at + blk).min(n); let d = t[at..e].to_vec(); let k = r.below(t.len() + 1); t.splice(k..k, d); ("dup-block", t) }
        6 => { let s = stale; if s.len() > at { let e = (at + blk).min(n).min(s.len()); let d = s[at..e].to_vec(); t.splice(at..(at + d.len()).min(n), d); } ("stale-block", t) }
        7 => { let mut d = t[..at].to_vec(); if stale.len() > at { d.extend_from_slice(&stale[at..]); } ("torn", d) }
        8 => { let (a, b) = line(&t, *r.pick(&starts)); t.drain(a..b); ("lost-line", t) }
        9 => { let (a, b) = line(&t, *r.pick(&starts)); let d = t[a..b].to_vec(); let k = *r.pick(&starts); t.splice(k..k, d); ("dup-line", t) }
        10 => { let (a, b) = line(&t, *r.pick(&starts)); let d = t.drain(a..b).collect::<Vec<_>>(); let k = starts.iter().cloned().filter(|x| *x <= t.len()).max_by_key(|x| x.wrapping_mul(2654435761) ^ at).unwrap_or(0); t.splice(k..k, d); ("moved-line", t) }
        11 => {
            let k = if r.chance(1, 2) { at } else { *r.pick(&starts) };
            let g: &[u8] = if r.chance(1, 2) { *r.pick(&[&b" "[..], b"\t", b"\n", b"\r", b"\0", b"\xff", b"/", b"#", b"\xc3"]) }
                else { *r.pick(&[&b"\x1a"[..], b"\x04", b"\x0c", b"\x0b", b"\x7f", b"\x08", b"\x1b", b"\xef\xbb\xbf", b"\xe2\x80\xa8", b"\xc2\x85", b"\xc2\xa0", b"\r\n", b"//", b"/*", b"# ", b"; ", b"--", b"---\n", b"...\n", b"EOF\n", b"__END__\n", b"@@", b"<<<<<<< HEAD\n", b"\\", b"\\\n", b"\"", b"\x1a\n", b".\n", b"%", b"!"]) };
            t.splice(k..k, g.iter().cloned());
            ("insert", t)
        }
        12 => { let (a, b) = line(&t, *r.pick(&starts)); let l = &t[a..b]; let sp = l.iter().take_while(|c| **c == b' ').count(); if sp > 0 { t.drain(a..a + 1 + r.below(sp)); } ("lost-indent", t) }
        13 => { let (a, _) = line(&t, *r.pick(&starts)); let k = r.range(1, 2); for _ in 0..k { t.insert(a, b' '); } ("extra-indent", t) }
        14 => { let g: &[u8] = *r.pick(&[&b"garbage"[..], b"\0\0\0\0", b"  GET Extra\n", b"\n\n/\n  GET Other\n", b"  tail\n", b" \t", b"\xff\xfe", b"      GET Deep\n", b"\x1a", b"\n__END__\nx\n", b"\x1a  GET Late\n", b"\0\n"]); t.extend_from_slice(g); ("tail", t) }
        _ => { t[at] = 0x80 | (r.u64() as u8); ("bad-utf8", t) }
    }
}
