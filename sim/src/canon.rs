//! Route configurations as canonical text, written and read independently of wayfinder's own
//! printer and parser.
#![allow(dead_code)]
use wayfinder::{Header, Method, NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes};

fn method_name(m: Method) -> &'static str {
    match m { Method::Get => "GET", Method::Post => "POST", Method::Put => "PUT", Method::Delete => "DELETE" }
}
fn ind(n: usize) -> String { "  ".repeat(n) }

pub fn print(c: &RouteConfig) -> String {
    let mut s = String::new();
    for h in &c.headers { s.push_str(&h.text); s.push('\n'); }
    if !c.headers.is_empty() { s.push('\n'); }
    s.push_str("/\n");
    print_routes(&c.routes, 1, &mut s);
    s
}
fn print_routes(r: &Routes, lvl: usize, s: &mut String) {
    for p in &r.query_parameters { s.push_str(&format!("{}[{}: {}]\n", ind(lvl), p.name, p.typ)); }
    for x in &r.resources {
        s.push_str(&format!("{}{}{} ", ind(lvl), method_name(x.method), if x.is_redirect { " ->" } else { "" }));
        for m in &x.modules { s.push_str(m); s.push_str("::"); }
        s.push_str(&x.name);
        s.push('\n');
        for p in &x.query_parameters { s.push_str(&format!("{}[{}: {}]\n", ind(lvl + 1), p.name, p.typ)); }
    }
    for n in &r.routes {
        match &n.path_segment {
            PathSegment::Static(t) => s.push_str(&format!("{}{}\n", ind(lvl), t)),
            PathSegment::Dynamic(p) => s.push_str(&format!("{}{{{}: {}}}\n", ind(lvl), p.name, p.typ)),
        }
        print_routes(&n.routes, lvl + 1, s);
    }
}

/// Reads canonical text only; anything else is `None`.
pub fn parse(text: &str) -> Option<RouteConfig> {
    let mut lines: Vec<&str> = text.lines().collect();
    let slash = lines.iter().position(|l| *l == "/")?;
    let body = lines.split_off(slash + 1);
    lines.pop();
    let headers = lines.iter().filter(|l| !l.is_empty()).map(|l| Header::new(*l)).collect();
    let body: Vec<(usize, &str)> = body.iter().filter(|l| !l.trim().is_empty()).map(|l| {
        let t = l.trim_start_matches(' ');
        ((l.len() - t.len()) / 2, t)
    }).collect();
    let mut i = 0;
    let routes = parse_routes(&body, &mut i, 1)?;
    if i != body.len() { return None; }
    Some(RouteConfig { headers, routes })
}
fn param(t: &str) -> Option<Param> {
    let mut p = t.splitn(2, ": ");
    Some(Param::new(p.next()?, p.next()?))
}
fn query(t: &str) -> Option<Param> { if t.starts_with('[') && t.ends_with(']') { param(&t[1..t.len() - 1]) } else { None } }
fn resource(t: &str) -> Option<Resource> {
    let mut w = t.splitn(2, ' ');
    let method = match w.next()? { "GET" => Method::Get, "POST" => Method::Post, "PUT" => Method::Put, "DELETE" => Method::Delete, _ => return None };
    let mut rest = w.next()?;
    let is_redirect = rest.starts_with("-> ");
    if is_redirect { rest = &rest[3..]; }
    let mut modules: Vec<String> = rest.split("::").map(|s| s.to_string()).collect();
    let name = modules.pop()?;
    Some(Resource { method, modules, name, is_redirect, query_parameters: vec![] })
}
fn parse_routes(b: &[(usize, &str)], i: &mut usize, lvl: usize) -> Option<Routes> {
    let mut r = Routes::default();
    while *i < b.len() && b[*i].0 == lvl {
        let t = b[*i].1;
        *i += 1;
        if let Some(p) = query(t) { r.query_parameters.push(p); }
        else if let Some(mut x) = resource(t) {
            while *i < b.len() && b[*i].0 == lvl + 1 { match query(b[*i].1) { Some(p) => { x.query_parameters.push(p); *i += 1 } None => break } }
            r.resources.push(x);
        } else if t.starts_with('{') && t.ends_with('}') {
            let p = param(&t[1..t.len() - 1])?;
            r.routes.push(NestedRoutes { path_segment: PathSegment::Dynamic(p), routes: parse_routes(b, i, lvl + 1)? });
        } else if t.chars().all(|c| c.is_alphanumeric() || c == '_') {
            r.routes.push(NestedRoutes { path_segment: PathSegment::Static(t.to_string()), routes: parse_routes(b, i, lvl + 1)? });
        } else { return None; }
    }
    if *i < b.len() && b[*i].0 > lvl { return None; }
    Some(r)
}

/// Does `config` account for every non-blank character of `text`, in order, and for nothing else?
pub fn conserves(text: &str, config: &RouteConfig) -> Result<(), String> {
    let strip = |s: &str| s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\r' | '\n')).collect::<Vec<char>>();
    let have = strip(text);
    let mut want: Vec<(char, bool)> = vec![]; // (char, case matters)
    let mut push = |s: &str, case: bool| for c in strip(s) { want.push((c, case)) };
    fn go(r: &Routes, push: &mut dyn FnMut(&str, bool)) {
        for p in &r.query_parameters { push(&format!("[{}:{}]", p.name, p.typ), true); }
        for x in &r.resources {
            push(method_name(x.method), false);
            if x.is_redirect { push("->", true); }
            for m in &x.modules { push(m, true); push("::", true); }
            push(&x.name, true);
            for p in &x.query_parameters { push(&format!("[{}:{}]", p.name, p.typ), true); }
        }
        for n in &r.routes {
            match &n.path_segment {
                PathSegment::Static(t) => push(t, true),
                PathSegment::Dynamic(p) => push(&format!("{{{}:{}}}", p.name, p.typ), true),
            }
            go(&n.routes, push);
        }
    }
    for h in &config.headers { push(&h.text, true); }
    push("/", true);
    go(&config.routes, &mut push);
    for i in 0..have.len().max(want.len()) {
        match (have.get(i), want.get(i)) {
            (Some(a), Some((b, case))) if a == b || (!case && a.eq_ignore_ascii_case(b)) => {}
            (a, b) => return Err(format!("character {} of the file is {:?}, the parsed configuration has {:?}", i, a, b.map(|x| x.0))),
        }
    }
    Ok(())
}
