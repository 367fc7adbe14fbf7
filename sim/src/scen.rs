//! Scenarios: a few lines of words.  They are what a seed expands to, what is minimised, and what
//! a replay file holds.
use std::fmt::Write as _;

pub type Word = Vec<u8>;
pub type Line = Vec<Word>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Scen { pub prop: String, pub engine: String, pub seed: u64, pub lines: Vec<Line> }

pub fn esc(b: &[u8]) -> String {
    if b.is_empty() { return "%_".into(); }
    let mut s = String::new();
    for &c in b {
        if (0x21..0x7f).contains(&c) && c != b'%' { s.push(c as char) } else { let _ = write!(s, "%{:02x}", c); }
    }
    s
}
pub fn unesc(s: &str) -> Option<Vec<u8>> {
    if s == "%_" { return Some(vec![]); }
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    Some(o)
}
impl Scen {
    pub fn new(prop: &str, engine: &str, seed: u64) -> Scen { Scen { prop: prop.into(), engine: engine.into(), seed, lines: vec![] } }
    pub fn op(&mut self, words: &[&dyn AsRef<[u8]>]) { self.lines.push(words.iter().map(|w| w.as_ref().to_vec()).collect()) }
    pub fn print(&self) -> String {
        let mut s = format!("wfsim 1\nprop {}\nengine {}\nseed {}\n", self.prop, self.engine, self.seed);
        for l in &self.lines { s.push_str(&l.iter().map(|w| esc(w)).collect::<Vec<_>>().join(" ")); s.push('\n'); }
        s
    }
    pub fn parse(t: &str) -> Option<Scen> {
        let mut it = t.lines().filter(|l| !l.is_empty() && !l.starts_with('#'));
        if it.next()? != "wfsim 1" { return None; }
        let prop = it.next()?.strip_prefix("prop ")?.to_string();
        let engine = it.next()?.strip_prefix("engine ")?.to_string();
        let seed = it.next()?.strip_prefix("seed ")?.parse().ok()?;
        let mut lines = vec![];
        for l in it { lines.push(l.split(' ').map(unesc).collect::<Option<Vec<_>>>()?); }
        Some(Scen { prop, engine, seed, lines })
    }
}
pub fn w(l: &Line, i: usize) -> &str { l.get(i).and_then(|x| std::str::from_utf8(x).ok()).unwrap_or("") }
pub fn num(l: &Line, i: usize) -> i64 { w(l, i).parse().unwrap_or(0) }

/// Smaller variants of a scenario, most aggressive first.
pub fn candidates(s: &Scen) -> Vec<Scen> {
    let mut out = vec![];
    let n = s.lines.len();
    let mut size = n / 2;
    while size >= 1 {                                        // drop runs of lines
        let mut i = 0;
        while i < n { let mut c = s.clone(); c.lines.drain(i..(i + size).min(n)); out.push(c); i += size; }
        size /= 2;
    }
    for i in 0..n {                                          // drop fault and schedule words
        for j in (1..s.lines[i].len()).rev() {
            let word = &s.lines[i][j];
            if word.starts_with(b"f:") || word.starts_with(b"q:") { let mut c = s.clone(); c.lines[i].remove(j); out.push(c); }
        }
    }
    for i in 0..n {
        for j in 1..s.lines[i].len() {
            let word = &s.lines[i][j];
            if word.contains(&b'\n') || word.len() > 24 { for t in smaller_text(word) { let mut c = s.clone(); c.lines[i][j] = t; out.push(c); } }
            else if let Ok(t) = std::str::from_utf8(word) {  // shrink numbers inside words
                for v in smaller_numbers(t) { let mut c = s.clone(); c.lines[i][j] = v.into_bytes(); out.push(c); }
            }
        }
    }
    out
}
fn smaller_text(t: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let lines: Vec<&[u8]> = t.split_inclusive(|c| *c == b'\n').collect();
    let n = lines.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut i = 0;
        while i < n {
            let v: Vec<u8> = lines.iter().enumerate().filter(|(k, _)| *k < i || *k >= i + size).flat_map(|(_, l)| l.to_vec()).collect();
            out.push(v);
            i += size;
        }
        size /= 2;
    }
    if n <= 1 && t.len() > 1 { out.push(t[..t.len() / 2].to_vec()); out.push(t[t.len() / 2..].to_vec()); }
    out
}
fn smaller_numbers(t: &str) -> Vec<String> {
    let mut out = vec![];
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut k = i;
            while k < b.len() && b[k].is_ascii_digit() { k += 1; }
            if let Ok(v) = t[i..k].parse::<u64>() {
                for nv in [0, v / 2, v.saturating_sub(1)] { if nv < v { out.push(format!("{}{}{}", &t[..i], nv, &t[k..])); } }
            }
            i = k;
        } else { i += 1; }
    }
    out
}
