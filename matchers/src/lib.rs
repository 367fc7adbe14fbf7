//! Matchers that the real generator made from `routes/`, and the parameter types they use.  What a
//! parameter type does while it is parsed or printed is written in the text of the parameter.
#![allow(warnings)]

pub mod kinds {
    use std::fmt;
    use std::str::FromStr;

    /// !e refuses, !p panics, !y lets other threads run, !rN~PATH asks router N for PATH;
    /// when printed: !d fails, !q panics, !Y lets others run, !RN~PATH asks.
    fn act(text: &str, printing: bool) -> Result<(), String> {
        let mut c = text.chars();
        if c.next() != Some('!') { return Ok(()); }
        match (c.next(), printing) {
            (Some('e'), false) | (Some('d'), true) => return Err(format!("refused {}", shown(text))),
            (Some('p'), false) | (Some('q'), true) => panic!("simulated panic for {}", text),
            (Some('y'), false) | (Some('Y'), true) => crate::hook(),
            (Some('r'), false) | (Some('R'), true) if text.len() > 2 => {
                let rest: String = c.collect();
                let (n, path) = (rest.bytes().next().map_or(0, |b| b as usize), rest.replace('~', "/"));
                let got = crate::run_caught(n, path.get(1..).unwrap_or("").as_bytes(), b"GET");
                crate::NESTED.with(|l| l.borrow_mut().push(got));
            }
            _ => {}
        }
        Ok(())
    }
    /// A call from inside must leave no trace in the result.
    fn shown(text: &str) -> String { text.replace("!r", "!s").replace("!R", "!s") }
    macro_rules! kinds { ($($n:ident)*) => { $(
        #[derive(PartialEq, Eq)]
        pub struct $n(String);
        impl FromStr for $n { type Err = String; fn from_str(s: &str) -> Result<$n, String> { act(s, false).map(|_| $n(s.to_string())) } }
        impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { act(&self.0, true).map_err(|_| fmt::Error)?; f.write_str(&shown(&self.0)) } }
        impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}({:?})", stringify!($n), shown(&self.0)) } }
    )* } }
    kinds!(Ka Kb Kc);
}

thread_local! { pub static NESTED: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }
static HOOK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn set_hook(f: fn()) { HOOK.store(f as usize, std::sync::atomic::Ordering::SeqCst); }
fn hook() {
    let f = HOOK.load(std::sync::atomic::Ordering::SeqCst);
    if f != 0 { unsafe { std::mem::transmute::<usize, fn()>(f)() } }
}

macro_rules! routers { ($($m:ident)*) => {
    $( mod $m {
        use crate::kinds;
        include!(concat!(env!("WFSIM_MATCHERS"), "/", stringify!($m), ".rs"));
        pub fn run(path: &[u8], method: &[u8]) -> String {
            match routes::match_route(path, method) {
                Err(e) => format!("error {} {:?}", e, e),
                Ok(m) => {
                    let text = format!("{:?}", m);
                    match m {
                        routes::Match::Route(r) => format!("{} at {}", text, r.to_path()),
                        routes::Match::Redirect(r) => format!("{} to {}", text, r.to_path()),
                        _ => text,
                    }
                }
            }
        }
    } )*
    const ALL: &[fn(&[u8], &[u8]) -> String] = &[$($m::run),*];
    pub const TEXTS: &[&str] = &[$(include_str!(concat!("../routes/", stringify!($m), ".routes"))),*];
} }
routers!(r00 r01 r02 r03 r04 r05 r06 r07 r08 r09 r10 r11 r12 r13 r14 r15);

/// The same, with a panic of a parameter type caught.
pub fn run_caught(router: usize, path: &[u8], method: &[u8]) -> String {
    std::panic::catch_unwind(|| run(router, path, method)).unwrap_or_else(|p| format!("panic {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()))
}

/// Matches and, if there is a route, makes its path again.
pub fn run(router: usize, path: &[u8], method: &[u8]) -> String { ALL[router % ALL.len()](path, method) }
