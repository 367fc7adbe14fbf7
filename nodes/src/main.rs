//! A build script, reduced to its essence: which builder calls to make comes
//! from the arguments.  `wfnode MODE [INPUT OUTPUT]...`
use std::env::args_os;
use std::ffi::OsString;
use wayfinder::build::Builder;

#[path = "../../sim/src/canon.rs"]
mod canon;

/// What a build must leave as it was.
mod watch {
    use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
    extern "C" {
        fn fcntl(fd: i32, cmd: i32, ...) -> i32;
        fn umask(m: u32) -> u32;
        fn sigaction(sig: i32, new: *const u8, old: *mut u8) -> i32;
        fn pthread_sigmask(how: i32, new: *const u8, old: *mut u8) -> i32;
        fn getrlimit(what: i32, r: *mut u64) -> i32;
        fn getpriority(which: i32, who: u32) -> i32;
    }
    static OURS: AtomicBool = AtomicBool::new(false);
    static TESTING: AtomicBool = AtomicBool::new(false);
    static HITS: AtomicU32 = AtomicU32::new(0);
    fn next(x: &mut u64, n: u64) -> u64 { *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*x >> 33) % n }
    /// The process is not always in the state it would be in by default.
    fn vary(mut x: u64) {
        extern "C" { fn signal(s: i32, h: usize) -> usize; fn setrlimit(what: i32, r: *const u64) -> i32; fn dup(f: i32) -> i32; fn alarm(s: u32) -> u32; fn prctl(o: i32, ...) -> i32; fn sigaddset(s: *mut u8, k: i32) -> i32; }
        let x = &mut x;
        unsafe {
            umask([0o022, 0o002, 0o077, 0o027, 0o0][next(x, 5) as usize]);
            for s in [1, 2, 10, 12, 13, 15] { if next(x, 4) == 0 { signal(s, next(x, 2) as usize); } }
            if next(x, 3) == 0 { let mut b = [0u8; 128]; sigaddset(b.as_mut_ptr(), [1, 2, 10, 15][next(x, 4) as usize]); pthread_sigmask(0, b.as_ptr(), std::ptr::null_mut()); }
            let mut r = [0u64; 2];
            if next(x, 3) == 0 && getrlimit(7, r.as_mut_ptr()) == 0 && r[0] > 300 { r[0] = 300 + next(x, 100); setrlimit(7, r.as_ptr()); }
            if next(x, 3) == 0 && getrlimit(4, r.as_mut_ptr()) == 0 { r[0] = r[0].min(next(x, 2) * 4096); setrlimit(4, r.as_ptr()); }
            if next(x, 3) == 0 { dup(0); }
            if next(x, 3) == 0 { alarm(7200 + next(x, 1000) as u32); }
            if next(x, 3) == 0 { prctl(15, b"script\0".as_ptr()); }
        }
        match next(x, 4) { 0 => std::env::remove_var("RUST_BACKTRACE"), 1 => std::env::set_var("RUST_BACKTRACE", "1"), _ => {} }
        match next(x, 3) { 0 => std::env::remove_var("TMPDIR"), _ => {} }
    }
    pub fn start() {
        vary(std::env::var("WFNODE_WATCH").ok().and_then(|v| v.parse().ok()).unwrap_or(1));
        let old = std::panic::take_hook();
        OURS.store(true, SeqCst);
        std::panic::set_hook(Box::new(move |i| if TESTING.load(SeqCst) { HITS.fetch_add(1, SeqCst); } else { old(i) }));
    }
    fn bytes<const N: usize>(f: impl FnOnce(*mut u8) -> i32) -> [u8; N] { let mut b = [0u8; N]; f(b.as_mut_ptr()); b }
    pub fn snapshot() -> Vec<(&'static str, String)> {
        let mut v = vec![("working directory", format!("{:?}", std::env::current_dir().ok()))];
        let mut e: Vec<_> = std::env::vars_os().collect();
        e.sort();
        v.push(("environment", format!("{:?}", e)));
        v.push(("open files", format!("{:?}", (0..256).filter(|f| unsafe { fcntl(*f, 1) } >= 0).collect::<Vec<_>>())));
        v.push(("flags of the standard streams", format!("{:?}", (0..3).map(|f| unsafe { (fcntl(f, 1), fcntl(f, 3)) }).collect::<Vec<_>>())));
        let m = unsafe { umask(0o77) };
        unsafe { umask(m) };
        v.push(("file mode mask", format!("{:o}", m)));
        v.push(("signal handling", format!("{:?}", (1..32).map(|s| bytes::<160>(|p| unsafe { sigaction(s, std::ptr::null(), p) })[..8].to_vec()).collect::<Vec<_>>())));
        v.push(("blocked signals", format!("{:?}", bytes::<128>(|p| unsafe { pthread_sigmask(0, std::ptr::null(), p) }))));
        v.push(("limits", format!("{:?} {}", (0..10).map(|k| { let mut r = [0u64; 2]; unsafe { getrlimit(k, r.as_mut_ptr()) }; r }).collect::<Vec<_>>(), unsafe { getpriority(0, 0) })));
        v.push(("threads", std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0).to_string()));
        extern "C" { fn alarm(s: u32) -> u32; fn getpgid(p: i32) -> i32; fn getsid(p: i32) -> i32; fn prctl(o: i32, ...) -> i32; fn setlocale(c: i32, l: *const u8) -> *const i8; fn lseek(f: i32, o: i64, w: i32) -> i64; }
        unsafe {
            let a = alarm(0);
            alarm(a);
            v.push(("alarm", (a > 0).to_string()));
            v.push(("process group and session", format!("{:?}", (getpgid(0), getsid(0)))));
            let mut name = [0u8; 16];
            prctl(16, name.as_mut_ptr());
            v.push(("process attributes", format!("{:?} {} {}", name, prctl(3), prctl(39, 0, 0, 0, 0))));
            let l = setlocale(6, std::ptr::null());
            v.push(("locale", if l.is_null() { String::new() } else { std::ffi::CStr::from_ptr(l as *const _).to_string_lossy().to_string() }));
            v.push(("standard input", lseek(0, 0, 1).to_string()));
        }
        v.push(("children", std::fs::read_to_string("/proc/thread-self/children").unwrap_or_default()));
        let n = HITS.load(SeqCst);
        TESTING.store(true, SeqCst);
        let _ = std::panic::catch_unwind(|| panic!("test of the hook"));
        TESTING.store(false, SeqCst);
        v.push(("panic hook", (HITS.load(SeqCst) - n).to_string()));
        v
    }
}

/// Runs one build; if told to watch, what it does to the process must be nothing.
fn run(f: impl FnOnce()) {
    if std::env::var_os("WFNODE_WATCH").is_none() { return f(); }
    static START: std::sync::Once = std::sync::Once::new();
    START.call_once(watch::start);
    let before = watch::snapshot();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let after = watch::snapshot();
    for (a, b) in before.iter().zip(&after) {
        if a != b {
            eprintln!("wfnode: changed: {}: {} was {}", a.0, b.1, a.1);
            std::process::exit(77);
        }
    }
    if r.is_err() { std::process::exit(101); }
}

/// Several builders that are made, told things and run in any order.
fn script(args: &[OsString]) {
    struct Send<T>(T);
    unsafe impl<T> std::marker::Send for Send<T> {}
    let mut slots: std::collections::BTreeMap<String, Builder> = Default::default();
    for step in args {
        let t = step.to_str().expect("step");
        let (op, rest) = t.split_once(':').unwrap_or((t, ""));
        let (a, b) = rest.split_once(':').unwrap_or((rest, ""));
        let mut change = |f: &dyn Fn(Builder) -> Builder| if let Some(x) = slots.remove(a) { slots.insert(a.into(), f(x)); };
        match op {
            "new" => { slots.insert(a.into(), Builder::new()); }
            "env" => { slots.insert(a.into(), Builder::from_env()); }
            "in" => change(&|x| x.input_file(b)),
            "conf" => change(&|x| x.input_config(canon::parse(b).expect("canonical config"))),
            "out" => change(&|x| x.output_file(b)),
            "stdout" => change(&|x| x.output_stdout()),
            "drop" => { slots.remove(a); }
            "set" => std::env::set_var(a, b),
            "unset" => std::env::remove_var(a),
            "cd" => std::env::set_current_dir(rest).expect("cd"),
            "write" => std::fs::write(a, b).expect("write"),
            "report" => { let mut v = vec![]; let r = wayfinder::parse::route_config(rest); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wayfinder::parse::errors::show_errors(&mut v, rest, r, ""))); }
            "build" => if let Some(x) = slots.remove(a) { x.build() },
            "tbuild" => if let Some(x) = slots.remove(a) {
                let x = Send(x);
                if std::thread::spawn(move || { let x = x; x.0.build() }).join().is_err() { std::process::exit(101) }
            },
            _ => panic!("step {t}"),
        }
    }
}

fn main() {
    let mut args: Vec<OsString> = args_os().skip(1).collect();
    let mode = args.remove(0).into_string().unwrap();
    if std::env::var_os("WFNODE_GONE").is_some() {
        // the directory this was started in is no longer there
        let d = std::env::current_dir().unwrap().join("gone");
        let d = std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(d.as_os_str()).to_vec()).unwrap();
        // past the simulated calls: mkdir, chdir, rmdir
        extern "C" { fn syscall(n: i64, ...) -> i64; }
        for n in [83i64, 80, 84] { assert_eq!(unsafe { syscall(n, d.as_ptr(), 0o755i64) }, 0); }
    }
    let config = || {
        let text = std::env::var("WFNODE_CONFIG").expect("WFNODE_CONFIG");
        canon::parse(&text).expect("canonical config")
    };
    // Settings made twice: the last ones count, whatever their order.
    let twice: u32 = std::env::var("WFNODE_TWICE").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    let source = move |b: Builder| match twice & 3 {
        1 => b.input_file("decoy.routes"),
        2 => b.input_config(canon::parse("/\n  GET Decoy\n").expect("decoy")),
        3 => b.input_config(canon::parse("/\n  GET Decoy\n").expect("decoy")).input_file("decoy.routes"),
        _ => b,
    };
    let target = move |b: Builder| match twice >> 2 & 3 { 1 => b.output_file("decoy.rs"), 2 => b.output_stdout(), 3 => b.output_stdout().output_file("decoy.rs"), _ => b };
    let new = || target(source(Builder::new()));
    let from_env = || source(target(Builder::from_env()));
    match mode.as_str() {
        "env-file" => {
            for p in args.chunks(2) {
                run(|| from_env().input_file(&p[0]).output_file(&p[1]).build());
            }
        }
        "new-file" => {
            for p in args.chunks(2) {
                run(|| new().input_file(&p[0]).output_file(&p[1]).build());
            }
        }
        "new-stdout" => run(|| new().input_file(&args[0]).output_stdout().build()),
        "env-config" => run(|| from_env().input_config(config()).output_file(&args[1]).build()),
        "new-config" => run(|| new().output_file(&args[1]).input_config(config()).build()),
        "new-config-stdout" => run(|| new().input_config(config()).output_stdout().build()),
        "no-source" => run(|| Builder::from_env().output_file(&args[1]).build()),
        "no-source-new" => run(|| Builder::new().output_file(&args[1]).build()),
        "no-target" => run(|| Builder::from_env().input_file(&args[0]).build()),
        "no-target-new" => run(|| Builder::new().input_file(&args[0]).build()),
        "script" => script(&args),
        m => panic!("mode {m}"),
    }
}
