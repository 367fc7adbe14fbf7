//! The few system calls the simulator itself needs.
#![allow(dead_code)]
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_long, c_void};

#[repr(C)]
pub struct Timespec { pub sec: i64, pub nsec: i64 }
#[repr(C)]
struct Rlimit { cur: u64, max: u64 }

extern "C" {
    fn fork() -> c_int;
    fn _exit(c: c_int) -> !;
    fn waitpid(p: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn kill(p: c_int, s: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn utimensat(d: c_int, p: *const c_char, t: *const Timespec, f: c_int) -> c_int;
    fn setrlimit(r: c_int, l: *const Rlimit) -> c_int;
    fn usleep(us: u32) -> c_int;
    fn prctl(op: c_int, a: c_long, b: c_long, c: c_long, d: c_long) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn open(p: *const c_char, f: c_int, ...) -> c_int;
    fn close(f: c_int) -> c_int;
    fn personality(p: u64) -> c_int;
}

pub fn raw_exit(c: i32) -> ! { unsafe { _exit(c) } }
pub fn raw_fork() -> i32 { unsafe { fork() } }
pub fn die_with_parent() { unsafe { prctl(1, 9, 0, 0, 0); } }
pub fn kill9(pid: i32) { unsafe { kill(pid, 9); } }
/// Sends the standard streams of this process to /dev/null (children of the simulator that may
/// panic noisily).
pub fn quiet() {
    let p = CString::new("/dev/null").unwrap();
    unsafe { let f = open(p.as_ptr(), 2); if f >= 0 { dup2(f, 1); dup2(f, 2); } }
}

pub fn stdout_to(path: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    let p = CString::new(path.as_os_str().as_bytes()).unwrap();
    unsafe { let f = open(p.as_ptr(), 0o1001 | 0o100, 0o600); if f >= 0 { dup2(f, 1); close(f); } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End { Exit(i32), Signal(i32), Hang }

fn decode(st: c_int) -> End {
    if st & 0x7f == 0 { End::Exit((st >> 8) & 0xff) } else { End::Signal(st & 0x7f) }
}
pub fn try_wait(pid: i32) -> Option<End> {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 1) };
    if r == pid { Some(decode(st)) } else { None }
}
pub fn wait(pid: i32) -> End {
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    decode(st)
}
/// Waits up to `secs` of real time; a process that is still there is killed and counts as hung.
pub fn wait_for(pid: i32, secs: u64) -> End {
    let mut slept = 0u64;
    let mut nap = 20u32;
    loop {
        if let Some(e) = try_wait(pid) { return e; }
        unsafe { usleep(nap) };
        slept += nap as u64;
        if nap < 2000 { nap += nap / 2; }
        if slept > secs * 1_000_000 { kill9(pid); wait(pid); return End::Hang; }
    }
}

/// Anonymous memory shared with forked children.
pub struct Shared { p: *mut u8, pub len: usize }
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    pub fn new(len: usize) -> Shared {
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        Shared { p: p as *mut u8, len }
    }
    pub fn of_file(f: &std::fs::File, len: usize) -> Shared {
        use std::os::fd::AsRawFd;
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Shared { p: p as *mut u8, len }
    }
    pub fn ptr(&self) -> *mut u8 { self.p }
    pub fn bytes(&self, off: usize, len: usize) -> &[u8] {
        assert!(off + len <= self.len);
        unsafe { std::slice::from_raw_parts(self.p.add(off), len) }
    }
    pub fn put(&self, off: usize, b: &[u8]) {
        assert!(off + b.len() <= self.len);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(off), b.len()) }
    }
    pub fn u32(&self, off: usize) -> u32 { u32::from_le_bytes(self.bytes(off, 4).try_into().unwrap()) }
    pub fn u64(&self, off: usize) -> u64 { u64::from_le_bytes(self.bytes(off, 8).try_into().unwrap()) }
    pub fn set_u32(&self, off: usize, v: u32) { self.put(off, &v.to_le_bytes()) }
    pub fn set_u64(&self, off: usize, v: u64) { self.put(off, &v.to_le_bytes()) }
}

pub fn limit_cpu(secs: u64) { unsafe { setrlimit(0, &Rlimit { cur: secs, max: secs + 2 }); } }
pub fn limit_as(bytes: u64) { unsafe { setrlimit(9, &Rlimit { cur: bytes, max: bytes }); } }
pub fn no_core() { unsafe { setrlimit(4, &Rlimit { cur: 0, max: 0 }); } }

/// Runs `f` in a forked child (which must not return to the caller).
pub fn in_fork<F: FnOnce() -> i32>(cpu_secs: u64, f: F) -> End {
    let pid = raw_fork();
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        die_with_parent();
        no_core();
        limit_cpu(cpu_secs);
        quiet();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        raw_exit(match r { Ok(c) => c, Err(_) => 101 })
    }
    wait_for(pid, cpu_secs * 3 + 5)
}

pub fn set_mtime(path: &std::path::Path, ns: i64) {
    use std::os::unix::ffi::OsStrExt;
    let p = CString::new(path.as_os_str().as_bytes()).unwrap();
    let t = Timespec { sec: ns.div_euclid(1_000_000_000), nsec: ns.rem_euclid(1_000_000_000) };
    let ts = [Timespec { sec: t.sec, nsec: t.nsec }, t];
    unsafe { utimensat(-100, p.as_ptr(), ts.as_ptr(), 0x100) };
}

/// Fixed addresses, so that nothing can depend on where memory happens to be (if the sandbox lets us).
pub fn no_aslr() {
    use std::os::unix::process::CommandExt;
    const ADDR_NO_RANDOMIZE: c_int = 0x0040000;
    unsafe {
        let p = personality(0xffff_ffff);
        if p < 0 || p & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("WFSIM_ASLR").is_some() { return; }
        if personality((p | ADDR_NO_RANDOMIZE) as u64) < 0 { return; }
        std::env::set_var("WFSIM_ASLR", "tried");
        let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
    }
}
