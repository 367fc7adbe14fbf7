//! Memory for managed threads comes from one region per thread at a fixed address and is never
//! reused, so that addresses (and code that branches on them) are the same in every execution.
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::raw::{c_int, c_void};

const BASE: usize = 0x10_0000_0000;
const EACH: usize = 2 << 30;
const N: usize = 8;

extern "C" {
    fn sched_slot() -> c_int;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void;
}
static mut NEXT: [usize; N] = [0; N];   // one writer each
static mut ON: bool = false;
static mut HELD: i64 = 0;               // bytes handed out here and not given back; one thread runs at a time

pub fn held() -> i64 { unsafe { HELD } }

/// In the forked child, before any managed thread exists.
pub fn activate() {
    unsafe {
        let p = mmap(BASE as *mut c_void, EACH * N, 3, 0x22 | 0x4000 | 0x10_0000, -1, 0); // private, anonymous, noreserve, fixed_noreplace
        if p as usize != BASE { return; }
        for i in 0..N { NEXT[i] = BASE + i * EACH; }
        ON = true;
    }
}
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON { return System.alloc(l); }
        let s = sched_slot();
        if s < 0 { return System.alloc(l); }
        let s = s as usize;
        let p = (NEXT[s] + l.align().max(16) - 1) & !(l.align().max(16) - 1);
        if p + l.size() > BASE + (s + 1) * EACH { return std::ptr::null_mut(); }
        NEXT[s] = p + l.size();
        HELD += l.size() as i64;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p as usize).wrapping_sub(BASE) < EACH * N { HELD -= l.size() as i64; return; }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let mine = (p as usize).wrapping_sub(BASE) < EACH * N;
        if !mine && (!ON || sched_slot() < 0) { return System.realloc(p, l, n); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, n.min(l.size())); self.dealloc(p, l); }
        q
    }
}
