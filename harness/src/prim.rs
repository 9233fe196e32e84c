//! Primitives. In the symbolic build they are externs interpreted by the
//! engine; in the replay build they read the solver's model.
use std::alloc::{GlobalAlloc, Layout};

#[cfg(not(feature = "replay"))]
mod imp {
    use super::*;
    unsafe extern "C" {
        fn v_sym(n: u32) -> u64;
        fn v_sym_bytes(p: *mut u8, n: u64);
        fn v_assume(c: bool);
        fn v_assert(c: bool, id: u32);
        fn v_reach(id: u32);
        fn v_note(id: u32, v: u64);
        fn v_kill() -> !;
        fn v_param(i: u32) -> u64;
        fn v_concretize(v: u64) -> u64;
        fn v_is_symbolic(v: u64) -> u64;
        fn v_select(c: bool, a: u64, b: u64) -> u64;
        fn v_alloc(size: u64, align: u64) -> *mut u8;
        fn v_alloc_zeroed(size: u64, align: u64) -> *mut u8;
        fn v_dealloc(p: *mut u8, size: u64, align: u64);
        fn v_realloc(p: *mut u8, old: u64, align: u64, new: u64) -> *mut u8;
    }
    pub fn sym(n: u32) -> u64 {
        unsafe { v_sym(n) }
    }
    pub fn fill(b: &mut [u8]) {
        unsafe { v_sym_bytes(b.as_mut_ptr(), b.len() as u64) }
    }
    pub fn assume(c: bool) {
        unsafe { v_assume(c) }
    }
    pub fn check(c: bool, id: u32) {
        unsafe { v_assert(c, id) }
    }
    pub fn reach(id: u32) {
        unsafe { v_reach(id) }
    }
    pub fn note(id: u32, v: u64) {
        unsafe { v_note(id, v) }
    }
    pub fn kill() -> ! {
        unsafe { v_kill() }
    }
    pub fn param(i: u32) -> u64 {
        unsafe { v_param(i) }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { v_concretize(v) }
    }
    pub fn is_symbolic(v: u64) -> bool {
        unsafe { v_is_symbolic(v) != 0 }
    }
    pub fn select(c: bool, a: u64, b: u64) -> u64 {
        unsafe { v_select(c, a, b) }
    }
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            unsafe { v_alloc(l.size() as u64, l.align() as u64) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            unsafe { v_alloc_zeroed(l.size() as u64, l.align() as u64) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            unsafe { v_dealloc(p, l.size() as u64, l.align() as u64) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            unsafe { v_realloc(p, l.size() as u64, l.align() as u64, n as u64) }
        }
    }
}

#[cfg(feature = "replay")]
pub mod imp {
    use super::*;
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicU64, Ordering};
    thread_local! {
        pub static MODEL: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
        pub static PARAMS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    }
    pub static MAX_ALLOC: AtomicU64 = AtomicU64::new(u64::MAX);
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub const LIVE_LIMIT: u64 = 2 << 30;
    fn next() -> u8 {
        MODEL.with(|m| {
            let mut m = m.borrow_mut();
            let i = m.1;
            m.1 += 1;
            m.0.get(i).copied().unwrap_or(0)
        })
    }
    pub fn sym(n: u32) -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            v |= (next() as u64) << (8 * i);
        }
        v
    }
    pub fn fill(b: &mut [u8]) {
        for x in b {
            *x = next();
        }
    }
    pub fn finish(msg: &str, code: i32) -> ! {
        println!("{msg}");
        std::process::exit(code)
    }
    pub fn assume(c: bool) {
        if !c {
            finish("ASSUME-FALSE", 77)
        }
    }
    pub fn check(c: bool, id: u32) {
        if !c {
            finish(&format!("ASSERT {id}"), 42)
        }
    }
    pub fn reach(id: u32) {
        println!("REACH {id}");
    }
    pub fn note(id: u32, v: u64) {
        println!("NOTE {id} {v}");
    }
    pub fn kill() -> ! {
        finish("KILLED", 0)
    }
    pub fn param(i: u32) -> u64 {
        PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn is_symbolic(_: u64) -> bool {
        false
    }
    pub fn select(c: bool, a: u64, b: u64) -> u64 {
        if c { a } else { b }
    }
    pub struct A;
    fn ok(n: u64) -> bool {
        n <= MAX_ALLOC.load(Ordering::Relaxed) && LIVE.load(Ordering::Relaxed) + n <= LIVE_LIMIT
    }
    use std::alloc::System;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if !ok(l.size() as u64) {
                return std::ptr::null_mut();
            }
            LIVE.fetch_add(l.size() as u64, Ordering::Relaxed);
            unsafe { System.alloc(l) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if !ok(l.size() as u64) {
                return std::ptr::null_mut();
            }
            LIVE.fetch_add(l.size() as u64, Ordering::Relaxed);
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
            unsafe { System.dealloc(p, l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if !ok(n as u64) {
                return std::ptr::null_mut();
            }
            LIVE.fetch_add(n as u64, Ordering::Relaxed);
            LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
            unsafe { System.realloc(p, l, n) }
        }
    }
}

#[global_allocator]
static ALLOC: imp::A = imp::A;

pub use imp::{assume, check, concretize, fill, is_symbolic, kill, note, param, reach, select, sym};

pub fn u8s() -> u8 {
    sym(1) as u8
}
pub fn u16s() -> u16 {
    sym(2) as u16
}
pub fn u32s() -> u32 {
    sym(4) as u32
}
pub fn u64s() -> u64 {
    sym(8)
}
/// Arbitrary value in `0..n` (n <= 65536), symbolic.
pub fn below(n: u64) -> u64 {
    let x = if n <= 256 { sym(1) } else { sym(2) };
    assume(x < n);
    x
}
/// Arbitrary value in `0..n`, explored one by one (one path per value).
pub fn choose(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    concretize(below(n))
}
pub fn flag() -> bool {
    choose(2) == 1
}
/// Arbitrary value in `lo..=hi`, symbolic.
pub fn range32(lo: u32, hi: u32) -> u32 {
    let x = u32s();
    assume(x >= lo && x <= hi);
    x
}
pub fn sel32(c: bool, a: u32, b: u32) -> u32 {
    select(c, a as u64, b as u64) as u32
}
/// Branch-free slice equality over same-length slices.
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
