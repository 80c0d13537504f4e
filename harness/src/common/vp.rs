//! Inputs and assertions of the harnesses.
#![allow(dead_code)]

mod raw {
    extern "C" {
        pub fn vp_u8() -> u8;
        pub fn vp_assume(c: bool);
        pub fn vp_concrete(x: u64) -> u64;
        pub fn vp_seed(x: u64);
        pub fn vp_cover(id: u32);
        pub fn vp_note(p: *const u8, n: usize);
        pub fn vp_check(c: bool, p: *const u8, n: usize);
        pub fn vp_known(p: *const u8, n: usize);
        pub fn vp_is_engine() -> bool;
        pub fn vp_section(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
        pub fn vp_may_panic();
        pub fn vp_crash_arm(point: u8, part: u8, max: u32);
        pub fn vp_crash_disarm() -> u64;
        pub fn vp_time_limit(ms: u64);
        pub fn vp_quiesce();
        pub fn vp_end();
    }
}

/// An unconstrained byte.
pub fn u8() -> u8 {
    unsafe { raw::vp_u8() }
}
pub fn assume(c: bool) {
    unsafe { raw::vp_assume(c) }
}
/// A byte in `lo..=hi`, kept symbolic.
pub fn range(lo: u8, hi: u8) -> u8 {
    let x = u8();
    assume(((x >= lo) as u8 & (x <= hi) as u8) == 1);
    x
}
/// In a section: a panic ends it, with code 400.
pub fn may_panic() {
    unsafe { raw::vp_may_panic() }
}
/// One of `0..n`, decided: each value becomes its own set of paths.
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let x = u8();
    assume((x as usize) < n);
    unsafe { raw::vp_concrete(x as u64) as usize }
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn concrete(x: usize) -> usize {
    unsafe { raw::vp_concrete(x as u64) as usize }
}
pub fn check(c: bool, what: &str) {
    unsafe { raw::vp_check(c, what.as_ptr(), what.len()) }
}
pub fn fail(what: &str) -> ! {
    check(false, what);
    loop {}
}
pub fn cover(id: u32) {
    unsafe { raw::vp_cover(id) }
}
pub fn note(s: &str) {
    unsafe { raw::vp_note(s.as_ptr(), s.len()) }
}
pub fn known(s: &str) {
    unsafe { raw::vp_known(s.as_ptr(), s.len()) }
}
pub fn seed(s: u64) {
    unsafe { raw::vp_seed(s) }
}
pub fn is_engine() -> bool {
    unsafe { raw::vp_is_engine() }
}
pub fn end() -> ! {
    unsafe { raw::vp_end() };
    loop {}
}
pub fn quiesce() {
    unsafe { raw::vp_quiesce() }
}
pub fn time_limit(ms: u64) {
    unsafe { raw::vp_time_limit(ms) }
}
pub fn crash_arm(point: u8, part: u8, max: u32) {
    unsafe { raw::vp_crash_arm(point, part, max) }
}
pub fn crash_disarm() -> u64 {
    unsafe { raw::vp_crash_disarm() }
}
/// Run `f` in a process of its own: 0 = ended, 1 = died at a crash point.
pub fn section<F: FnOnce()>(f: F) -> u64 {
    extern "C" fn go<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take().unwrap() };
        f();
    }
    let mut slot = Some(f);
    unsafe { raw::vp_section(go::<F>, &mut slot as *mut Option<F> as *mut u8) }
}

/// Byte-wise equality without branching on the contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut acc = 0u8;
    for i in 0..a.len() {
        acc |= a[i] ^ b[i];
    }
    acc == 0
}
pub fn check_same(a: &str, b: &str, what: &str) {
    let r = same(a.as_bytes(), b.as_bytes());
    if !unsafe { raw::vp_is_engine() } && !r {
        eprintln!("left {:?} right {:?}", a, b);
    }
    check(r, what);
}

/// A fresh directory for the files of a run.
pub fn scratch() -> String {
    if is_engine() {
        return "/v/base".to_string();
    }
    let d = std::env::var("VP_SCRATCH").expect("VP_SCRATCH");
    let d = format!("{d}/base");
    std::fs::create_dir_all(&d).unwrap();
    d
}
