//! Native bodies of the harness primitives, used when a counterexample is
//! replayed outside of the engine. The engine intercepts these functions by
//! name and never runs the bodies.

use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

struct Shared {
    cursor: AtomicU64,
    crash_armed: AtomicU64,
    crash_point: AtomicU64,
    crash_part: AtomicU64,
    crash_count: AtomicU64,
    crash_max: AtomicU64,
    rng: AtomicU64,
    may_panic: AtomicU64,
}
static mut SHARED: *const Shared = std::ptr::null();
static mut INPUT: Vec<u8> = Vec::new();

#[allow(static_mut_refs)]
pub fn init(input: Vec<u8>) {
    unsafe {
        // shared with forked sections
        SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared;
        INPUT = input;
    }
}
fn sh() -> &'static Shared {
    unsafe {
        if SHARED.is_null() {
            SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared;
        }
        &*SHARED
    }
}

#[no_mangle]
#[inline(never)]
#[allow(static_mut_refs)]
pub extern "C" fn vp_u8() -> u8 {
    let i = sh().cursor.fetch_add(1, SeqCst) as usize;
    unsafe { INPUT.get(i).copied().unwrap_or(0) }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        eprintln!("VP assumption not met");
        unsafe { _exit(77) }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_concrete(x: u64) -> u64 {
    std::hint::black_box(x)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_is_engine() -> bool {
    std::env::var_os("VP_NEVER_SET").is_some()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_seed(s: u64) {
    sh().rng.store(s, SeqCst);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_cover(_id: u32) {
    std::hint::black_box(_id);
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vp_note(p: *const u8, n: usize) {
    eprintln!("note: {}", text(p, n));
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vp_check(c: bool, p: *const u8, n: usize) {
    if !c {
        eprintln!("VP-FAILED {}", text(p, n));
        _exit(99)
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vp_known(p: *const u8, n: usize) {
    eprintln!("VP-KNOWN {}", text(p, n));
    _exit(0)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_end() {
    unsafe { _exit(if IN_SECTION { 86 } else { 0 }) }
}
static mut IN_SECTION: bool = false;
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_section(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 {
    unsafe {
        let pid = fork();
        if pid == 0 {
            IN_SECTION = true;
            f(arg);
            _exit(87);
        }
        let mut s = 0;
        waitpid(pid, &mut s, 0);
        sh().crash_armed.store(0, SeqCst);
        if s & 0x7f == 6 && sh().may_panic.swap(0, SeqCst) == 1 {
            return 400;
        }
        if s & 0x7f != 0 {
            // killed: a panic aborts
            eprintln!("VP-FAILED section died with signal {}", s & 0x7f);
            _exit(99);
        }
        let code = (s >> 8) & 0xff;
        match code {
            86 => _exit(0),
            87 => 0,
            88 => 1,
            99 => _exit(99),
            77 => _exit(77),
            c => 2 + c as u64,
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_may_panic() {
    sh().may_panic.store(1, SeqCst);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_crash_arm(point: u8, part: u8, max: u32) {
    let s = sh();
    s.crash_point.store(point as u64, SeqCst);
    s.crash_part.store(part as u64, SeqCst);
    s.crash_max.store(max as u64, SeqCst);
    s.crash_count.store(0, SeqCst);
    s.crash_armed.store(1, SeqCst);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_crash_disarm() -> u64 {
    sh().crash_armed.store(0, SeqCst);
    sh().crash_count.load(SeqCst)
}
/// For interposed system calls: None to go on, Some(part) to die.
pub fn crash_point() -> Option<u64> {
    let s = sh();
    if s.crash_armed.load(SeqCst) == 0 {
        return None;
    }
    let n = s.crash_count.load(SeqCst);
    if n >= s.crash_max.load(SeqCst) {
        return None;
    }
    if n == s.crash_point.load(SeqCst) {
        return Some(s.crash_part.load(SeqCst));
    }
    s.crash_count.fetch_add(1, SeqCst);
    None
}
pub fn die() -> ! {
    unsafe { _exit(88) }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_time_limit(_ms: u64) {
    std::hint::black_box(_ms);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_quiesce() {
    std::thread::sleep(std::time::Duration::from_millis(50));
}

/// Changes of the file system, each a place where the process may die.
mod fs {
    use super::{crash_point, die, sh, SeqCst};

    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    const AT_FDCWD: i64 = -100;

    fn armed() -> bool {
        unsafe { !super::SHARED.is_null() && sh().crash_armed.load(SeqCst) != 0 }
    }
    fn stop() {
        if crash_point().is_some() {
            die()
        }
    }
    /// mode and size, if it is there
    unsafe fn stat(p: *const u8) -> Option<(u32, i64)> {
        let mut s = [0u64; 32];
        if syscall(4, p, s.as_mut_ptr()) != 0 {
            return None;
        }
        Some((s[3] as u32, s[6] as i64))
    }
    unsafe fn regular(fd: i32) -> bool {
        let mut s = [0u64; 32];
        syscall(5, fd, s.as_mut_ptr()) == 0 && s[3] as u32 & 0o170000 == 0o100000
    }

    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
        if armed() {
            match stat(p) {
                None if flags & 0o100 != 0 => stop(),
                Some((_, size)) if flags & 0o1000 != 0 && flags & 3 != 0 && size > 0 => stop(),
                _ => {}
            }
        }
        syscall(257, AT_FDCWD, p, flags, mode) as i32
    }
    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        if armed() && n > 0 && regular(fd) {
            if let Some(part) = crash_point() {
                syscall(1, fd, p, n * part as usize / 256);
                die()
            }
        }
        syscall(1, fd, p, n) as isize
    }
    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
        if armed() && stat(a).is_some() {
            stop()
        }
        syscall(82, a, b) as i32
    }
    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn unlink(p: *const u8) -> i32 {
        if armed() && stat(p).is_some() {
            stop()
        }
        syscall(87, p) as i32
    }
    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
        if armed() && stat(p).is_none() {
            stop()
        }
        syscall(83, p, mode) as i32
    }
    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
        if armed() {
            stop()
        }
        syscall(77, fd, n) as i32
    }
}
