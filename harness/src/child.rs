//! Calls in a forked child whose allocator ends the process on a huge request. A binary that uses
//! this makes `Guarded` its global allocator.
use crate::engine::guard;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

/// Requests of at least this many bytes are not served in a child but reported.
pub const HUGE: usize = 1 << 26;
static ARMED: AtomicBool = AtomicBool::new(false);
/// Calls into Default/Clone/operators/closures of the child.
static FILLS: AtomicU64 = AtomicU64::new(0);
pub const FILL_LIMIT: u64 = 60_000;

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

pub struct Guarded;
fn look(size: usize) {
    if size >= HUGE && ARMED.load(SeqCst) {
        unsafe { _exit(ALLOC) }
    }
}
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        look(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        look(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        look(n);
        unsafe { System.realloc(p, l, n) }
    }
}
pub fn fill() {
    if ARMED.load(SeqCst) && FILLS.fetch_add(1, SeqCst) >= FILL_LIMIT {
        unsafe { _exit(FILLING) }
    }
}

// child exit codes: 1..7 are the error variants
pub const GOOD: i32 = 20;
pub const INCOHERENT: i32 = 21;
pub const ALLOC: i32 = 30;
pub const FILLING: i32 = 31;
pub const PANIC: i32 = 32;

pub fn code_name(c: i32) -> String {
    match c {
        1 => "SizeOverflow".into(),
        2 => "SizeMismatch".into(),
        3 => "CapacityOverflow".into(),
        4 => "LengthInconsistent".into(),
        5 => "IndexOutOfBounds".into(),
        6 => "SquareMatrixRequired".into(),
        7 => "ShapeNotConformable".into(),
        GOOD => "success with the requested shape".into(),
        INCOHERENT => "success with a wrong shape".into(),
        ALLOC => "the attempt to allocate".into(),
        FILLING => "the attempt to fill the matrix".into(),
        PANIC => "a panic".into(),
        c if c >= 1000 => format!("death by signal {}", c - 1000),
        c => format!("exit code {c}"),
    }
}

pub fn child(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = fork();
        if pid == 0 {
            alarm(30);
            FILLS.store(0, SeqCst);
            ARMED.store(true, SeqCst);
            let code = match guard(f) {
                Ok(c) => c,
                Err(_) => PANIC,
            };
            _exit(code);
        }
        assert!(pid > 0, "harness: fork failed");
        let mut st = 0;
        assert!(waitpid(pid, &mut st, 0) == pid, "harness: waitpid");
        if st & 0x7f == 0 { st >> 8 & 0xff } else { 1000 + (st & 0x7f) }
    }
}
