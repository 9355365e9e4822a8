//! Verification primitives.  `shardsym` interprets these symbolically; `src/bin/replay.rs` implements them
//! natively, feeding the concrete inputs of one model.
extern "C-unwind" {
    fn sym_any(bits: u32) -> u64;
    fn sym_choose(n: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, msg: *const u8, len: usize);
    fn sym_log(v: u64);
    fn sym_reach(k: u32);
    fn sym_fork(v: u64) -> u64;
    fn sym_live() -> u64;
    fn sym_unwind() -> !;
    fn sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32;
    fn sym_fail_alloc(k: u32);
    fn sym_native() -> u32;
    fn sym_shared(p: *const u8, n: usize, mode: u32);
    fn sym_migrate();
    fn sym_threads(n: u32, f: extern "C-unwind" fn(*mut u8), data: *mut u8);
}
/// An arbitrary value: a symbolic bit-vector variable.
#[inline(never)]
pub fn any(bits: u32) -> u64 { unsafe { sym_any(bits) } }
pub fn any_u8() -> u8 { any(8) as u8 }
pub fn any_u16() -> u16 { any(16) as u16 }
pub fn any_u32() -> u32 { any(32) as u32 }
pub fn any_u64() -> u64 { any(64) }
pub fn any_bool() -> bool { any(1) != 0 }
/// An arbitrary value below n: a symbolic bit-vector variable constrained to 0..n.
#[inline(never)]
pub fn choose(n: u32) -> u32 { unsafe { sym_choose(n) } }
/// Same value, split over all its feasible values.
#[inline(never)]
pub fn split(v: u32) -> u32 { unsafe { sym_fork(v as u64) as u32 } }
/// A concrete choice: choose, then split.
pub fn pick(n: u32) -> u32 { split(choose(n)) }
#[inline(never)]
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline(never)]
pub fn check(c: bool, msg: &'static str) { unsafe { sym_check(c, msg.as_ptr(), msg.len()) } }
/// Observation compared between symbolic execution and native replay.
#[inline(never)]
pub fn log(v: u64) { unsafe { sym_log(v) } }
/// Vacuity witness: point k of the harness was reached.
#[inline(never)]
pub fn reach(k: u32) { unsafe { sym_reach(k) } }
/// Bytes of heap memory currently held.
#[inline(never)]
pub fn held() -> u64 { unsafe { sym_live() } }
/// Start unwinding (a panic raised by user code).
#[inline(never)]
pub fn unwind() -> ! { unsafe { sym_unwind() } }
/// Runs f(data); 0: returned, 1: unwound by `unwind`, 2: any other panic.
#[inline(never)]
pub fn catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32 { unsafe { sym_catch(f, data) } }
/// The k-th allocation from now fails.
#[inline(never)]
pub fn fail_alloc(k: u32) { unsafe { sym_fail_alloc(k) } }

/// Is this the replay of a counterexample?
pub fn native() -> bool { unsafe { sym_native() != 0 } }
extern "C-unwind" fn call(d: *mut u8) { unsafe { (*(d as *mut &mut dyn FnMut()))() } }
/// Runs f on two threads at once, where n bytes at p and everything allocated so far are shared between them.
/// Symbolically: f writes to none of that memory, so that every interleaving of two runs reads the same values and none is a race.
pub fn concurrently(p: *const u8, n: usize, f: &dyn Fn()) {
    let mut g = || f();
    let mut d: &mut dyn FnMut() = &mut g;
    unsafe { if sym_native() != 0 { sym_threads(2, call, &mut d as *mut _ as *mut u8) } else { sym_shared(p, n, 1); f(); sym_shared(p, 0, 0); } }
}
/// Runs f, which makes and uses registries of its own, on two threads at once.  Symbolically: f writes to no static.
pub fn separately(f: &dyn Fn()) {
    let mut g = || f();
    let mut d: &mut dyn FnMut() = &mut g;
    unsafe { if sym_native() != 0 { sym_threads(2, call, &mut d as *mut _ as *mut u8) } else { sym_shared(std::ptr::null(), 0, 2); f(); sym_shared(std::ptr::null(), 0, 0); } }
}
/// Runs f on a new thread.  Symbolically: with all thread-local variables as a new thread has them.
pub fn on_another_thread<T>(mut v: T, f: &mut dyn FnMut(&mut T)) -> T {
    let mut g = || f(&mut v);
    let mut d: &mut dyn FnMut() = &mut g;
    unsafe { if sym_native() != 0 { sym_threads(1, call, &mut d as *mut _ as *mut u8) } else { sym_migrate(); d(); sym_migrate(); } }
    v
}
