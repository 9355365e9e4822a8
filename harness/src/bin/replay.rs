//! Native replay: runs one harness on concrete inputs with the real code.
//! usage: replay HARNESS INPUTS(comma separated)   -- prints the log; exit 0 ok, 101 check failed / panic, 77 assumption violated
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

static INPUTS: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
static POS: AtomicUsize = AtomicUsize::new(0);
static LOG: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
static REACH: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static FAIL: AtomicI64 = AtomicI64::new(-1);
static FAILED: AtomicBool = AtomicBool::new(false);

fn die(kind: &str, msg: &str) -> ! {
    ON.store(false, SeqCst);
    println!("FAIL {} {}", kind, msg);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(101)
}

/// Checks layouts with a header in front of every block; freed blocks are poisoned and kept.
struct Checked;
static BYTES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
const MAGIC: u64 = 0x5AFE_C0DE_D00D_F00D;
#[repr(C)]
struct Head { magic: u64, size: usize, align: usize, tracked: u64 }
fn pad(align: usize) -> usize { let h = std::mem::size_of::<Head>(); (h + align - 1) / align * align }
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let on = ON.load(SeqCst);
        if on {
            if l.size() == 0 { die("alloc", "zero-size allocation"); }
            let f = FAIL.load(SeqCst);
            if f == 0 { FAIL.store(-1, SeqCst); FAILED.store(true, SeqCst); return std::ptr::null_mut(); }
            if f > 0 { FAIL.store(f - 1, SeqCst); }
        }
        let p = pad(l.align());
        let b = System.alloc(Layout::from_size_align_unchecked(p + l.size(), l.align().max(16)));
        if b.is_null() { return b; }
        let u = b.add(p);
        std::ptr::write_unaligned(u.sub(std::mem::size_of::<Head>()) as *mut Head, Head { magic: MAGIC, size: l.size(), align: l.align(), tracked: on as u64 });
        if on { LIVE.fetch_add(1, SeqCst); BYTES.fetch_add(l.size() as u64, SeqCst); if l.size() <= 1 << 20 { std::ptr::write_bytes(u, 0xA5, l.size()); } }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let hp = u.sub(std::mem::size_of::<Head>()) as *mut Head;
        let h = std::ptr::read_unaligned(hp);
        let on = ON.load(SeqCst);
        if h.magic == !MAGIC { if on { die("alloc", "double free"); } return; }
        if h.magic != MAGIC { if on { die("alloc", "free of a pointer not from the allocator"); } return; }
        if on && (h.size != l.size() || h.align != l.align()) { die("alloc", "deallocation with a different layout"); }
        if h.tracked != 0 { LIVE.fetch_sub(1, SeqCst); BYTES.fetch_sub(h.size as u64, SeqCst); }
        let p = pad(h.align);
        if h.tracked != 0 && h.size <= 1 << 20 {
            std::ptr::write_unaligned(&mut (*hp).magic as *mut u64, !MAGIC);
            std::ptr::write_bytes(u, 0xDD, h.size); // quarantined: use after free is visible, double free detected
            return;
        }
        System.dealloc(u.sub(p), Layout::from_size_align_unchecked(p + h.size, h.align.max(16)));
    }
    unsafe fn realloc(&self, u: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(SeqCst) && n == 0 { die("alloc", "realloc to size zero"); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(u, q, l.size().min(n)); self.dealloc(u, l); }
        q
    }
}
#[cfg(not(miri))]
#[global_allocator]
static ALLOC: Checked = Checked;

fn off<R>(f: impl FnOnce() -> R) -> R { let o = ON.swap(false, SeqCst); let r = f(); ON.store(o, SeqCst); r }

#[no_mangle]
extern "C-unwind" fn sym_any(bits: u32) -> u64 {
    off(|| {
        let v = INPUTS.lock().unwrap();
        let p = POS.fetch_add(1, SeqCst);
        if p >= v.len() { die("inputs", "ran out of inputs"); }
        if bits >= 64 { v[p] } else { v[p] & ((1 << bits) - 1) }
    })
}
#[no_mangle]
extern "C-unwind" fn sym_choose(n: u32) -> u32 { let v = sym_any(32) as u32; if v >= n.max(1) { off(|| { println!("ASSUME choose"); std::process::exit(77) }) } v }
#[no_mangle]
extern "C-unwind" fn sym_assume(c: bool) { if !c { off(|| { println!("ASSUME"); std::process::exit(77) }) } }
#[no_mangle]
extern "C-unwind" fn sym_check(c: bool, msg: *const u8, len: usize) { if !c { let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len)) }; off(|| die("check", m)) } }
#[no_mangle]
extern "C-unwind" fn sym_log(v: u64) { off(|| LOG.lock().unwrap().push(v)) }
#[no_mangle]
extern "C-unwind" fn sym_reach(k: u32) { REACH.fetch_or(1 << k, SeqCst); }
#[no_mangle]
extern "C-unwind" fn sym_fork(v: u64) -> u64 { v }
#[no_mangle]
extern "C-unwind" fn sym_live() -> u64 { BYTES.load(SeqCst) }
struct Deliberate;
#[no_mangle]
extern "C-unwind" fn sym_unwind() -> ! {
    if std::thread::panicking() { off(|| die("abort", "panic while unwinding")) }
    let b: Box<Deliberate> = off(|| Box::new(Deliberate));
    std::panic::resume_unwind(b)
}
#[no_mangle]
extern "C-unwind" fn sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32 {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(data))) {
        Ok(()) => 0,
        Err(e) => off(|| { let r = if e.is::<Deliberate>() { 1 } else { 2 }; drop(e); r }),
    }
}
#[no_mangle]
extern "C-unwind" fn sym_native() -> u32 { 1 }
#[no_mangle]
extern "C-unwind" fn sym_shared(_: *const u8, _: usize, _: u32) {}
#[no_mangle]
extern "C-unwind" fn sym_migrate() {}
/// f(data) on n threads at once
#[no_mangle]
extern "C-unwind" fn sym_threads(n: u32, f: extern "C-unwind" fn(*mut u8), data: *mut u8) {
    let d = data as usize;
    let on = ON.swap(false, SeqCst);
    let go = AtomicUsize::new(0);
    let ok = std::thread::scope(|s| {
        let (go, mut v) = (&go, Vec::new());
        for _ in 0..n { v.push(s.spawn(move || {
            // all start together; what the threads allocate is tracked like the rest
            go.fetch_add(1, SeqCst);
            while go.load(SeqCst) < n as usize { std::thread::yield_now(); }
            f(d as *mut u8)
        })); }
        while go.load(SeqCst) < n as usize { std::thread::yield_now(); }
        let mut ok = true;
        for t in v { ok &= t.join().is_ok(); }
        ok
    });
    ON.store(on, SeqCst);
    if !ok { die("panic", "panic on another thread"); }
}
#[no_mangle]
extern "C-unwind" fn sym_fail_alloc(k: u32) { FAIL.store(if k == u32::MAX { -1 } else { k as i64 }, SeqCst) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match harness::HARNESSES.iter().find(|h| h.0 == a[1]) { Some(h) => h.1, None => { println!("NOHARNESS"); std::process::exit(3) } };
    let text = a.get(2).cloned().unwrap_or_default();
    let text = if let Some(p) = text.strip_prefix('@') { std::fs::read_to_string(p).unwrap() } else { text };
    *INPUTS.lock().unwrap() = text.trim().split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    LOG.lock().unwrap().reserve(1 << 16);
    std::panic::set_hook(Box::new(|i| {
        let on = ON.swap(false, SeqCst);
        println!("PANIC {}", i);
        ON.store(on, SeqCst);
    }));
    ON.store(true, SeqCst);
    let r = std::panic::catch_unwind(|| f());
    ON.store(false, SeqCst);
    if r.is_err() { println!("FAIL panic"); std::process::exit(101); }
    #[cfg(not(miri))]
    if LIVE.load(SeqCst) != 0 && std::env::var_os("VERIF_IGNORE_LEAKS").is_none() { println!("FAIL leak {} allocations", LIVE.load(SeqCst)); std::process::exit(101); }
    println!("LOG {}", LOG.lock().unwrap().iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    println!("REACH {}", REACH.load(SeqCst));
    println!("OK");
}
