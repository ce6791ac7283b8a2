//! Harness runtime. In the symbolic build these are externs that the engine implements; in the
//! native build (`--features native`) they read recorded inputs so that a path can be replayed.
#[cfg(not(feature = "native"))]
extern "C" {
    pub fn v_sym(w: u32) -> u64;
    pub fn v_choice(n: u64) -> u64;
    pub fn v_assume(c: bool);
    pub fn v_assert(c: bool, code: u32);
    pub fn v_eq(a: u64, b: u64, code: u32);
    pub fn v_reach(id: u32);
    pub fn v_state();
    pub fn v_trace(x: u64);
    pub fn v_known(id: u32);
    pub fn v_expect_block(on: u32);
    pub fn v_param(i: u32) -> u64;
    pub fn v_noleak();
    pub fn v_reuse();
}

#[cfg(feature = "native")]
pub use native::*;
#[cfg(feature = "native")]
pub mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    use std::io::Write;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
    pub struct Counting;
    thread_local! {
        /// allocations of this thread that are still there
        pub static LIVE: Cell<i64> = const { Cell::new(0) };
        pub static REUSE: Cell<bool> = const { Cell::new(false) };
        /// blocks to be given out again: address, size, alignment
        static FREED: Cell<[(usize, usize, usize); 512]> = const { Cell::new([(0, 0, 0); 512]) };
        static NFREED: Cell<usize> = const { Cell::new(0) };
    }
    fn again(l: &Layout) -> Option<*mut u8> {
        FREED.with(|f| {
            let f = unsafe { &mut *f.as_ptr() };
            let n = NFREED.with(|n| n.get());
            let i = f[..n].iter().rposition(|&(_, s, a)| s == l.size() && a == l.align())?;
            let p = f[i].0 as *mut u8;
            f.copy_within(i + 1..n, i);
            NFREED.with(|c| c.set(n - 1));
            Some(p)
        })
    }
    fn keep(p: *mut u8, l: &Layout) -> bool {
        FREED.with(|f| {
            let f = unsafe { &mut *f.as_ptr() };
            let n = NFREED.with(|n| n.get());
            if n < f.len() {
                f[n] = (p as usize, l.size(), l.align());
                NFREED.with(|c| c.set(n + 1));
            }
            n < f.len()
        })
    }
    pub fn live() -> i64 {
        LIVE.with(|l| l.get())
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.with(|l| l.set(l.get() + 1));
            // Fill fresh memory so that reads of uninitialised memory show up in replays.
            let old = if REUSE.with(|r| r.get()) { again(&l) } else { None };
            let p = match old {
                Some(p) => p,
                None => System.alloc(l),
            };
            if !p.is_null() {
                core::ptr::write_bytes(p, 0xA5, l.size());
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.with(|l| l.set(l.get() - 1));
            core::ptr::write_bytes(p, 0x5A, l.size());
            if !(REUSE.with(|r| r.get()) && keep(p, &l)) {
                System.dealloc(p, l)
            }
        }
    }
    // Miri checks layouts and initialisation itself, with its own allocator only.
    #[cfg_attr(not(miri), global_allocator)]
    #[allow(dead_code)]
    static G: Counting = Counting;

    pub static mut INPUTS: [(u8, u64); 4096] = [(0, 0); 4096];
    pub static NIN: AtomicUsize = AtomicUsize::new(0);
    pub static POS: AtomicUsize = AtomicUsize::new(0);
    pub static mut PARAMS: [u64; 32] = [0; 32];
    pub static mut TRACE: [u64; 65536] = [0; 65536];
    pub static NTR: AtomicUsize = AtomicUsize::new(0);
    pub static NOLEAK: AtomicBool = AtomicBool::new(false);
    pub static EXPECT_BLOCK: AtomicBool = AtomicBool::new(false);
    pub static EPOCH: AtomicU64 = AtomicU64::new(0);

    pub fn report(kind: &str) -> ! {
        let mut o = std::io::stdout().lock();
        let _ = write!(o, "TRACE");
        for i in 0..NTR.load(SeqCst) {
            let _ = write!(o, " {}", unsafe { TRACE[i] });
        }
        let _ = writeln!(o, "\nRESULT {}", kind);
        let _ = o.flush();
        drop(o);
        std::process::exit(if kind == "ok" || kind == "blocked" { 0 } else { 101 })
    }
    fn next(k: u8) -> u64 {
        let i = POS.fetch_add(1, SeqCst);
        if i >= NIN.load(SeqCst) {
            report("input-exhausted");
        }
        let (kk, v) = unsafe { INPUTS[i] };
        if kk != k {
            report("input-mismatch");
        }
        v
    }
    pub unsafe fn v_sym(_w: u32) -> u64 {
        next(b's')
    }
    pub unsafe fn v_choice(n: u64) -> u64 {
        let v = next(b'c');
        if v >= n {
            report("input-mismatch");
        }
        v
    }
    pub unsafe fn v_assume(c: bool) {
        if !c {
            report("assumed-out")
        }
    }
    pub unsafe fn v_assert(c: bool, code: u32) {
        if !c {
            println!("ASSERT {}", code);
            report("assert")
        }
    }
    pub unsafe fn v_eq(a: u64, b: u64, code: u32) {
        unsafe { v_assert(a == b, code) }
    }
    pub unsafe fn v_reach(_: u32) {}
    pub unsafe fn v_state() {}
    pub unsafe fn v_trace(x: u64) {
        let i = NTR.fetch_add(1, SeqCst);
        unsafe { TRACE[i] = x }
    }
    pub unsafe fn v_known(_: u32) {}
    pub unsafe fn v_expect_block(on: u32) {
        EXPECT_BLOCK.store(on != 0, SeqCst);
        EPOCH.fetch_add(1, SeqCst);
    }
    pub unsafe fn v_param(i: u32) -> u64 {
        unsafe { PARAMS[i as usize] }
    }
    pub unsafe fn v_noleak() {
        NOLEAK.store(true, SeqCst)
    }
    pub unsafe fn v_reuse() {
        REUSE.with(|r| r.set(true))
    }
}

pub fn sym() -> u64 {
    unsafe { v_sym(64) }
}
pub fn symw(w: u32) -> u64 {
    unsafe { v_sym(w) }
}
pub fn choice(n: usize) -> usize {
    unsafe { v_choice(n as u64) as usize }
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { v_assume(c) }
}
pub fn reach(id: u32) {
    unsafe { v_reach(id) }
}
pub fn state() {
    unsafe { v_state() }
}
pub fn trace(x: u64) {
    unsafe { v_trace(x) }
}
pub fn known(id: u32) {
    unsafe { v_known(id) }
}
pub fn expect_block(on: bool) {
    unsafe { v_expect_block(on as u32) }
}
pub fn param(i: u32) -> usize {
    unsafe { v_param(i) as usize }
}
pub fn noleak() {
    unsafe { v_noleak() }
}
/// From here on memory is given out again: the latest freed block of the size and alignment asked for.
pub fn reuse() {
    unsafe { v_reuse() }
}
/// Runs `f`; true when it panicked.
pub fn refused<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
/// Runs `f`; None when it panicked.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Assert; the code names file and line of the harness.
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        unsafe { $crate::rt::v_assert($c, FILE * 10000 + line!()) }
    };
}

/// Assert that two observed values are equal; discharged by the solver together with the others of the path.
#[macro_export]
macro_rules! ceq {
    ($a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        unsafe { $crate::rt::v_eq(a, b, FILE * 10000 + line!()) }
    }};
}
