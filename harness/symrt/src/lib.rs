//! Harness runtime.
//!
//! In the IR build the `sym_*` functions stay external: the engine (llsym)
//! gives them their symbolic meaning.  In the native build (feature `native`)
//! they replay a recorded assignment against the really compiled code.
#![allow(static_mut_refs)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C-unwind" {
        pub fn sym_bits(n: u32) -> u64;
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_check_eq(a: u64, b: u64, p: *const u8, n: usize);
        pub fn sym_reach(id: u32);
        pub fn sym_expect_reach(mask: u64);
        pub fn sym_uf(f: u32, x: u64) -> u64;
        pub fn sym_panic() -> !;
        pub fn sym_try(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> u32;
        pub fn sym_heap_mark();
        pub fn sym_leak_check(p: *const u8, n: usize);
        pub fn sym_done();
        pub fn sym_concrete(x: u64) -> u64;
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering};
    pub struct Counting;
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    static mut MARK: i64 = 0;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::Relaxed); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::Relaxed); System.dealloc(p, l) }
    }
    #[global_allocator]
    static A: Counting = Counting;

    static mut VALS: Vec<u64> = Vec::new();
    static mut POS: usize = 0;
    pub fn setup(v: Vec<u64>) { unsafe { VALS = v; POS = 0; } }
    fn next() -> u64 {
        unsafe {
            let i = POS;
            POS += 1;
            match VALS.get(i) { Some(v) => *v, None => { say("REPLAY-UNDERRUN"); std::process::exit(9) } }
        }
    }
    fn say(m: &str) { use std::io::Write; let mut o = std::io::stdout().lock(); let _ = o.write_all(m.as_bytes()); let _ = o.write_all(b"\n"); let _ = o.flush(); }
    fn msg(p: *const u8, n: usize) -> &'static str { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) } }
    pub unsafe fn sym_bits(_n: u32) -> u64 { next() }
    pub unsafe fn sym_choice(_n: u32) -> u32 { next() as u32 }
    pub unsafe fn sym_assume(c: bool) { if !c { say("REPLAY-ASSUME-FALSE"); std::process::exit(9) } }
    fn in_scope(m: &str) -> bool {
        match std::env::var("SYM_TAGS") {
            Ok(t) if m.starts_with('[') => t.split(',').any(|t| m.strip_prefix('[').and_then(|m| m.strip_prefix(t)).map_or(false, |m| m.starts_with(']'))),
            _ => true,
        }
    }
    pub unsafe fn sym_check(c: bool, p: *const u8, n: usize) { if !c && in_scope(msg(p, n)) { say(&format!("REPLAY-VIOLATION {}", msg(p, n))); std::process::exit(7) } }
    pub unsafe fn sym_check_eq(a: u64, b: u64, p: *const u8, n: usize) { sym_check(a == b, p, n) }
    pub unsafe fn sym_reach(_id: u32) {}
    pub unsafe fn sym_expect_reach(_m: u64) {}
    pub unsafe fn sym_uf(_f: u32, _x: u64) -> u64 { next() }
    pub unsafe fn sym_panic() -> ! { std::panic::resume_unwind(Box::new(())) }
    pub unsafe fn sym_try(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> u32 {
        // the payload allocation is dropped before returning
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p))).is_err() as u32
    }
    pub unsafe fn sym_heap_mark() { MARK = LIVE.load(Ordering::Relaxed); }
    pub unsafe fn sym_leak_check(p: *const u8, n: usize) {
        if LIVE.load(Ordering::Relaxed) != MARK && in_scope(msg(p, n)) { say(&format!("REPLAY-VIOLATION memory leaked: {}", msg(p, n))); std::process::exit(7) }
    }
    pub unsafe fn sym_done() { say("REPLAY-DONE"); }
    pub unsafe fn sym_concrete(x: u64) -> u64 { x }
}

#[cfg(feature = "native")]
pub fn native_main(tables: &[&[(&str, extern "C-unwind" fn())]]) {
    let name = std::env::args().nth(1).expect("harness name");
    let vals = std::env::var("SYM_INPUTS").unwrap_or_default();
    imp::setup(vals.split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap()).collect());
    std::panic::set_hook(Box::new(|_| {}));
    for (n, f) in tables.iter().copied().flatten() {
        if *n == name { f(); return; }
    }
    println!("REPLAY-NO-SUCH-HARNESS");
    std::process::exit(8);
}

pub fn u64s() -> u64 { unsafe { imp::sym_bits(64) } }
pub fn u32s() -> u32 { unsafe { imp::sym_bits(32) as u32 } }
pub fn u16s() -> u16 { unsafe { imp::sym_bits(16) as u16 } }
pub fn u8s() -> u8 { unsafe { imp::sym_bits(8) as u8 } }
pub fn flag() -> bool { unsafe { imp::sym_choice(2) != 0 } }
/// arbitrary value < n, made concrete by forking
pub fn choice(n: u32) -> u32 { unsafe { imp::sym_choice(n) } }
pub fn assume(c: bool) { unsafe { imp::sym_assume(c) } }
pub fn check(c: bool, m: &'static str) { unsafe { imp::sym_check(c, m.as_ptr(), m.len()) } }
/// `a == b`, decided by the solver
pub fn check_eq(a: u64, b: u64, m: &'static str) { unsafe { imp::sym_check_eq(a, b, m.as_ptr(), m.len()) } }
/// end the path: the harness's own tables are full
pub fn stop() -> ! { assume(false); panic!("harness: limit") }
pub fn reach(id: u32) { unsafe { imp::sym_reach(id) } }
pub fn expect_reach(mask: u64) { unsafe { imp::sym_expect_reach(mask) } }
/// uninterpreted function
pub fn uf(f: u32, x: u64) -> u64 { unsafe { imp::sym_uf(f, x) } }
pub fn panic_now() -> ! { unsafe { imp::sym_panic() } }
pub fn heap_mark() { unsafe { imp::sym_heap_mark() } }
pub fn leak_check(m: &'static str) { unsafe { imp::sym_leak_check(m.as_ptr(), m.len()) } }
pub fn done() { unsafe { imp::sym_done() } }
/// an opaque concrete value (keeps the optimiser from folding harness constants)
pub fn opaque(x: u64) -> u64 { unsafe { imp::sym_concrete(x) } }

/// run `f`; true if it unwound
pub fn catch<F: FnOnce()>(f: F) -> bool {
    let mut slot = Some(f);
    extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
        let s = unsafe { &mut *(p as *mut Option<F>) };
        if let Some(f) = s.take() { f() }
    }
    unsafe { imp::sym_try(tramp::<F>, &mut slot as *mut Option<F> as *mut u8) != 0 }
}

/// Declares harness entry points plus the native dispatch table.
#[macro_export]
macro_rules! harnesses_part {
    ($table:ident $($name:ident => $e:expr;)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() { $e; $crate::done(); })*
        #[cfg(feature = "native")]
        pub static $table: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
