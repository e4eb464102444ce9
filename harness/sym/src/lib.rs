#![cfg_attr(target_family = "wasm", feature(simd_wasm64))]
//! Symbolic inputs and assertions for the harnesses. Compiled to wasm the calls are the
//! engine's imports; compiled natively they read a recorded model (SYM_DRAWS) so that the
//! same harness replays a counterexample against the ordinary build.

#[cfg(target_family = "wasm")]
mod imp {
    #[link(wasm_import_module = "sym")]
    extern "C" {
        fn sym_byte(lo: u32, hi: u32) -> u32;
        fn sym_u32() -> u32;
        fn sym_u64() -> u64;
        fn sym_choice(n: u32) -> u32;
        fn sym_concretize(v: u64) -> u64;
        fn sym_assume(c: u32);
        fn sym_assert(c: u32, p: *const u8, n: usize);
        fn sym_fail(p: *const u8, n: usize);
        fn sym_cover(p: *const u8, n: usize);
        fn sym_known(p: *const u8, n: usize);
        fn sym_emit(p: *const u8, n: usize);
        fn sym_log(p: *const u8, n: usize);
        fn sym_param(i: u32) -> u64;
        fn sym_done();
        fn sym_steps() -> u64;
    }
    pub fn byte(lo: u8, hi: u8) -> u8 { unsafe { sym_byte(lo as u32, hi as u32) as u8 } }
    pub fn u32() -> u32 { unsafe { sym_u32() } }
    pub fn u64() -> u64 { unsafe { sym_u64() } }
    pub fn choice_sym(n: u32) -> u32 { unsafe { sym_choice(n) } }
    pub fn choice(n: u32) -> u32 { unsafe { sym_concretize(sym_choice(n) as u64) as u32 } }
    pub fn assume(c: bool) { unsafe { sym_assume(c as u32) } }
    pub fn check(c: bool, m: &str) { unsafe { sym_assert(c as u32, m.as_ptr(), m.len()) } }
    pub fn fail(m: &str) -> ! { unsafe { sym_fail(m.as_ptr(), m.len()) }; loop {} }
    pub fn cover(m: &str) { unsafe { sym_cover(m.as_ptr(), m.len()) } }
    pub fn known(m: &str) { unsafe { sym_known(m.as_ptr(), m.len()) } }
    pub fn emit(b: &[u8]) { unsafe { sym_emit(b.as_ptr(), b.len()) } }
    pub fn log(m: &str) { unsafe { sym_log(m.as_ptr(), m.len()) } }
    pub fn param(i: u32) -> u64 { unsafe { sym_param(i) } }
    /// Instructions executed so far.
    pub fn steps() -> u64 { unsafe { sym_steps() } }
    /// How much more is measured where measuring is less exact than here.
    pub fn scale() -> usize { 1 }
    pub fn done() -> ! { unsafe { sym_done() }; loop {} }

    /// Bump allocator: frees nothing, so every run of a path sees the same addresses.
    pub struct Bump;
    static mut NEXT: usize = 0;
    static mut END: usize = 0;
    unsafe impl std::alloc::GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            #[cfg(target_arch = "wasm64")]
            use core::arch::wasm64 as w;
            #[cfg(target_arch = "wasm32")]
            use core::arch::wasm32 as w;
            super::mark();
            let mut p = (NEXT + l.align() - 1) & !(l.align() - 1);
            if p + l.size() > END || NEXT == 0 {
                let pages = (l.size() + l.align() + 65535) / 65536 + 3;
                let at = w::memory_grow(0, pages) * 65536;
                if at != END { NEXT = at; }
                END = at + pages * 65536;
                p = (NEXT + l.align() - 1) & !(l.align() - 1);
            }
            NEXT = p + l.size();
            p as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            if p as usize + l.size() == NEXT { NEXT = p as usize; }
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            if p as usize + l.size() == NEXT && p as usize + n <= END { NEXT = p as usize + n; return p; }
            if n <= l.size() { return p; }
            let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size());
            q
        }
    }
    #[global_allocator]
    static A: Bump = Bump;
}

#[cfg(not(target_family = "wasm"))]
mod imp {
    use std::sync::Mutex;
    pub struct Marking;
    unsafe impl std::alloc::GlobalAlloc for Marking {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { super::mark(); std::alloc::System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    }
    #[global_allocator]
    static A: Marking = Marking;
    struct St { draws: Vec<u64>, pos: usize, params: Vec<u64>, emits: Vec<u8> }
    static S: Mutex<Option<St>> = Mutex::new(None);
    fn list(k: &str) -> Vec<u64> {
        std::env::var(k).unwrap_or_default().split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect()
    }
    fn with<R>(f: impl FnOnce(&mut St) -> R) -> R {
        let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
        let s = g.get_or_insert_with(|| St { draws: list("SYM_DRAWS"), pos: 0, params: list("SYM_PARAMS"), emits: vec![] });
        f(s)
    }
    fn next() -> u64 { with(|s| { let v = s.draws.get(s.pos).copied().unwrap_or(0); s.pos += 1; v }) }
    fn end(code: i32) -> ! {
        let e = with(|s| std::mem::take(&mut s.emits));
        println!("EMIT {}", e.iter().map(|b| format!("{b:02x}")).collect::<String>());
        std::process::exit(code)
    }
    pub fn byte(lo: u8, hi: u8) -> u8 { (next() as u8).clamp(lo, hi) }
    pub fn u32() -> u32 { next() as u32 }
    pub fn u64() -> u64 { next() }
    pub fn choice_sym(n: u32) -> u32 { (next() as u32).min(n - 1) }
    pub fn choice(n: u32) -> u32 { choice_sym(n) }
    pub fn assume(c: bool) { if !c { println!("ASSUME-FALSE"); end(4) } }
    pub fn check(c: bool, m: &str) { if !c { println!("FAIL {m}"); end(9) } }
    pub fn fail(m: &str) -> ! { println!("FAIL {m}"); end(9) }
    pub fn cover(_: &str) {}
    pub fn known(m: &str) { println!("KNOWN {m}") }
    pub fn emit(b: &[u8]) { with(|s| s.emits.extend_from_slice(b)) }
    pub fn log(m: &str) { println!("LOG {m}") }
    pub fn param(i: u32) -> u64 { with(|s| s.params.get(i as usize).copied().unwrap_or(0)) }
    pub fn done() -> ! { end(0) }
    /// Processor time so far in microseconds, when a violation is replayed; nothing otherwise.
    pub fn steps() -> u64 {
        if scale() == 1 { return 0 }
        extern "C" { fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32; }
        let mut t = [0i64; 2];
        unsafe { clock_gettime(2, &mut t) };
        t[0] as u64 * 1_000_000 + t[1] as u64 / 1000
    }
    pub fn scale() -> usize { if std::env::var_os("SYM_VIOLATION").is_some() { 64 } else { 1 } }
    /// Runs a harness natively; a panic ends with status 9 like a failed assertion.
    pub fn replay(f: fn()) -> ! {
        std::panic::set_hook(Box::new(|i| {
            println!("PANIC {}", i.location().map(|l| l.to_string()).unwrap_or_default());
            println!("MESSAGE {}", i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " "));
            std::process::exit(9);
        }));
        f();
        end(0)
    }
}
pub use imp::*;

/// `harnesses! { name, name }` exports each function to the engine and builds the native table.
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        #[cfg(target_family = "wasm")]
        mod __exports { $( #[no_mangle] pub extern "C" fn $n() { super::$n() } )* }
        #[cfg(not(target_family = "wasm"))]
        pub fn table(n: &str) -> Option<fn()> { match n { $( stringify!($n) => Some($n), )* _ => None } }
    };
}
/// Native entry point for the replay binary.
#[macro_export]
macro_rules! native_main {
    ($t:path) => {
        #[cfg(not(target_family = "wasm"))]
        fn main() {
            let n = std::env::args().nth(1).expect("harness name");
            $crate::replay($t(&n).expect("unknown harness"))
        }
        #[cfg(target_family = "wasm")]
        fn main() {}
    };
}
pub fn as_str(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }

// The deepest stack position seen at any allocation.
static LOW: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
#[inline(never)]
fn here() -> usize { let x = 0u8; std::hint::black_box(&x) as *const u8 as usize }
#[inline]
fn mark() { use std::sync::atomic::Ordering::Relaxed; let h = here(); if h < LOW.load(Relaxed) { LOW.store(h, Relaxed) } }
/// How many bytes of stack `f` uses at its deepest allocation.
#[inline(never)]
pub fn stack_used<R>(f: impl FnOnce() -> R) -> (R, usize) {
    use std::sync::atomic::Ordering::Relaxed;
    let top = here();
    LOW.store(top, Relaxed);
    let r = f();
    (r, top - LOW.load(Relaxed).min(top))
}
/// What `f` costs: instructions, or the least processor time of a few tries.
pub fn cost<R>(f: impl Fn() -> R) -> u64 {
    let tries = if scale() == 1 { 1 } else { 3 };
    (0..tries).map(|_| { let a = steps(); std::hint::black_box(f()); steps() - a }).min().unwrap()
}
