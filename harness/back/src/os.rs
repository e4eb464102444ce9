//! The few things of the system that the harness decides: file size limits, listing order, output.
#[cfg(target_family = "wasm")]
mod imp {
    extern "C" {
        fn symx_fs_limit(n: u64);
        fn symx_fs_reverse(n: u32);
        fn symx_stdout(f: extern "C" fn(*const u8, usize));
    }
    pub fn limit(n: Option<u64>) { unsafe { symx_fs_limit(n.unwrap_or(u64::MAX)) } }
    pub fn reverse(b: bool) { unsafe { symx_fs_reverse(b as u32) } }
    static mut OUT: Vec<u8> = Vec::new();
    #[allow(static_mut_refs)]
    extern "C" fn take(p: *const u8, n: usize) { unsafe { OUT = std::slice::from_raw_parts(p, n).to_vec() } }
    #[allow(static_mut_refs)]
    pub fn stdout<R>(f: impl FnOnce() -> R) -> (R, Vec<u8>) {
        let r = f();
        unsafe { symx_stdout(take); (r, std::mem::take(&mut OUT)) }
    }
}
#[cfg(not(target_family = "wasm"))]
mod imp {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn setrlimit(what: i32, r: *const [u64; 2]) -> i32;
        fn signal(n: i32, h: usize) -> usize;
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    /// RLIMIT_FSIZE, without the signal.
    pub fn limit(n: Option<u64>) { unsafe { signal(25, 1); setrlimit(1, &[n.unwrap_or(u64::MAX), u64::MAX]); } }
    pub fn reverse(_: bool) {}
    pub fn stdout<R>(f: impl FnOnce() -> R) -> (R, Vec<u8>) {
        use std::io::Write;
        let name = std::env::temp_dir().join(format!("stdout-{}", std::process::id()));
        let file = std::fs::File::create(&name).unwrap();
        std::io::stdout().flush().unwrap();
        let old = unsafe { let o = dup(1); dup2(file.as_raw_fd(), 1); o };
        let r = f();
        std::io::stdout().flush().unwrap();
        unsafe { dup2(old, 1); close(old); }
        let out = std::fs::read(&name).unwrap();
        std::fs::remove_file(&name).unwrap();
        (r, out)
    }
}
pub use imp::*;
