//! Standard output is kept in memory; standard input is empty.
use crate::io;
use crate::sync::Mutex;
use crate::vec::Vec;

pub struct Stdin;
pub struct Stdout;
pub struct Stderr;
static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
#[unsafe(no_mangle)]
pub extern "C" fn symx_stdout(f: extern "C" fn(*const u8, usize)) {
    let b = crate::mem::take(&mut *OUT.lock().unwrap());
    f(b.as_ptr(), b.len())
}
impl Stdin {
    pub const fn new() -> Stdin {
        Stdin
    }
}
impl io::Read for Stdin {
    fn read(&mut self, _buf: &mut [u8]) -> io::Result<usize> {
        Ok(0)
    }
}
impl Stdout {
    pub const fn new() -> Stdout {
        Stdout
    }
}
impl io::Write for Stdout {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        OUT.lock().unwrap().extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Stderr {
    pub const fn new() -> Stderr {
        Stderr
    }
}
impl io::Write for Stderr {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub const STDIN_BUF_SIZE: usize = 0;
pub fn is_ebadf(_err: &io::Error) -> bool {
    true
}
pub fn panic_output() -> Option<Stderr> {
    None
}
