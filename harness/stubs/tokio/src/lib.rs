//! Stand-in for `tokio`: one thread, tasks run in an order the harness chooses, standard input
//! comes in pieces the harness chooses and standard output is collected.
use std::{cell::RefCell, collections::VecDeque, future::Future, pin::Pin, rc::Rc, sync::Arc, task::{Context, Poll, Wake, Waker}};
pub use tokio_macros::{main, test};
pub use task::spawn;
struct Noop;
impl Wake for Noop { fn wake(self: Arc<Self>) {} }
type Task = Pin<Box<dyn Future<Output = ()>>>;
thread_local! {
    static TASKS: RefCell<Vec<Task>> = const { RefCell::new(Vec::new()) };
    static CHOOSE: RefCell<Option<Rc<dyn Fn(usize) -> usize>>> = const { RefCell::new(None) };
}
/// Decides which of the tasks runs next.
pub fn schedule(f: impl Fn(usize) -> usize + 'static) { CHOOSE.with(|x| *x.borrow_mut() = Some(Rc::new(f))) }
pub fn block_on<F: Future>(f: F) -> F::Output {
    let waker = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r }
        let n = TASKS.with(|t| t.borrow().len());
        if n == 0 { continue }
        let i = if n == 1 { 0 } else { CHOOSE.with(|c| c.borrow().clone()).map_or(0, |c| c(n)) };
        let mut t = TASKS.with(|t| t.borrow_mut().remove(i));
        if t.as_mut().poll(&mut cx).is_pending() { TASKS.with(|x| x.borrow_mut().push(t)) }
    }
}
pub mod task {
    use super::*;
    #[derive(Debug)]
    pub struct JoinError;
    impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task failed") } }
    impl std::error::Error for JoinError {}
    pub struct JoinHandle<T>(Rc<RefCell<Option<T>>>);
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            match self.0.borrow_mut().take() { Some(v) => Poll::Ready(Ok(v)), None => Poll::Pending }
        }
    }
    pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle<F::Output> where F::Output: 'static {
        let slot = Rc::new(RefCell::new(None));
        let s = slot.clone();
        TASKS.with(|t| t.borrow_mut().push(Box::pin(async move { let v = f.await; *s.borrow_mut() = Some(v); })));
        JoinHandle(slot)
    }
    pub async fn yield_now() {
        let mut once = false;
        std::future::poll_fn(|cx| { if once { return Poll::Ready(()) } once = true; cx.waker().wake_by_ref(); Poll::Pending }).await
    }
    impl<T> JoinHandle<T> { pub fn abort(&self) {} pub fn is_finished(&self) -> bool { self.0.borrow().is_some() } }
    /// A closure that blocks is run at once.
    pub fn spawn_blocking<T>(f: impl FnOnce() -> T) -> JoinHandle<T> { JoinHandle(Rc::new(RefCell::new(Some(f())))) }
    /// Tasks by the order in which they end.
    pub struct JoinSet<T>(Vec<JoinHandle<T>>);
    impl<T: 'static> Default for JoinSet<T> { fn default() -> Self { Self::new() } }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self { JoinSet(vec![]) }
        pub fn spawn<F: Future<Output = T> + 'static>(&mut self, f: F) { self.0.push(spawn(f)) }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn abort_all(&mut self) {}
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            if self.0.is_empty() { return None }
            std::future::poll_fn(|cx| match self.0.iter().position(|h| h.is_finished()) {
                Some(i) => { let mut h = self.0.remove(i); Pin::new(&mut h).poll(cx).map(Some) }
                None => Poll::Pending,
            }).await
        }
    }
}
pub mod io {
    use super::*;
    pub use std::io::{Error, ErrorKind, Result};
    thread_local! {
        static INPUT: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) };
        static OUTPUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
        static MORE: RefCell<Option<Box<dyn FnMut() -> Option<Vec<u8>>>>> = const { RefCell::new(None) };
    }
    /// The pieces in which standard input arrives.
    pub fn input(pieces: Vec<Vec<u8>>) { INPUT.with(|i| *i.borrow_mut() = pieces.into_iter().filter(|p| !p.is_empty()).collect()) }
    /// Where more pieces come from when there are none left.
    pub fn source(f: impl FnMut() -> Option<Vec<u8>> + 'static) { MORE.with(|m| *m.borrow_mut() = Some(Box::new(f))) }
    /// What was written so far.
    pub fn output() -> Vec<u8> { OUTPUT.with(|o| std::mem::take(&mut *o.borrow_mut())) }
    #[derive(Debug)]
    pub struct Stdin;
    #[derive(Debug)]
    pub struct Stdout;
    #[derive(Debug)]
    pub struct Stderr;
    pub fn stdin() -> Stdin { Stdin }
    pub fn stdout() -> Stdout { Stdout }
    pub fn stderr() -> Stderr { Stderr }
    pub trait AsyncRead { fn some(&mut self, buf: &mut [u8]) -> Result<usize>; }
    pub trait AsyncBufRead: AsyncRead { fn have(&mut self) -> Result<&[u8]>; fn used(&mut self, n: usize); }
    pub trait AsyncWrite { fn put(&mut self, buf: &[u8]) -> Result<()>; }
    impl<T: AsyncRead + ?Sized> AsyncRead for &mut T { fn some(&mut self, buf: &mut [u8]) -> Result<usize> { (**self).some(buf) } }
    impl<T: AsyncBufRead + ?Sized> AsyncBufRead for &mut T { fn have(&mut self) -> Result<&[u8]> { (**self).have() } fn used(&mut self, n: usize) { (**self).used(n) } }
    impl<T: AsyncWrite + ?Sized> AsyncWrite for &mut T { fn put(&mut self, buf: &[u8]) -> Result<()> { (**self).put(buf) } }
    impl AsyncRead for Stdin {
        fn some(&mut self, buf: &mut [u8]) -> Result<usize> {
            INPUT.with(|i| {
                let mut i = i.borrow_mut();
                if i.is_empty() {
                    let more = MORE.with(|m| m.borrow_mut().take());
                    if let Some(mut f) = more {
                        if let Some(p) = f().filter(|p| !p.is_empty()) { i.push_back(p); MORE.with(|m| *m.borrow_mut() = Some(f)) }
                    }
                }
                let Some(mut p) = i.pop_front() else { return Ok(0) };
                let n = p.len().min(buf.len());
                buf[..n].copy_from_slice(&p[..n]);
                if n < p.len() { i.push_front(p.split_off(n)) }
                Ok(n)
            })
        }
    }
    impl AsyncRead for &[u8] {
        fn some(&mut self, buf: &mut [u8]) -> Result<usize> { let n = self.len().min(buf.len()); buf[..n].copy_from_slice(&self[..n]); *self = &self[n..]; Ok(n) }
    }
    impl AsyncWrite for Stdout { fn put(&mut self, buf: &[u8]) -> Result<()> { OUTPUT.with(|o| o.borrow_mut().extend_from_slice(buf)); Ok(()) } }
    impl AsyncWrite for Stderr { fn put(&mut self, _: &[u8]) -> Result<()> { Ok(()) } }
    impl AsyncWrite for Vec<u8> { fn put(&mut self, buf: &[u8]) -> Result<()> { self.extend_from_slice(buf); Ok(()) } }
    #[derive(Debug)]
    pub struct BufReader<R> { inner: R, buf: Vec<u8>, at: usize }
    impl<R: AsyncRead> BufReader<R> {
        pub fn new(inner: R) -> Self { BufReader { inner, buf: vec![], at: 0 } }
        pub fn with_capacity(_: usize, inner: R) -> Self { Self::new(inner) }
        pub fn get_mut(&mut self) -> &mut R { &mut self.inner }
        pub fn buffer(&self) -> &[u8] { &self.buf[self.at..] }
    }
    impl<R: AsyncRead> AsyncBufRead for BufReader<R> {
        fn have(&mut self) -> Result<&[u8]> {
            if self.at == self.buf.len() { self.buf.resize(8192, 0); let n = self.inner.some(&mut self.buf)?; self.buf.truncate(n); self.at = 0 }
            Ok(&self.buf[self.at..])
        }
        fn used(&mut self, n: usize) { self.at += n }
    }
    impl<R: AsyncRead> AsyncRead for BufReader<R> {
        fn some(&mut self, buf: &mut [u8]) -> Result<usize> { let h = self.have()?; let n = h.len().min(buf.len()); buf[..n].copy_from_slice(&h[..n]); self.used(n); Ok(n) }
    }
    /// Written to what it wraps only when it is flushed or full.
    #[derive(Debug)]
    pub struct BufWriter<W> { inner: W, buf: Vec<u8> }
    impl<W: AsyncWrite> BufWriter<W> {
        pub fn new(inner: W) -> Self { BufWriter { inner, buf: vec![] } }
        pub fn with_capacity(_: usize, inner: W) -> Self { Self::new(inner) }
        pub fn get_mut(&mut self) -> &mut W { &mut self.inner }
    }
    fn eof() -> Error { Error::new(ErrorKind::UnexpectedEof, "early eof") }
    pub trait AsyncReadExt: AsyncRead {
        fn read<'a>(&'a mut self, buf: &'a mut [u8]) -> impl Future<Output = Result<usize>> + 'a { async move { self.some(buf) } }
        fn read_buf<'a>(&'a mut self, buf: &'a mut Vec<u8>) -> impl Future<Output = Result<usize>> + 'a { async move { let mut b = [0; 1024]; let n = self.some(&mut b)?; buf.extend_from_slice(&b[..n]); Ok(n) } }
        fn read_exact<'a>(&'a mut self, buf: &'a mut [u8]) -> impl Future<Output = Result<usize>> + 'a { async move {
            let mut n = 0;
            while n < buf.len() { let k = self.some(&mut buf[n..])?; if k == 0 { return Err(eof()) } n += k }
            Ok(n)
        } }
        fn read_u8<'a>(&'a mut self) -> impl Future<Output = Result<u8>> + 'a { async move { let mut b = [0]; if self.some(&mut b)? == 0 { return Err(eof()) } Ok(b[0]) } }
        fn read_to_end<'a>(&'a mut self, buf: &'a mut Vec<u8>) -> impl Future<Output = Result<usize>> + 'a { async move {
            let (mut b, from) = ([0; 1024], buf.len());
            loop { let n = self.some(&mut b)?; if n == 0 { return Ok(buf.len() - from) } buf.extend_from_slice(&b[..n]) }
        } }
        fn read_to_string<'a>(&'a mut self, s: &'a mut String) -> impl Future<Output = Result<usize>> + 'a { async move {
            let mut b = vec![];
            let n = self.read_to_end(&mut b).await?;
            s.push_str(std::str::from_utf8(&b).map_err(|_| Error::new(ErrorKind::InvalidData, "stream did not contain valid UTF-8"))?);
            Ok(n)
        } }
    }
    impl<R: AsyncRead + ?Sized> AsyncReadExt for R {}
    fn until<R: AsyncBufRead + ?Sized>(r: &mut R, end: u8, out: &mut Vec<u8>) -> Result<usize> {
        let from = out.len();
        loop {
            let h = r.have()?;
            if h.is_empty() { return Ok(out.len() - from) }
            let at = h.iter().position(|b| *b == end);
            let n = at.map_or(h.len(), |i| i + 1);
            out.extend_from_slice(&h[..n]);
            r.used(n);
            if at.is_some() { return Ok(out.len() - from) }
        }
    }
    fn line<R: AsyncBufRead + ?Sized>(r: &mut R, s: &mut String) -> Result<usize> {
        let mut b = vec![];
        let n = until(r, b'\n', &mut b)?;
        s.push_str(std::str::from_utf8(&b).map_err(|_| Error::new(ErrorKind::InvalidData, "stream did not contain valid UTF-8"))?);
        Ok(n)
    }
    pub struct Lines<R>(R);
    impl<R: AsyncBufRead> Lines<R> {
        pub async fn next_line(&mut self) -> Result<Option<String>> {
            let mut s = String::new();
            if line(&mut self.0, &mut s)? == 0 { return Ok(None) }
            if s.ends_with('\n') { s.pop(); if s.ends_with('\r') { s.pop(); } }
            Ok(Some(s))
        }
    }
    pub trait AsyncBufReadExt: AsyncBufRead {
        fn read_until<'a>(&'a mut self, end: u8, out: &'a mut Vec<u8>) -> impl Future<Output = Result<usize>> + 'a { async move { until(self, end, out) } }
        fn read_line<'a>(&'a mut self, s: &'a mut String) -> impl Future<Output = Result<usize>> + 'a { async move { line(self, s) } }
        fn fill_buf<'a>(&'a mut self) -> impl Future<Output = Result<&'a [u8]>> + 'a { async move { self.have() } }
        fn consume(&mut self, n: usize) { self.used(n) }
        fn lines(self) -> Lines<Self> where Self: Sized { Lines(self) }
    }
    impl<R: AsyncBufRead + ?Sized> AsyncBufReadExt for R {}
    pub trait AsyncWriteExt: AsyncWrite {
        fn write_all<'a>(&'a mut self, buf: &'a [u8]) -> impl Future<Output = Result<()>> + 'a { async move { self.put(buf) } }
        /// May write less than all of it, as it says: here 16 bytes at most.
        fn write<'a>(&'a mut self, buf: &'a [u8]) -> impl Future<Output = Result<usize>> + 'a { async move { let n = buf.len().min(16); self.put(&buf[..n])?; Ok(n) } }
        fn write_u8<'a>(&'a mut self, b: u8) -> impl Future<Output = Result<()>> + 'a { async move { self.put(&[b]) } }
        fn flush<'a>(&'a mut self) -> impl Future<Output = Result<()>> + 'a where Self: Flush { async move { self.flushed() } }
        fn shutdown<'a>(&'a mut self) -> impl Future<Output = Result<()>> + 'a where Self: Flush { async move { self.flushed() } }
    }
    impl<W: AsyncWrite + ?Sized> AsyncWriteExt for W {}
    pub trait Flush { fn flushed(&mut self) -> Result<()> { Ok(()) } }
    impl Flush for Stdout {}
    impl Flush for Stderr {}
    impl Flush for Vec<u8> {}
    impl<T: Flush + ?Sized> Flush for &mut T { fn flushed(&mut self) -> Result<()> { (**self).flushed() } }
    impl<W: AsyncWrite> AsyncWrite for BufWriter<W> { fn put(&mut self, buf: &[u8]) -> Result<()> { self.buf.extend_from_slice(buf); if self.buf.len() >= 8192 { self.flushed()? } Ok(()) } }
    impl<W: AsyncWrite> Flush for BufWriter<W> { fn flushed(&mut self) -> Result<()> { self.inner.put(&self.buf)?; self.buf.clear(); Ok(()) } }
    impl AsyncRead for fs::File { fn some(&mut self, buf: &mut [u8]) -> Result<usize> { std::io::Read::read(&mut self.0, buf) } }
    impl AsyncWrite for fs::File { fn put(&mut self, buf: &[u8]) -> Result<()> { std::io::Write::write_all(&mut self.0, buf) } }
    impl Flush for fs::File {}
}
/// The file system, as `std` has it.
pub mod fs {
    use std::{io::Result, path::Path};
    pub struct File(pub std::fs::File);
    impl File {
        pub async fn create(p: impl AsRef<Path>) -> Result<File> { std::fs::File::create(p).map(File) }
        pub async fn open(p: impl AsRef<Path>) -> Result<File> { std::fs::File::open(p).map(File) }
        pub async fn sync_all(&self) -> Result<()> { self.0.sync_all() }
    }
    pub async fn read(p: impl AsRef<Path>) -> Result<Vec<u8>> { std::fs::read(p) }
    pub async fn read_to_string(p: impl AsRef<Path>) -> Result<String> { std::fs::read_to_string(p) }
    pub async fn write(p: impl AsRef<Path>, b: impl AsRef<[u8]>) -> Result<()> { std::fs::write(p, b) }
    pub async fn create_dir(p: impl AsRef<Path>) -> Result<()> { std::fs::create_dir(p) }
    pub async fn create_dir_all(p: impl AsRef<Path>) -> Result<()> { std::fs::create_dir_all(p) }
    pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> Result<()> { std::fs::rename(a, b) }
    pub async fn remove_file(p: impl AsRef<Path>) -> Result<()> { std::fs::remove_file(p) }
    pub async fn metadata(p: impl AsRef<Path>) -> Result<std::fs::Metadata> { std::fs::metadata(p) }
    pub async fn try_exists(p: impl AsRef<Path>) -> Result<bool> { p.as_ref().try_exists() }
}
pub mod time {
    pub use std::time::{Duration, Instant};
    #[derive(Debug)]
    pub struct Elapsed;
    impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } }
    impl std::error::Error for Elapsed {}
    pub async fn sleep(_: Duration) { crate::task::yield_now().await }
    pub async fn timeout<F: std::future::Future>(_: Duration, f: F) -> Result<F::Output, Elapsed> { Ok(f.await) }
}
pub mod sync {
    use std::cell::{RefCell, RefMut, Ref};
    #[derive(Debug, Default)]
    pub struct Mutex<T>(RefCell<T>);
    unsafe impl<T> Sync for Mutex<T> {}
    pub type MutexGuard<'a, T> = RefMut<'a, T>;
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self { Mutex(RefCell::new(t)) }
        pub async fn lock(&self) -> RefMut<'_, T> { loop { if let Ok(g) = self.0.try_borrow_mut() { return g } crate::task::yield_now().await } }
        pub fn into_inner(self) -> T { self.0.into_inner() }
    }
    #[derive(Debug, Default)]
    pub struct RwLock<T>(RefCell<T>);
    unsafe impl<T> Sync for RwLock<T> {}
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self { RwLock(RefCell::new(t)) }
        pub async fn read(&self) -> Ref<'_, T> { loop { if let Ok(g) = self.0.try_borrow() { return g } crate::task::yield_now().await } }
        pub async fn write(&self) -> RefMut<'_, T> { loop { if let Ok(g) = self.0.try_borrow_mut() { return g } crate::task::yield_now().await } }
    }
}
#[macro_export]
macro_rules! join { ($($f:expr),* $(,)?) => { ($($f.await,)*) } }
#[macro_export]
macro_rules! try_join { ($($f:expr),* $(,)?) => { async { Ok(($($f.await?,)*)) }.await } }
