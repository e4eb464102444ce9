//! Stand-in for `anyhow` without backtraces; messages are formatted as the real crate does.
use std::fmt;
pub struct Error(String);
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl Error {
    pub fn msg<M: fmt::Display>(m: M) -> Error { Error(m.to_string()) }
    pub fn new<E: std::error::Error>(e: E) -> Error { Error(e.to_string()) }
    pub fn context<C: fmt::Display>(self, c: C) -> Error { Error(c.to_string()) }
}
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error { fn from(e: E) -> Error { Error(e.to_string()) } }
pub trait Context<T> {
    fn context<C: fmt::Display>(self, c: C) -> Result<T>;
    fn with_context<C: fmt::Display, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E: Into<Error>> Context<T> for core::result::Result<T, E> {
    fn context<C: fmt::Display>(self, c: C) -> Result<T> { self.map_err(|_| Error(c.to_string())) }
    fn with_context<C: fmt::Display, F: FnOnce() -> C>(self, f: F) -> Result<T> { self.map_err(|_| Error(f().to_string())) }
}
impl<T> Context<T> for Option<T> {
    fn context<C: fmt::Display>(self, c: C) -> Result<T> { self.ok_or_else(|| Error(c.to_string())) }
    fn with_context<C: fmt::Display, F: FnOnce() -> C>(self, f: F) -> Result<T> { self.ok_or_else(|| Error(f().to_string())) }
}
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> { core::result::Result::Ok(t) }
#[macro_export]
macro_rules! anyhow {
    ($m:literal $(,)?) => { $crate::Error::msg(::std::format!($m)) };
    ($e:expr $(,)?) => { $crate::Error::msg($e) };
    ($m:literal, $($a:tt)*) => { $crate::Error::msg(::std::format!($m, $($a)*)) };
}
#[macro_export]
macro_rules! bail { ($($a:tt)*) => { return ::core::result::Result::Err($crate::anyhow!($($a)*)) }; }
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { $crate::bail!("condition failed") } };
    ($c:expr, $($a:tt)*) => { if !$c { $crate::bail!($($a)*) } };
}
pub mod prelude { pub use super::{Context, Error, Result}; }
