//! Stand-in for `anyhow`: same control flow, but messages are never formatted.
use std::fmt;
pub struct Error { pub what: &'static str }
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl Error {
    pub fn msg<M>(_: M) -> Error { Error { what: "error" } }
    pub fn new<E>(_: E) -> Error { Error { what: "error" } }
    pub fn context<C>(self, _: C) -> Error { self }
    #[doc(hidden)]
    pub fn at(what: &'static str) -> Error { Error { what } }
}
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.what) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.what) } }
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error { fn from(_: E) -> Error { Error { what: "error" } } }
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E: Into<Error>> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, _: C) -> Result<T> { self.map_err(|e| e.into()) }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> { self.map_err(|e| e.into()) }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _: C) -> Result<T> { self.ok_or(Error { what: "none" }) }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> { self.ok_or(Error { what: "none" }) }
}
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> { core::result::Result::Ok(t) }
#[doc(hidden)]
pub fn __use<T: ?Sized>(_: &T) {}
#[macro_export]
macro_rules! anyhow {
    ($m:literal $(,)?) => {{ if false { let _ = ::std::format!($m); } $crate::Error::at($m) }};
    ($e:expr $(,)?) => {{ let e = $e; $crate::__use(&e); $crate::Error::at("error") }};
    ($m:literal, $($a:tt)*) => {{ if false { let _ = ::std::format!($m, $($a)*); } $crate::Error::at($m) }};
}
#[macro_export]
macro_rules! bail { ($($a:tt)*) => { return ::core::result::Result::Err($crate::anyhow!($($a)*)) }; }
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { $crate::bail!("condition failed") } };
    ($c:expr, $($a:tt)*) => { if !$c { $crate::bail!($($a)*) } };
}
pub mod prelude { pub use super::{Context, Error, Result}; }
