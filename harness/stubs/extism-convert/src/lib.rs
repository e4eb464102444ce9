//! Stand-in for `extism-convert`: the conversions the plugins crate uses.
pub use anyhow::Error;
use serde::{de::DeserializeOwned, Serialize};
pub trait ToBytes<'a> {
    type Bytes: AsRef<[u8]>;
    fn to_bytes(&self) -> Result<Self::Bytes, Error>;
}
pub trait FromBytesOwned: Sized {
    fn from_bytes_owned(data: &[u8]) -> Result<Self, Error>;
}
pub trait FromBytes<'a>: Sized {
    fn from_bytes(data: &'a [u8]) -> Result<Self, Error>;
}
impl<'a, T: FromBytesOwned> FromBytes<'a> for T {
    fn from_bytes(data: &'a [u8]) -> Result<Self, Error> { T::from_bytes_owned(data) }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct Json<T>(pub T);
impl<T> From<T> for Json<T> { fn from(t: T) -> Self { Json(t) } }
impl<T> Json<T> { pub fn into_inner(self) -> T { self.0 } }
impl<'a, T: Serialize> ToBytes<'a> for Json<T> {
    type Bytes = Vec<u8>;
    fn to_bytes(&self) -> Result<Vec<u8>, Error> { Ok(serde_json::to_vec(&self.0)?) }
}
impl<T: DeserializeOwned> FromBytesOwned for Json<T> {
    fn from_bytes_owned(data: &[u8]) -> Result<Self, Error> { Ok(Json(serde_json::from_slice(data)?)) }
}
impl<'a> ToBytes<'a> for () {
    type Bytes = [u8; 0];
    fn to_bytes(&self) -> Result<[u8; 0], Error> { Ok([]) }
}
impl FromBytesOwned for () { fn from_bytes_owned(_: &[u8]) -> Result<Self, Error> { Ok(()) } }
impl<'a> ToBytes<'a> for Vec<u8> {
    type Bytes = Vec<u8>;
    fn to_bytes(&self) -> Result<Vec<u8>, Error> { Ok(self.clone()) }
}
impl FromBytesOwned for Vec<u8> { fn from_bytes_owned(d: &[u8]) -> Result<Self, Error> { Ok(d.to_vec()) } }
impl<'a> ToBytes<'a> for String {
    type Bytes = String;
    fn to_bytes(&self) -> Result<String, Error> { Ok(self.clone()) }
}
impl<'a> ToBytes<'a> for &'a str {
    type Bytes = &'a str;
    fn to_bytes(&self) -> Result<&'a str, Error> { Ok(self) }
}
impl FromBytesOwned for String {
    fn from_bytes_owned(d: &[u8]) -> Result<Self, Error> { Ok(std::str::from_utf8(d)?.to_string()) }
}
impl<'a> FromBytes<'a> for &'a str {
    fn from_bytes(d: &'a [u8]) -> Result<Self, Error> { Ok(std::str::from_utf8(d)?) }
}
