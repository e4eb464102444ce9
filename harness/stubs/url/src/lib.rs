//! Stand-in for `url`: what the language server needs of `file:` URLs, which the real crate
//! does not offer on wasm. The text is kept as it is written.
use std::{fmt, path::PathBuf};
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Url(String);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseError;
impl fmt::Display for ParseError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("relative URL without a base") } }
impl std::error::Error for ParseError {}
impl Url {
    pub fn parse(s: &str) -> Result<Url, ParseError> {
        match s.find(':') { Some(i) if i > 0 => Ok(Url(s.to_string())), _ => Err(ParseError) }
    }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn scheme(&self) -> &str { self.0.split(':').next().unwrap_or("") }
    pub fn path(&self) -> &str { self.0.strip_prefix("file://").unwrap_or("") }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> {
        let p = self.0.strip_prefix("file://").ok_or(())?.as_bytes();
        if p.first() != Some(&b'/') { return Err(()) }
        let mut out = vec![];
        let mut i = 0;
        let hex = |c: u8| (c as char).to_digit(16);
        while i < p.len() {
            if p[i] == b'?' || p[i] == b'#' { break }
            if p[i] == b'%' && i + 2 < p.len() {
                if let (Some(a), Some(b)) = (hex(p[i + 1]), hex(p[i + 2])) { out.push((a * 16 + b) as u8); i += 3; continue }
            }
            out.push(p[i]);
            i += 1;
        }
        String::from_utf8(out).map(PathBuf::from).map_err(|_| ())
    }
    pub fn from_file_path<P: AsRef<std::path::Path>>(p: P) -> Result<Url, ()> { Ok(Url(format!("file://{}", p.as_ref().to_str().ok_or(())?))) }
}
impl fmt::Display for Url { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Debug for Url { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl AsRef<str> for Url { fn as_ref(&self) -> &str { &self.0 } }
impl std::str::FromStr for Url { type Err = ParseError; fn from_str(s: &str) -> Result<Url, ParseError> { Url::parse(s) } }
impl From<Url> for String { fn from(u: Url) -> String { u.0 } }
impl serde_::Serialize for Url { fn serialize<S: serde_::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.0) } }
impl<'de> serde_::Deserialize<'de> for Url {
    fn deserialize<D: serde_::Deserializer<'de>>(d: D) -> Result<Url, D::Error> {
        let s = <String as serde_::Deserialize>::deserialize(d)?;
        Url::parse(&s).map_err(serde_::de::Error::custom)
    }
}
