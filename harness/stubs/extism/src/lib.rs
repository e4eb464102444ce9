//! Stand-in for `extism`: instead of running WebAssembly, a plugin asks the harness. What a
//! plugin is, is decided by the bytes it is made from.
use std::{cell::RefCell, rc::Rc};
pub use anyhow::Error;
pub use extism_convert as convert;
pub use extism_convert::{FromBytes, FromBytesOwned, Json, ToBytes};
/// What plugins do: the plugin's bytes, the function, the input; `None` is a failing call.
pub type Handler = Rc<dyn Fn(&[u8], &str, &[u8]) -> Option<Vec<u8>>>;
thread_local! { static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) }; }
pub fn plugins(h: impl Fn(&[u8], &str, &[u8]) -> Option<Vec<u8>> + 'static) { HANDLER.with(|x| *x.borrow_mut() = Some(Rc::new(h))) }
pub struct Function;
pub struct Plugin { wasm: Vec<u8> }
impl std::fmt::Debug for Plugin { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Plugin") } }
/// The ways to say what a plugin is made from.
#[derive(Clone, Debug)]
pub enum Wasm { File(std::path::PathBuf), Data(Vec<u8>) }
impl Wasm {
    pub fn file(p: impl AsRef<std::path::Path>) -> Wasm { Wasm::File(p.as_ref().into()) }
    pub fn data(b: impl Into<Vec<u8>>) -> Wasm { Wasm::Data(b.into()) }
}
#[derive(Clone, Debug, Default)]
pub struct Manifest(Vec<Wasm>);
impl Manifest {
    pub fn new(w: impl IntoIterator<Item = impl Into<Wasm>>) -> Manifest { Manifest(w.into_iter().map(|w| w.into()).collect()) }
    pub fn with_allowed_host(self, _: impl Into<String>) -> Manifest { self }
    pub fn with_timeout(self, _: std::time::Duration) -> Manifest { self }
}
impl From<Wasm> for Manifest { fn from(w: Wasm) -> Manifest { Manifest(vec![w]) } }
pub trait Source { fn wasm(self) -> Result<Vec<u8>, Error>; }
impl Source for Vec<u8> { fn wasm(self) -> Result<Vec<u8>, Error> { Ok(self) } }
impl Source for &[u8] { fn wasm(self) -> Result<Vec<u8>, Error> { Ok(self.to_vec()) } }
impl Source for &Vec<u8> { fn wasm(self) -> Result<Vec<u8>, Error> { Ok(self.clone()) } }
impl Source for Wasm { fn wasm(self) -> Result<Vec<u8>, Error> { Ok(match self { Wasm::File(p) => std::fs::read(p)?, Wasm::Data(b) => b }) } }
impl Source for Manifest { fn wasm(self) -> Result<Vec<u8>, Error> { self.0.into_iter().next().ok_or_else(|| anyhow::anyhow!("no wasm"))?.wasm() } }
impl Source for &Manifest { fn wasm(self) -> Result<Vec<u8>, Error> { self.clone().wasm() } }
/// No plugin starts like this: it is not WebAssembly.
pub const BROKEN: u8 = b'!';
impl Plugin {
    pub fn new(wasm: impl Source, _: impl IntoIterator<Item = Function>, _: bool) -> Result<Plugin, Error> {
        let wasm = wasm.wasm()?;
        if wasm.first().map_or(true, |b| *b == BROKEN) { anyhow::bail!("not a plugin") }
        Ok(Plugin { wasm })
    }
    pub fn call<'a, 'b, T: ToBytes<'a>, U: FromBytes<'b>>(&'b mut self, name: impl AsRef<str>, input: T) -> Result<U, Error> {
        let input = input.to_bytes()?;
        let h = HANDLER.with(|x| x.borrow().clone()).expect("no plugins");
        match h(&self.wasm, name.as_ref(), input.as_ref()) {
            Some(out) => U::from_bytes(Box::leak(out.into_boxed_slice())),
            None => Err(anyhow::anyhow!("the plugin fails")),
        }
    }
    pub fn function_exists(&self, _: impl AsRef<str>) -> bool { true }
}
