//! Stand-in for `reqwest`: the harness answers.
use std::{cell::RefCell, fmt, rc::Rc};
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug)]
pub struct Error(Option<u16>);
impl Error {
    pub fn status(&self) -> Option<StatusCode> { self.0.map(|s| StatusCode::from_u16(s).unwrap()) }
    pub fn is_status(&self) -> bool { self.0.is_some() }
    pub fn is_timeout(&self) -> bool { false }
    pub fn is_connect(&self) -> bool { self.0.is_none() }
}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("request failed") } }
impl std::error::Error for Error {}
/// What the network does: `Err` is a failed connection; the body may fail too.
pub type Answer = std::result::Result<(u16, Option<Vec<u8>>), ()>;
thread_local! {
    static NET: RefCell<Option<Rc<dyn Fn(&str) -> Answer>>> = const { RefCell::new(None) };
    static WAITS: RefCell<Option<Rc<dyn Fn() -> bool>>> = const { RefCell::new(None) };
}
pub fn network(h: impl Fn(&str) -> Answer + 'static) { NET.with(|x| *x.borrow_mut() = Some(Rc::new(h))) }
/// Decides at each step whether the answer is still on its way.
pub fn waits(h: impl Fn() -> bool + 'static) { WAITS.with(|x| *x.borrow_mut() = Some(Rc::new(h))) }
async fn wait() {
    let w = WAITS.with(|x| x.borrow().clone());
    if let Some(w) = w {
        if w() {
            let mut once = false;
            std::future::poll_fn(|cx| { if once { return std::task::Poll::Ready(()) } once = true; cx.waker().wake_by_ref(); std::task::Poll::Pending }).await
        }
    }
}
pub use http::{header, HeaderMap, Method, StatusCode};
pub use url::Url;
pub struct Response { status: u16, body: Option<Vec<u8>>, url: Url, headers: HeaderMap }
impl Response {
    pub fn status(&self) -> StatusCode { StatusCode::from_u16(self.status).unwrap() }
    pub fn error_for_status(self) -> Result<Response> { if self.status >= 400 { Err(Error(Some(self.status))) } else { Ok(self) } }
    pub fn error_for_status_ref(&self) -> Result<&Response> { if self.status >= 400 { Err(Error(Some(self.status))) } else { Ok(self) } }
    pub fn url(&self) -> &Url { &self.url }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub fn content_length(&self) -> Option<u64> { self.body.as_ref().map(|b| b.len() as u64) }
    pub async fn bytes(self) -> Result<bytes::Bytes> { wait().await; self.body.map(bytes::Bytes::from).ok_or(Error(None)) }
    pub async fn text(self) -> Result<String> { wait().await; self.body.map(|b| String::from_utf8_lossy(&b).into_owned()).ok_or(Error(None)) }
    pub async fn json<T: serde_::de::DeserializeOwned>(self) -> Result<T> { let b = self.bytes().await?; serde_json::from_slice(&b).map_err(|_| Error(None)) }
    /// The body in two halves; one that is cut off fails after the first.
    pub async fn chunk(&mut self) -> Result<Option<bytes::Bytes>> {
        wait().await;
        let Some(b) = self.body.as_mut() else { return Err(Error(None)) };
        if b.is_empty() { return Ok(None) }
        let rest = b.split_off((b.len() + 1) / 2);
        Ok(Some(std::mem::replace(b, rest).into()))
    }
}
pub trait IntoUrl { fn url(&self) -> &str; }
impl IntoUrl for &String { fn url(&self) -> &str { self } }
impl IntoUrl for String { fn url(&self) -> &str { self } }
impl IntoUrl for &str { fn url(&self) -> &str { self } }
impl IntoUrl for Url { fn url(&self) -> &str { self.as_str() } }
pub async fn get<U: IntoUrl>(url: U) -> Result<Response> {
    wait().await;
    let h = NET.with(|x| x.borrow().clone()).expect("no network");
    let (status, body) = h(url.url()).map_err(|_| Error(None))?;
    Ok(Response { status, body, url: Url::parse(url.url()).map_err(|_| Error(None))?, headers: HeaderMap::new() })
}
#[derive(Clone, Debug, Default)]
pub struct Client;
#[derive(Default)]
pub struct ClientBuilder;
impl ClientBuilder {
    pub fn new() -> Self { Self }
    pub fn user_agent<V>(self, _: V) -> Self { self }
    pub fn timeout(self, _: std::time::Duration) -> Self { self }
    pub fn connect_timeout(self, _: std::time::Duration) -> Self { self }
    pub fn build(self) -> Result<Client> { Ok(Client) }
}
impl Client {
    pub fn new() -> Client { Client }
    pub fn builder() -> ClientBuilder { ClientBuilder }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { RequestBuilder(url.url().to_string()) }
}
pub struct RequestBuilder(String);
impl RequestBuilder {
    pub fn header<K, V>(self, _: K, _: V) -> Self { self }
    pub fn timeout(self, _: std::time::Duration) -> Self { self }
    pub async fn send(self) -> Result<Response> { get(self.0).await }
}
