//! Stand-in for the HTTP client: requests are handed to a scripted answerer, one per thread
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Asked { pub method: String, pub url: String, pub headers: Vec<(String, String)>, pub body: Option<Vec<u8>> }
#[derive(Clone, Debug)]
pub struct Answer { pub status: u16, pub content_type: Option<String>, pub body: Vec<u8> }
type Answerer = Rc<dyn Fn(&Asked) -> Option<Answer>>;
thread_local! { static ANSWERER: RefCell<Option<Answerer>> = const { RefCell::new(None) }; }
pub fn set_answerer(f: impl Fn(&Asked) -> Option<Answer> + 'static) { ANSWERER.with(|a| *a.borrow_mut() = Some(Rc::new(f))); }

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no answer") }
}
pub struct Client;
impl Client {
    pub fn new() -> Client { Client }
    pub fn request(&self, method: Method, url: impl AsRef<str>) -> RequestBuilder { RequestBuilder(Asked { method: method.0, url: url.as_ref().into(), headers: vec![], body: None }) }
    pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder { self.request(Method("GET".into()), url) }
    pub fn post(&self, url: impl AsRef<str>) -> RequestBuilder { self.request(Method("POST".into()), url) }
    pub fn put(&self, url: impl AsRef<str>) -> RequestBuilder { self.request(Method("PUT".into()), url) }
    pub fn patch(&self, url: impl AsRef<str>) -> RequestBuilder { self.request(Method("PATCH".into()), url) }
    pub fn delete(&self, url: impl AsRef<str>) -> RequestBuilder { self.request(Method("DELETE".into()), url) }
    pub fn head(&self, url: impl AsRef<str>) -> RequestBuilder { self.request(Method("HEAD".into()), url) }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Method(String);
impl Method {
    pub fn from_bytes(b: &[u8]) -> Result<Method, Error> {
        let token = |c: &u8| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c);
        if b.is_empty() || !b.iter().all(token) { return Err(Error); }
        Ok(Method(String::from_utf8(b.to_vec()).unwrap()))
    }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl std::str::FromStr for Method {
    type Err = Error;
    fn from_str(s: &str) -> Result<Method, Error> { Method::from_bytes(s.as_bytes()) }
}
pub struct RequestBuilder(Asked);
impl RequestBuilder {
    pub fn header(mut self, k: impl Into<String>, v: impl Into<String>) -> Self { self.0.headers.push((k.into(), v.into())); self }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self { self.0.body = Some(b.into()); self }
    pub async fn send(self) -> Result<Response, Error> {
        let f = ANSWERER.with(|a| a.borrow().clone());
        match f.and_then(|f| f(&self.0)) {
            Some(a) => Ok(Response { status: StatusCode(a.status), headers: HeaderMap(a.content_type.map(HeaderValue)), body: a.body }),
            None => Err(Error),
        }
    }
}
#[derive(Clone, Copy)]
pub struct StatusCode(u16);
impl StatusCode { pub fn as_u16(&self) -> u16 { self.0 } }
pub struct HeaderValue(String);
impl HeaderValue { pub fn to_str(&self) -> Result<&str, Error> { if self.0.chars().all(|c| c == '\t' || (' '..='~').contains(&c)) { Ok(&self.0) } else { Err(Error) } }
    pub fn as_bytes(&self) -> &[u8] { self.0.as_bytes() } }
pub struct HeaderMap(Option<HeaderValue>);
impl HeaderMap { pub fn get(&self, k: &str) -> Option<&HeaderValue> { if k.eq_ignore_ascii_case("content-type") { self.0.as_ref() } else { None } } }
pub struct Response { status: StatusCode, headers: HeaderMap, body: Vec<u8> }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub async fn text(self) -> Result<String, Error> { Ok(String::from_utf8_lossy(&self.body).into_owned()) }
    pub async fn bytes(self) -> Result<Vec<u8>, Error> { Ok(self.body) }
}
