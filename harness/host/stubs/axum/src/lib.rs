//! Stand-in for the parts of the crate of this name which the server's response type mentions
pub mod http {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct StatusCode(pub u16);
    impl StatusCode {
        pub const OK: StatusCode = StatusCode(200);
        pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
        pub fn is_success(&self) -> bool { (200..300).contains(&self.0) }
        pub fn as_u16(&self) -> u16 { self.0 }
    }
}
pub mod response {
    use crate::http::StatusCode;
    pub struct Response<T> { pub status: StatusCode, pub headers: Vec<(String, String)>, pub body: T }
    pub struct Builder { status: StatusCode, headers: Vec<(String, String)> }
    impl Response<String> {
        pub fn builder() -> Builder { Builder { status: StatusCode::OK, headers: Vec::new() } }
    }
    impl Builder {
        pub fn status(mut self, s: StatusCode) -> Self { self.status = s; self }
        pub fn header(mut self, k: impl Into<String>, v: impl Into<String>) -> Self { self.headers.push((k.into(), v.into())); self }
        pub fn body<T>(self, body: T) -> Result<Response<T>, String> { Ok(Response { status: self.status, headers: self.headers, body }) }
    }
}
