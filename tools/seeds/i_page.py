import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
SV = "crates/vertigo-cli/src/serve/"
HR = SV + "html/html_response.rs"
SR = SV + "html/send_request.rs"
DEPS = '''vertigo = { path = "@REPO@/crates/vertigo" }
serde = { version = "*", features = ["derive"] }
serde_json = "*"
html-escape = "*"
log = "*"'''
# the rendering of a page over a client, a runtime and a guest of this program
PAGE = '''#![allow(dead_code, unused_imports)]
extern crate self as reqwest;
extern crate self as tokio;
mod commons { pub mod models {
    #[derive(serde::Serialize, serde::Deserialize, Debug)]
    pub struct IndexModel { pub run_js: String, pub wasm: String }
} }
mod serve {
    #[path = "@REPO@/crates/vertigo-cli/src/serve/mount_path.rs"]
    pub mod mount_path;
    pub mod response_state {
        pub struct ResponseState { pub status: u16, pub body: String }
        impl ResponseState {
            pub fn html(b: impl Into<String>) -> Self { Self { status: 200, body: b.into() } }
            pub fn plain(b: impl Into<String>) -> Self { Self { status: 200, body: b.into() } }
            pub fn internal_error(b: impl Into<String>) -> Self { Self { status: 500, body: b.into() } }
        }
    }
    pub mod html {
        #[path = "@REPO@/crates/vertigo-cli/src/serve/html/dom_command.rs"]
        pub mod dom_command;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/html/element.rs"]
        pub mod element;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/html/element_children.rs"]
        pub mod element_children;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/html/html_element.rs"]
        pub mod html_element;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/html/html_response.rs"]
        pub mod html_response;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/html/ordered_map.rs"]
        pub mod ordered_map;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/html/send_request.rs"]
        pub mod send_request;
        pub use dom_command::DomCommand;
        pub use html_element::HtmlNode;
        pub use html_response::HtmlResponse;
        pub use send_request::RequestBody;
    }
    pub mod wasm {
        #[path = "@REPO@/crates/vertigo-cli/src/serve/wasm/message.rs"]
        pub mod message;
        pub use message::{FetchRequest, FetchResponse, Message};
        pub type Told = std::rc::Rc<std::cell::RefCell<Vec<(u64, FetchResponse)>>>;
        pub struct WasmInstance(pub Told);
        impl WasmInstance {
            pub fn wasm_callback(&mut self, _: u64, _: vertigo::JsValue) -> vertigo::JsValue { vertigo::JsValue::Undefined }
            pub fn send_fetch_response(&mut self, id: u64, r: FetchResponse) { self.0.borrow_mut().push((id, r)) }
        }
    }
}
// ---- the client
#[derive(Clone, Debug)]
pub struct Asked { method: String, url: String, headers: Vec<(String, String)>, body: Vec<u8> }
#[derive(Clone)]
pub struct Came { status: u16, kind: Option<&'static str>, body: Vec<u8> }
thread_local! {
    static ASKED: RefCell<Vec<Asked>> = const { RefCell::new(vec![]) };
    static CAME: RefCell<Option<Came>> = const { RefCell::new(None) };
    static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = const { RefCell::new(vec![]) };
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no answer") } }
pub struct Method(String);
impl Method { pub fn from_bytes(b: &[u8]) -> Result<Method, Error> { String::from_utf8(b.to_vec()).map(Method).map_err(|_| Error) } }
pub struct Client;
impl Client {
    pub fn new() -> Client { Client }
    pub fn request(&self, m: Method, u: impl AsRef<str>) -> RequestBuilder { RequestBuilder(Asked { method: m.0.to_lowercase(), url: u.as_ref().into(), headers: vec![], body: vec![] }) }
    pub fn get(&self, u: impl AsRef<str>) -> RequestBuilder { self.request(Method("get".into()), u) }
    pub fn post(&self, u: impl AsRef<str>) -> RequestBuilder { self.request(Method("post".into()), u) }
}
pub struct RequestBuilder(Asked);
impl RequestBuilder {
    pub fn header(mut self, k: impl Into<String>, v: impl Into<String>) -> Self { self.0.headers.push((k.into(), v.into())); self }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self { self.0.body = b.into(); self }
    pub async fn send(self) -> Result<Response, Error> {
        ASKED.with(|a| a.borrow_mut().push(self.0));
        CAME.with(|a| a.borrow().clone()).map(Response).ok_or(Error)
    }
}
#[derive(Clone, Copy)]
pub struct Status(u16);
impl Status { pub fn as_u16(&self) -> u16 { self.0 } }
pub struct Header(&'static str);
impl Header { pub fn to_str(&self) -> Result<&str, Error> { Ok(self.0) } }
pub struct Headers(Option<Header>);
impl Headers { pub fn get(&self, k: &str) -> Option<&Header> { if k == "content-type" { self.0.as_ref() } else { None } } }
pub struct Response(Came);
impl Response {
    pub fn status(&self) -> Status { Status(self.0.status) }
    pub fn headers(&self) -> &'static Headers { Box::leak(Box::new(Headers(self.0.kind.map(Header)))) }
    pub async fn bytes(self) -> Result<Vec<u8>, Error> { Ok(self.0.body) }
}
// ---- the runtime
pub mod sync { pub mod mpsc { pub type UnboundedSender<T> = std::sync::mpsc::Sender<T>; } }
pub fn spawn(f: impl Future<Output = ()> + 'static) { TASKS.with(|t| t.borrow_mut().push(Box::pin(f))) }
fn run<T>(f: impl Future<Output = T>) -> T {
    struct N;
    impl std::task::Wake for N { fn wake(self: Arc<Self>) {} }
    let w = std::task::Waker::from(Arc::new(N));
    match Box::pin(f).as_mut().poll(&mut std::task::Context::from_waker(&w)) { std::task::Poll::Ready(x) => x, _ => panic!("waits") }
}
use std::{cell::RefCell, collections::HashMap, future::Future, pin::Pin, rc::Rc, sync::{mpsc, Arc}};
use serve::{html::{send_request::send_request, DomCommand, HtmlResponse, RequestBody}, mount_path::MountPathConfig, wasm::{FetchRequest, FetchResponse, Message, Told, WasmInstance}};
use vertigo::JsJson;
struct Page { r: HtmlResponse, got: mpsc::Receiver<Message>, told: Told }
impl Page {
    fn new(env: &[(&str, &str)]) -> Page {
        let d = std::env::current_dir().unwrap().join("scratch_dest");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("index.json"), r#"{"run_js":"/b/run.js","wasm":"/b/a.wasm"}"#).unwrap();
        let m = MountPathConfig::new(d.to_string_lossy().to_string()).unwrap();
        let (s, got) = mpsc::channel();
        let told = Told::default();
        let env = env.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        Page { r: HtmlResponse::new(s, &m, WasmInstance(told.clone()), env), got, told }
    }
    fn feed(&mut self, l: &[&str]) { self.r.feed(l.iter().map(|s| serde_json::from_str(s).unwrap()).collect()) }
    fn ask(&mut self, callback_id: u64, request: FetchRequest) { assert!(self.r.process_message(Message::FetchRequest { callback_id, request }).is_none()) }
    // until nothing is under way
    fn go(&mut self) {
        loop {
            let t = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
            if t.is_empty() { return }
            t.into_iter().for_each(run);
            while let Ok(m) = self.got.try_recv() { assert!(self.r.process_message(m).is_none()); }
        }
    }
    fn told(&self) -> Vec<u64> { self.told.borrow().iter().map(|x| x.0).collect() }
}
fn asked() -> Vec<Asked> { ASKED.with(|a| std::mem::take(&mut *a.borrow_mut())) }
fn came(c: Option<Came>) { CAME.with(|x| *x.borrow_mut() = c) }
fn req(method: &str, headers: &[(&str, &str)], body: Option<RequestBody>) -> FetchRequest {
    FetchRequest { method: method.into(), url: "/u".into(), headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), body }
}
fn doc(body: &[&str]) -> Vec<String> {
    let mut l = vec![r#"{"type":"create_node","id":1,"name":"html"}"#.to_string(), r#"{"type":"create_node","id":2,"name":"body"}"#.into(), r#"{"type":"insert_before","parent":1,"child":2,"ref_id":null}"#.into()];
    for (i, name) in body.iter().enumerate() {
        l.push(format!(r#"{{"type":"create_node","id":{},"name":"{name}"}}"#, i + 3));
        l.push(format!(r#"{{"type":"insert_before","parent":2,"child":{},"ref_id":null}}"#, i + 3));
    }
    l
}
'''
SEEDS = [
 dict(id="page-failed-answer-asked-again", prop="C32",
  edits=[(HR, """                if let Some(value) = self.fetch.get_mut(&request) {
                    match value {
                        FetchStatus::Requested""", """                // a request which failed is given another chance
                self.fetch.retain(|_, status| match status {
                    FetchStatus::Response { response } => response.success || response.status != 0,
                    FetchStatus::Requested { .. } => true,
                });

                if let Some(value) = self.fetch.get_mut(&request) {
                    match value {
                        FetchStatus::Requested""")],
  needs="a request which gets no answer and is asked for again while the page is rendered", breaks="the request is sent a second time: the page waits for a server that is down once per asker",
  deps=DEPS, main=PAGE + '''fn main() {
    let mut p = Page::new(&[]);
    came(None);
    p.ask(1, req("GET", &[], None));
    p.ask(2, req("GET", &[], None));
    p.go();
    assert_eq!(p.told(), [1, 2]);
    p.ask(3, req("GET", &[], None));
    p.go();
    assert_eq!(p.told(), [1, 2, 3]);
    assert_eq!(asked().len(), 1, "sent again");
}
'''),
 dict(id="page-get-body-ignored", prop="C32",
  edits=[(SV + "wasm/message.rs", """            && self.body == other.body
""", """            // a body means nothing in these
            && (matches!(self.method.as_str(), "GET" | "HEAD") || self.body == other.body)
"""), (SV + "wasm/message.rs", """        self.body.hash(state);
""", """        if !matches!(self.method.as_str(), "GET" | "HEAD") {
            self.body.hash(state);
        }
""")],
  needs="two GET requests to one address which differ in their bodies (a search, say)", breaks="the second is not sent and is answered with the response of the first",
  deps=DEPS, main=PAGE + '''fn main() {
    let mut p = Page::new(&[]);
    came(Some(Came { status: 200, kind: Some("text/plain"), body: b"x".to_vec() }));
    for (i, t) in ["a", "b", "a"].iter().enumerate() {
        p.ask(i as u64, req("GET", &[], Some(RequestBody::Text(t.to_string()))));
    }
    p.go();
    let mut t = p.told();
    t.sort();
    assert_eq!(t, [0, 1, 2]);
    assert_eq!(asked().len(), 2, "not all were sent");
}
'''),
 dict(id="page-late-asker-reversed", prop="C32",
  edits=[(HR, """                            for callback_id in callbacks {
                                self.inst.send_fetch_response(callback_id, response.clone());
                            }
""", """                            let mut callbacks = callbacks;

                            if let Some(last) = callbacks.pop() {
                                for callback_id in callbacks.drain(..).rev() {
                                    self.inst.send_fetch_response(callback_id, response.clone());
                                }

                                // the last one is told last
                                self.inst.send_fetch_response(last, response.clone());
                            }
""")],
  needs="three askers of one request", breaks="the first two are answered in the opposite order",
  deps=DEPS, main=PAGE + '''fn main() {
    let mut p = Page::new(&[]);
    for i in 1..=3 { p.ask(i, req("GET", &[], None)); }
    p.go();
    assert_eq!(p.told(), [1, 2, 3]);
}
'''),
 dict(id="page-styles-reversed", prop="C33",
  edits=[(HR, "            for css_node in css.into_iter().rev() {", "            for css_node in css {")],
  needs="two style rules", breaks="the rules stand in the page in the opposite order, so another one wins",
  deps=DEPS, main=PAGE + '''fn main() {
    let mut p = Page::new(&[]);
    let d = doc(&["p"]);
    p.feed(&d.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    p.feed(&[r#"{"type":"insert_css","selector":".a","value":"x: 1"}"#, r#"{"type":"insert_css","selector":".b","value":"x: 2"}"#]);
    let b = p.r.build_response().body;
    let at = |x: &str| b.find(x).unwrap();
    assert!(at(".a") < at(".b") && at(".b") < at("<p>") && at("<p>") < at("<script"), "{b}");
}
'''),
 dict(id="page-own-script", prop="C33",
  edits=[(HR, """            body.add_last_child(script);
""", """            // not a second time
            let last_is_script = match body.children.back() {
                Some(HtmlNode::Element(last)) => last.name == script.name,
                _ => false,
            };

            if !last_is_script {
                body.add_last_child(script);
            }
""")],
  needs="an application whose body ends with a script element of its own", breaks="the page does not start the application",
  deps=DEPS, main=PAGE + '''fn main() {
    for (l, n) in [(vec!["p"], 1), (vec!["p", "script"], 2), (vec!["script", "p"], 2)] {
        let mut p = Page::new(&[("a", "b")]);
        let d = doc(&l);
        p.feed(&d.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        let b = p.r.build_response().body;
        assert_eq!(b.matches("<script").count(), n, "{b}");
        assert_eq!(b.matches("/b/run.js").count(), 1, "{b}");
    }
}
'''),
 dict(id="page-attr-of-first-match", prop="C33",
  edits=[(SV + "html/html_element.rs", """                        if &current == index {
                            return element.modify(rest_path, callback);
                        }
                        current += 1;
                    }
""", """                        if &current == index {
                            return element.modify(rest_path, callback);
                        }
                    }

                    // a place among the elements
                    if element.name == "head" || element.name == *tag_name {
                        current += 1;
                    }
""")],
  needs="a page with a head before its body", breaks="the body is looked for in the wrong place: the page becomes an error",
  deps=DEPS, main=PAGE + '''fn main() {
    let mut p = Page::new(&[]);
    p.feed(&[r#"{"type":"create_node","id":1,"name":"html"}"#, r#"{"type":"create_node","id":2,"name":"head"}"#, r#"{"type":"create_node","id":3,"name":"body"}"#,
        r#"{"type":"insert_before","parent":1,"child":2,"ref_id":null}"#, r#"{"type":"insert_before","parent":1,"child":3,"ref_id":null}"#]);
    assert_eq!(p.r.build_response().status, 200);
}
'''),
 dict(id="request-kind-before-names", prop="C34",
  edits=[(SR, """    let headers = clear_headers(&request_params.headers);
    let (headers, body) = get_headers_and_body(headers, &request_params.body);

    for (key, value) in headers {
        request""", """    let headers = request_params.headers.clone();
    let (headers, body) = get_headers_and_body(headers, &request_params.body);

    for (key, value) in clear_headers(&headers) {
        request""")],
  needs="a text or JSON body with a content type given as Content-Type", breaks="the content type the page gave is replaced by the default one, or not, from one run to the next",
  deps=DEPS, main=PAGE + '''fn main() {
    for _ in 0..64 {
        let q = req("POST", &[("Content-Type", "text/csv")], Some(RequestBody::Text("a,b".into())));
        run(send_request(Arc::new(q)));
        let a = asked();
        assert_eq!(a[0].headers, [("content-type".to_string(), "text/csv".to_string())]);
    }
}
'''),
 dict(id="request-whole-numbers", prop="C34",
  edits=[(SR, """        JsJson::String(value) => Value::String(value),
        JsJson::List(list) => {
            let list = list.into_iter().map(convert_to_jsvalue)""", """        JsJson::String(value) => match value.parse::<u64>() {
            // identifiers which do not fit in a number of the page
            Ok(id) if id > 1 << 53 => Value::Number(id.into()),
            _ => Value::String(value),
        },
        JsJson::List(list) => {
            let list = list.into_iter().map(convert_to_jsvalue)""")],
  needs="a JSON body with a string of digits above 2^53", breaks="the string is sent as a number",
  deps=DEPS, main=PAGE + '''fn main() {
    for t in ["7", "9007199254740993", "18446744073709551615", "x"] {
        let q = req("POST", &[], Some(RequestBody::Json(JsJson::List(vec![JsJson::String(t.into())]))));
        run(send_request(Arc::new(q)));
        let v: serde_json::Value = serde_json::from_slice(&asked()[0].body).unwrap();
        assert_eq!(v, serde_json::json!([t]));
    }
}
'''),
 dict(id="answer-kind-suffix", prop="C34",
  edits=[(SR, """            if chunk_content_type == "application/json" {""", """            if chunk_content_type.starts_with("application/json") || chunk_content_type.ends_with("json") {""")],
  needs="an answer of a type which only begins or ends like JSON (application/jsonl, application/x-ndjson)", breaks="it is read as JSON: the page is told of a failure where it should get the bytes",
  deps=DEPS, main=PAGE + '''fn main() {
    for k in ["application/jsonl", "application/x-ndjson", "application/octet-stream"] {
        came(Some(Came { status: 200, kind: Some(k), body: b"{}\\n{}".to_vec() }));
        let r = run(send_request(Arc::new(req("GET", &[], None))));
        assert!(r.success && r.status == 200 && r.body == RequestBody::Binary(b"{}\\n{}".to_vec()), "{k} {r:?}");
    }
    came(Some(Came { status: 200, kind: Some("Application/JSON; charset=utf-8"), body: b"{}".to_vec() }));
    let r = run(send_request(Arc::new(req("GET", &[], None))));
    assert!(r.body == RequestBody::Json(JsJson::Object(HashMap::new())));
}
'''),
]
