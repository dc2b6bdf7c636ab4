#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key};

//@include strings.inc

#[verifier::external_body]
fn vx_unreachable() -> (r: !) requires false, { unreachable!() }
#[verifier::external_body]
fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn vx_clone<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
//@item enum JsJson
enum JsJson {
    True,
    False,
    Null,
    String(String),
    Number(f64),
    List(Vec<JsJson>),
    Object(HashMap<String, JsJson>),
}
//@end
// ---- serde_json: values, as text and back.  Its Map is a map from names to values.
enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(HashMap<String, Value>) }
#[verifier::external_body]
struct Number { _x: u8 }
uninterp spec fn finite(x: f64) -> bool;
impl Number {
    uninterp spec fn num(&self) -> f64;
    #[verifier::external_body]
    fn from_f64(x: f64) -> (r: Option<Number>) ensures match r { Some(n) => finite(x) && n.num() == x, None => !finite(x) } { unimplemented!() }
    // without arbitrary_precision every number has one
    #[verifier::external_body]
    fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(self.num()), finite(self.num()) { unimplemented!() }
    #[verifier::external_body]
    fn as_i64(&self) -> (r: Option<i64>) { unimplemented!() }
    #[verifier::external_body]
    fn as_u64(&self) -> (r: Option<u64>) { unimplemented!() }
}
#[verifier::external_body]
fn vx_i64_as_f64(x: i64) -> f64 { x as f64 }
#[verifier::external_body]
fn vx_u64_as_f64(x: u64) -> f64 { x as f64 }
#[verifier::external_body]
fn vx_map_or<T, U, F: FnOnce(T) -> U>(x: Option<T>, d: U, f: F) -> (r: U)
    requires x is Some ==> f.requires((x->0,)),
    ensures match x { Some(v) => f.ensures((v,), r), None => r == d },
{ match x { Some(v) => f(v), None => d } }
uninterp spec fn json_text(v: Value) -> Seq<char>;
#[verifier::external_body]
fn vx_json_text(v: &Value) -> (r: String) ensures r@ == json_text(*v) { unimplemented!() }
uninterp spec fn json_value(b: Seq<u8>) -> Option<Value>;
#[verifier::external_body]
fn vx_json_value(b: &Vec<u8>) -> (r: Result<Value, String>) ensures match r { Ok(v) => json_value(b@) == Some(v), Err(_) => json_value(b@) is None } { unimplemented!() }
uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
fn vx_utf8(b: Vec<u8>) -> (r: Result<String, Vec<u8>>) ensures match r { Ok(s) => utf8(b@) == Some(s@), Err(_) => utf8(b@) is None } { unimplemented!() }
// the entries of a map by value, each once
spec fn owned<T>(r: Seq<(String, T)>, m: Map<String, T>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0) && r[i].1 == m[r[i].0]
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
}
#[verifier::external_body]
fn vx_owned<T>(m: HashMap<String, T>) -> (r: Vec<(String, T)>) ensures owned(r@, m@) { m.into_iter().collect() }

// v carries the JSON j; what JSON cannot write is null
spec fn is_json(j: JsJson, v: Value) -> bool
    decreases j,
{
    match (j, v) {
        (JsJson::True, Value::Bool(b)) => b,
        (JsJson::False, Value::Bool(b)) => !b,
        (JsJson::Null, Value::Null) => true,
        (JsJson::Number(x), Value::Number(n)) => finite(x) && n.num() == x,
        (JsJson::Number(x), Value::Null) => !finite(x),
        (JsJson::String(a), Value::String(b)) => a@ == b@,
        (JsJson::List(a), Value::Array(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> is_json(#[trigger] a@[i], b@[i]),
        (JsJson::Object(a), Value::Object(b)) => forall|k: String| #[trigger] a@.contains_key(k) <==> b@.contains_key(k)
            && (a@.contains_key(k) ==> is_json(a@[k], b@[k])),
        _ => false,
    }
}
//@file crates/vertigo-cli/src/serve/html/send_request.rs
//@item enum RequestBody
pub enum RequestBody {
    Text(String),
    Json(JsJson),
    Binary(Vec<u8>),
}
//@end
//@item fn convert_to_jsjson
fn convert_to_jsjson(value: Value) -> «(r:» JsJson «)
    ensures is_json(r, value),
    decreases value,»
{
    match value {
        Value::Bool(true) => JsJson::True,
        Value::Bool(false) => JsJson::False,
        Value::Null => JsJson::Null,
        Value::Number(value) => {
            if let Some(value) = value.as_f64() {
                return JsJson::Number(value);
            }

            if let Some(value) = value.as_i64() {
                return JsJson::Number(⟦value as f64⇒vx_i64_as_f64(value)⟧);
            }

            if let Some(value) = value.as_u64() {
                return JsJson::Number(⟦value as f64⇒vx_u64_as_f64(value)⟧);
            }

            ⟦unreachable!()⇒vx_unreachable()⟧;
        }
        Value::String(value) => JsJson::String(value),
        Value::Array(list) => {
            JsJson::List(⟦list.into_iter().map(convert_to_jsjson).collect::<Vec<_>>()⇒vx_map_jsjson(list)⟧)
        }
        Value::Object(object) => {
            let mut result = HashMap::new();

«            let ghost m = object@;»
            for (prop_name, prop_value) in «it:» ⟦object⇒vx_owned(object)⟧
«                invariant
                    owned(it.seq(), m), m == object@, value == Value::Object(object),
                    forall|k: String| #[trigger] result@.contains_key(k) <==> exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0 == k,
                    forall|i: int| 0 <= i < it.index@ ==> is_json(result@[(#[trigger] it.seq()[i]).0], it.seq()[i].1),»
            {
«                assert(it.seq()[it.index@ as int] == (prop_name, prop_value));
                assert(value->Object_0@.contains_key(prop_name) && value->Object_0@[prop_name] == prop_value);
                assert(decreases_to!(value->Object_0@ => value->Object_0@[prop_name]));»
                result.insert(prop_name, convert_to_jsjson(prop_value));
            }

            JsJson::Object(result)
        }
    }
}
//@end
// into_iter().map(convert_to_jsjson).collect()
fn vx_map_jsjson(list: Vec<Value>) -> (r: Vec<JsJson>)
    ensures is_json(JsJson::List(r), Value::Array(list)),
    decreases list,
{
    let mut out: Vec<JsJson> = Vec::new();
    for x in it: list
        invariant out@.len() == it.index@, it.seq() == list@, forall|i: int| 0 <= i < out@.len() ==> is_json(#[trigger] out@[i], list@[i]),
    {
        out.push(convert_to_jsjson(x));
    }
    out
}
//@item fn convert_to_jsvalue
fn convert_to_jsvalue(value: JsJson) -> «(r:» Value «)
    ensures is_json(value, r),
    decreases value,»
{
    match value {
        JsJson::True => Value::Bool(true),
        JsJson::False => Value::Bool(false),
        JsJson::Null => Value::Null,
        JsJson::Number(value) => ⟦Number::from_f64(value).map_or(Value::Null, Value::Number)⇒vx_map_or(Number::from_f64(value), Value::Null, |n: Number| -> (o: Value) ensures o == Value::Number(n) { Value::Number(n) })⟧,
        JsJson::String(value) => Value::String(value),
        JsJson::List(list) => {
            let list = ⟦list.into_iter().map(convert_to_jsvalue).collect::<Vec<_>>()⇒vx_map_jsvalue(list)⟧;
            Value::Array(list)
        }
        JsJson::Object(object) => {
            let mut map = ⟦Map⇒HashMap⟧::new();

«            let ghost m = object@;»
            for (prop_name, prop_value) in «it:» ⟦object⇒vx_owned(object)⟧
«                invariant
                    owned(it.seq(), m), m == object@, value == JsJson::Object(object),
                    forall|k: String| #[trigger] map@.contains_key(k) <==> exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0 == k,
                    forall|i: int| 0 <= i < it.index@ ==> is_json(it.seq()[i].1, map@[(#[trigger] it.seq()[i]).0]),»
            {
«                assert(it.seq()[it.index@ as int] == (prop_name, prop_value));
                assert(value->Object_0@.contains_key(prop_name) && value->Object_0@[prop_name] == prop_value);
                assert(decreases_to!(value->Object_0@ => value->Object_0@[prop_name]));»
                map.insert(prop_name, convert_to_jsvalue(prop_value));
            }

            Value::Object(map)
        }
    }
}
//@end
// into_iter().map(convert_to_jsvalue).collect()
fn vx_map_jsvalue(list: Vec<JsJson>) -> (r: Vec<Value>)
    ensures is_json(JsJson::List(list), Value::Array(r)),
    decreases list,
{
    let mut out: Vec<Value> = Vec::new();
    for x in it: list
        invariant out@.len() == it.index@, it.seq() == list@, forall|i: int| 0 <= i < out@.len() ==> is_json(list@[i], #[trigger] out@[i]),
    {
        out.push(convert_to_jsvalue(x));
    }
    out
}
// ---- the request as it is handed to the http client -----------------------------------------------------------------------------
//@item enum BodyToSend
enum BodyToSend {
    None,
    String(String),
    Vec(Vec<u8>),
}
//@end
// a body v stands for what the page asked to send
spec fn payload(body: Option<RequestBody>, v: BodyToSend) -> bool {
    match body {
        None => v == BodyToSend::None,
        Some(RequestBody::Text(t)) => v == BodyToSend::String(t),
        Some(RequestBody::Binary(b)) => v == BodyToSend::Vec(b),
        Some(RequestBody::Json(j)) => match v {
            BodyToSend::String(s) => exists|x: Value| is_json(j, x) && s@ == #[trigger] json_text(x),
            _ => false,
        },
    }
}
spec fn with_type(h: Map<String, String>, t: Seq<char>) -> Map<String, String> {
    if h.contains_key(st("content-type"@)) { h } else { h.insert(st("content-type"@), st(t)) }
}
// a kind is added for text and JSON, and only where the page gave none
spec fn typed(h: Map<String, String>, body: Option<RequestBody>) -> Map<String, String> {
    match body {
        Some(RequestBody::Text(_)) => with_type(h, "text/plain; charset=utf-8"@),
        Some(RequestBody::Json(_)) => with_type(h, "application/json; charset=utf-8"@),
        _ => h,
    }
}
#[verifier::external_body]
fn vx_has(h: &HashMap<String, String>, k: &str) -> (r: bool) ensures r == h@.contains_key(st(k@)) { h.contains_key(k) }
fn vx_into(s: &str) -> (r: String) ensures r@ == s@, r == st(s@)
{
    let r = vx_text(s);
    proof { sax::axiom_string_ext(r); }
    r
}
//@item fn get_headers_and_body
fn get_headers_and_body(
    ⟦mut headers⇒headers⟧: HashMap<String, String>,
    body: &Option<RequestBody>,
) -> «(r:» (HashMap<String, String>, BodyToSend) «)
    ensures r.0@ == typed(headers@, *body), payload(*body, r.1),»
{
«    let mut headers = headers;»
    match ⟦body.clone()⇒vx_clone(body)⟧ {
        None => (headers, BodyToSend::None),
        Some(RequestBody::Text(text)) => {
            if ⟦!headers.contains_key("content-type")⇒!vx_has(&headers, "content-type")⟧ {
                headers.insert(⟦"content-type".into(), "text/plain; charset=utf-8".into()⇒vx_into("content-type"), vx_into("text/plain; charset=utf-8")⟧);
            }

            (headers, BodyToSend::String(text))
        }
        Some(RequestBody::Binary(buffer)) => (headers, BodyToSend::Vec(buffer)),
        Some(RequestBody::Json(json)) => {
            if ⟦!headers.contains_key("content-type")⇒!vx_has(&headers, "content-type")⟧ {
                headers.insert(
                    ⟦"content-type".into()⇒vx_into("content-type")⟧,
                    ⟦"application/json; charset=utf-8".into()⇒vx_into("application/json; charset=utf-8")⟧,
                );
            }

            let value = convert_to_jsvalue(json);
            let json_str = ⟦serde_json::to_string(&value).unwrap()⇒vx_json_text(&value)⟧;

            (headers, BodyToSend::String(json_str))
        }
    }
}
//@end
// ---- text ------------------------------------------------------------------------------------------------------------------------
uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
#[verifier::external_body]
fn vx_upper(s: &str) -> (r: String) ensures r@ == upper(s@) { s.to_uppercase() }
#[verifier::external_body]
fn vx_trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { s.trim() }
// up to the first c
spec fn piece(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 || s[0] == c { seq![] } else { seq![s[0]] + piece(s.skip(1), c) }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VecDeque<&'a str>) ensures r@.len() > 0, r@[0]@ == piece(s@, c) { s.split(c).collect() }

// each name in lower case and trimmed, its value as it was; of two names that become equal, one
spec fn name_of(k: String) -> String { st(trimmed(lower(k@))) }
spec fn cleared(h: Map<String, String>, r: Map<String, String>) -> bool {
    &&& forall|k: String| #[trigger] h.contains_key(k) ==> r.contains_key(name_of(k))
    &&& forall|n: String| #[trigger] r.contains_key(n) ==> exists|k: String| #[trigger] h.contains_key(k) && name_of(k) == n && h[k] == r[n]
}
// iter().map(f).collect::<HashMap<_, _>>(): f of every entry, put into a map one after another
#[verifier::external_body]
fn vx_map_collect<F: Fn((&String, &String)) -> (String, String)>(h: &HashMap<String, String>, f: F) -> (r: HashMap<String, String>)
    requires forall|k: &String, v: &String| #[trigger] f.requires(((k, v),)),
    ensures
        forall|k: String| #[trigger] h@.contains_key(k) ==> exists|o: (String, String)| #[trigger] f.ensures(((&k, &h@[k]),), o) && r@.contains_key(o.0),
        forall|n: String| #[trigger] r@.contains_key(n) ==> exists|k: String| #[trigger] h@.contains_key(k) && f.ensures(((&k, &h@[k]),), (n, r@[n])),
{ h.iter().map(f).collect() }
//@item fn clear_headers
fn clear_headers(headers: &HashMap<String, String>) -> «(r:» HashMap<String, String> «)
    ensures cleared(headers@, r@),»
{
    ⟦headers
        .iter()
        .map(|(key, value)| {⇒vx_map_collect(headers, |e: (&String, &String)| -> (o: (String, String))
            ensures o.0 == name_of(*e.0), o.1 == *e.1,
        {
            let (key, value) = e;⟧
            let key = ⟦key.to_lowercase().trim().to_string()⇒vx_into(vx_trim(vx_lower(key.as_str()).as_str()))⟧;
            (key, ⟦value.to_string()⇒vx_clone(value)⟧)
        })
        ⟦.collect::<HashMap<_, _>>()⇒⟧
}
//@end
// ---- the http client ---------------------------------------------------------------------------------------------------------------
// what is asked of it
struct Asked { method: Seq<u8>, url: Seq<char>, headers: Seq<(String, String)>, body: BodyToSend }
// what comes back: the content-type header if there is one (its text, if it is text), the body if it arrives whole
struct Came { status: u16, kind: Option<Option<Seq<char>>>, body: Option<Seq<u8>> }
struct World { asked: Ghost<Seq<Asked>>, came: Ghost<Option<Came>> }
// the characters as bytes
uninterp spec fn bytes(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
fn vx_bytes(s: &String) -> (r: &[u8]) ensures r@ == bytes(s@) { s.as_bytes() }
// a token, as the method of a request has to be
uninterp spec fn is_method(b: Seq<u8>) -> bool;
#[verifier::external_body]
struct Method { _x: u8 }
#[verifier::external_body]
struct Failure { _x: u8 }
impl Method {
    uninterp spec fn name(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn from_bytes(b: &[u8]) -> (r: Result<Method, Failure>)
        ensures match r { Ok(m) => is_method(b@) && m.name() == b@, Err(_) => !is_method(b@) },
    { unimplemented!() }
}
#[verifier::external_body]
struct Client { _x: u8 }
struct RequestBuilder { asked: Ghost<Asked> }
impl Client {
    #[verifier::external_body]
    fn new() -> (r: Client) { unimplemented!() }
    #[verifier::external_body]
    fn request(&self, method: Method, url: &String) -> (r: RequestBuilder)
        ensures r.asked@ == (Asked { method: method.name(), url: url@, headers: seq![], body: BodyToSend::None }),
    { unimplemented!() }
}
impl RequestBuilder {
    // added to those that are there
    #[verifier::external_body]
    fn header(self, key: String, value: String) -> (r: RequestBuilder)
        ensures r.asked@ == (Asked { headers: self.asked@.headers.push((key, value)), ..self.asked@ }),
    { unimplemented!() }
    #[verifier::external_body]
    fn body_text(self, s: String) -> (r: RequestBuilder) ensures r.asked@ == (Asked { body: BodyToSend::String(s), ..self.asked@ }) { unimplemented!() }
    #[verifier::external_body]
    fn body_bytes(self, b: Vec<u8>) -> (r: RequestBuilder) ensures r.asked@ == (Asked { body: BodyToSend::Vec(b), ..self.asked@ }) { unimplemented!() }
    #[verifier::external_body]
    fn send(self, w: &mut World) -> (r: Result<Response, Failure>)
        ensures
            final(w).asked@ == old(w).asked@.push(self.asked@),
            match r { Ok(x) => final(w).came@ == Some(x.came@), Err(_) => final(w).came@ is None },
    { unimplemented!() }
}
struct Response { came: Ghost<Came> }
struct HeaderValue { text: Ghost<Option<Seq<char>>> }
#[verifier::external_body]
struct StatusCode { _x: u8 }
#[verifier::external_body]
struct Bytes { _x: u8 }
impl StatusCode {
    uninterp spec fn code(&self) -> u16;
    #[verifier::external_body]
    fn as_u16(&self) -> (r: u16) ensures r == self.code() { unimplemented!() }
}
impl Bytes {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
impl Response {
    #[verifier::external_body]
    fn status(&self) -> (r: StatusCode) ensures r.code() == self.came@.status { unimplemented!() }
    #[verifier::external_body]
    fn bytes(self) -> (r: Result<Bytes, Failure>)
        ensures match r { Ok(b) => self.came@.body == Some(b@), Err(_) => self.came@.body is None },
    { unimplemented!() }
}
// headers().get("content-type"); names are compared without regard to case
#[verifier::external_body]
fn vx_header<'a>(r: &'a Response, name: &str) -> (o: Option<&'a HeaderValue>)
    ensures name@ == "content-type"@ ==> match o { Some(v) => r.came@.kind == Some(v.text@), None => r.came@.kind is None },
{ unimplemented!() }
impl HeaderValue {
    #[verifier::external_body]
    fn to_str(&self) -> (r: Result<&str, Failure>)
        ensures match r { Ok(s) => self.text@ == Some(s@), Err(_) => self.text@ is None },
    { unimplemented!() }
}
//@item enum ResponseType
enum ResponseType {
    Json,
    Text,
    Bin,
}
//@end
// the kind without its parameters, in lower case and trimmed
spec fn kind_of(c: Came) -> ResponseType {
    match c.kind {
        Some(Some(t)) => {
            let k = lower(trimmed(piece(t, ';')));
            if k == "application/json"@ { ResponseType::Json } else if k == "text/plain"@ { ResponseType::Text } else { ResponseType::Bin }
        },
        _ => ResponseType::Bin,
    }
}
//@item fn get_response_type
fn get_response_type(response: &Response) -> «(r:» ResponseType «)
    ensures r == kind_of(response.came@),»
{
    let content_type = ⟦response.headers().get("content-type")⇒vx_header(response, "content-type")⟧;

    let Some(content_type) = content_type else {
        return ResponseType::Bin;
    };

    let content_type = match content_type.to_str() {
        Ok(content_type) => ⟦content_type.to_string()⇒vx_text(content_type)⟧,
        Err(_) => {
            return ResponseType::Bin;
        }
    };

    let mut chunks = ⟦content_type.split(';').collect::<VecDeque<_>>()⇒vx_split(content_type.as_str(), ';')⟧;

    match chunks.pop_front() {
        Some(chunk_content_type) => {
            let chunk_content_type = ⟦chunk_content_type.trim().to_lowercase()⇒vx_lower(vx_trim(chunk_content_type))⟧;

            if ⟦chunk_content_type == "application/json"⇒vx_str_eq(chunk_content_type.as_str(), "application/json")⟧ {
                return ResponseType::Json;
            }

            if ⟦chunk_content_type == "text/plain"⇒vx_str_eq(chunk_content_type.as_str(), "text/plain")⟧ {
                return ResponseType::Text;
            }

            ResponseType::Bin
        }
        None => ResponseType::Bin,
    }
}
//@end
//@file crates/vertigo-cli/src/serve/wasm/message.rs
//@item struct FetchRequest
struct FetchRequest {
    pub method: String,
    pub url: String,
    pub headers: HashMap<String, String>,
    pub body: Option<RequestBody>,
}
//@end
//@item struct FetchResponse
struct FetchResponse {
    pub success: bool,
    pub status: u32,
    pub body: RequestBody,
}
//@end
// ---- what a request of the page asks the network for ------------------------------------------------------------------------------
spec fn method_of(q: FetchRequest) -> Seq<u8> { bytes(upper(trimmed(q.method@))) }
// a are the calls made for q
spec fn asks(q: FetchRequest, a: Asked) -> bool {
    &&& a.method == method_of(q)
    &&& a.url == q.url@
    &&& exists|h: Map<String, String>| #[trigger] cleared(q.headers@, h) && owned(a.headers, typed(h, q.body))
    &&& payload(q.body, a.body)
}
// ---- what of the network's answer the page is told -----------------------------------------------------------------------------------
spec fn told(c: Option<Came>, r: Option<(u32, RequestBody)>) -> bool {
    match c {
        Some(Came { status, kind, body: Some(b) }) => match kind_of(c->0) {
            ResponseType::Bin => r is Some && (r->0).0 == status && (r->0).1 is Binary && (r->0).1->Binary_0@ == b,
            ResponseType::Text => match utf8(b) {
                Some(t) => r is Some && (r->0).0 == status && (r->0).1 is Text && (r->0).1->Text_0@ == t,
                None => r is None,
            },
            ResponseType::Json => match json_value(b) {
                Some(v) => r is Some && (r->0).0 == status && (r->0).1 is Json && is_json((r->0).1->Json_0, v),
                None => r is None,
            },
        },
        _ => r is None,
    }
}
spec fn sent_and_told(q: FetchRequest, a: World, b: World, r: Option<(u32, RequestBody)>) -> bool {
    if is_method(method_of(q)) {
        &&& b.asked@.len() == a.asked@.len() + 1
        &&& b.asked@.drop_last() == a.asked@
        &&& asks(q, b.asked@.last())
        &&& told(b.came@, r)
    } else {
        b == a && r is None
    }
}
spec fn rq(q: Arc<FetchRequest>) -> FetchRequest { *q }
//@file crates/vertigo-cli/src/serve/html/send_request.rs
//@item fn send_request_inner
⟦async fn⇒fn⟧ send_request_inner(request_params: Arc<FetchRequest>«, w: &mut World») -> «(r:» Option<(u32, RequestBody)> «)
    ensures sent_and_told(*request_params, *old(w), *final(w), r),»
{
    let client = ⟦reqwest::Client⇒Client⟧::new();

    let method = ⟦request_params.method.trim().to_uppercase()⇒vx_upper(vx_trim(request_params.method.as_str()))⟧;

    let mut request = match Method::from_bytes(⟦method.as_bytes()⇒vx_bytes(&method)⟧) {
        Ok(method) => client.request(method, &request_params.url),
        Err(error) => {
            return None;
        }
    };

    let headers = clear_headers(&request_params.headers);
«    let ghost h = headers@;»
    let (headers, body) = get_headers_and_body(headers, &request_params.body);

«    let ghost m = headers@;
    let ghost q = request.asked@;»
    for (key, value) in «it:» ⟦headers⇒vx_owned(headers)⟧
«        invariant
            owned(it.seq(), m), m == headers@, it.seq().take(0) =~= seq![],
            request.asked@ == (Asked { headers: it.seq().take(it.index@ as int), ..q }),
            it.index@ == it.seq().len() ==> owned(request.asked@.headers, m),»
    {
«        let ghost at = it.index@ as int;
        assert(it.seq().take(at + 1) =~= it.seq().take(at).push((key, value)));»
        request = request.header(key, value);
«        assert(at + 1 == it.seq().len() ==> it.seq().take(at + 1) =~= it.seq());»
    }
«    proof {
        assert(owned(request.asked@.headers, m));
        assert(request.asked@.method == method_of(rq(request_params)));
    }»
«    proof { assert(cleared(rq(request_params).headers@, h)); }»

    match body {
        BodyToSend::None => {}
        BodyToSend::String(body) => {
            request = request.⟦body⇒body_text⟧(body);
        }
        BodyToSend::Vec(buffer) => {
            request = request.⟦body⇒body_bytes⟧(buffer);
        }
    }

«    let ghost a = request.asked@;
    let ghost before = *w;
    proof {
        assert(asks(rq(request_params), a));
        assert(before.asked@.push(a).drop_last() =~= before.asked@);
    }»
    let response = match request.send(«w»)⟦.await⇒⟧ {
        Ok(response) => response,
        Err(error) => {
            return None;
        }
    };

    let status = response.status().as_u16() as u32;
    let response_type = get_response_type(&response);

    let buffer = match response.bytes()⟦.await⇒⟧ {
        Ok(response) => response.to_vec(),
        Err(error) => {
            return None;
        }
    };

    match response_type {
        ResponseType::Text => {
            let Ok(body) = ⟦String::from_utf8⇒vx_utf8⟧(buffer) else {
                return None;
            };

            Some((status, RequestBody::Text(body)))
        }
        ResponseType::Json => match ⟦serde_json::from_slice::<Value>(buffer.as_slice())⇒vx_json_value(&buffer)⟧ {
            Ok(json) => {
                let json = convert_to_jsjson(json);
                Some((status, RequestBody::Json(json)))
            }
            Err(error) => {
                None
            }
        },
        ResponseType::Bin => Some((status, RequestBody::Binary(buffer))),
    }
}
//@end
spec fn answered(q: FetchRequest, a: World, b: World, r: FetchResponse) -> bool {
    exists|o: Option<(u32, RequestBody)>| #[trigger] sent_and_told(q, a, b, o) && match o {
        Some(x) => r.success && r.status == x.0 && r.body == x.1,
        None => !r.success && r.status == 0 && r.body is Text && r.body->Text_0@.len() == 0,
    }
}
//@item fn send_request
pub ⟦async fn⇒fn⟧ send_request(request_params: Arc<FetchRequest>«, w: &mut World») -> «(r:» FetchResponse «)
    ensures answered(*request_params, *old(w), *final(w), r),»
{
    match send_request_inner(request_params«, w»)⟦.await⇒⟧ {
        Some((status, body)) => FetchResponse {
            success: true,
            status,
            body,
        },
        None => FetchResponse {
            success: false,
            status: 0,
            body: RequestBody::Text(⟦String::from("")⇒vx_empty()⟧),
        },
    }
}
//@end
#[verifier::external_body]
fn vx_empty() -> (r: String) ensures r@.len() == 0 { String::new() }
} // verus!
fn main() {}
