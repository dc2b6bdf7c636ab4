#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::hash::*;
use std::collections::{HashMap, VecDeque};

verus! {
broadcast use {vstd::std_specs::vec::group_vec_axioms, vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key, vv::lemma_v_list, vv::lemma_vs_push, vv::lemma_vs_add, vv::lemma_vs_small};

mod sax {
    use super::*;
    pub broadcast axiom fn axiom_string_key()
        ensures #[trigger] obeys_key_model::<String>();
    // two Strings with the same characters are the same key
    pub axiom fn axiom_string_ext(a: String, b: String)
        requires a@ == b@,
        ensures a == b;
}
//@include host_calls.inc
//@include host_answer.inc
// ---- trusted: std, the wire (C01) and the entry points of the host ------------------------------------------------------
#[verifier::external_body]
fn vx_to_string(a: &str) -> (r: String)
    ensures r@ == a@,
{ a.to_string() }
#[verifier::external_body]
fn vx_string() -> String { String::new() }
#[verifier::external_body]
fn vx_f64_to_i64(x: f64) -> i64 { x as i64 }
#[verifier::external_body]
fn vx_minutes(x: i32) -> i32 { unimplemented!() }
fn vx_to_instant(x: i64) -> InstantType { x as u64 }
type InstantType = u64;
#[verifier::external_body]
pub struct HostFn { _p: () }
#[verifier::external_body]
pub struct PanicMessage { _p: () }
impl Clone for PanicMessage {
    #[verifier::external_body]
    fn clone(&self) -> PanicMessage { unimplemented!() }
}
impl Copy for PanicMessage {}
impl PanicMessage {
    #[verifier::external_body]
    fn show(&self, message: String) { unimplemented!() }
}
#[verifier::external_body]
pub struct MemoryBlock { _p: () }
// the calls the program made, the host's last reply, the identifier last registered, and the request events
pub struct World { pub calls: Ghost<Seq<V>>, pub reply: Ghost<V>, pub registered: Ghost<Option<u64>>, pub starts: Ghost<nat>, pub stops: Ghost<nat>, pub published: Ghost<Seq<Published>>,
    // the functions there are under each number, what boxes hold, and the functions of the program that have run
    pub handlers: Ghost<Map<u64, Hand>>, pub boxes: Ghost<Map<int, Option<Back>>>, pub ran: Ghost<Seq<Ran>> }
pub open spec fn idle(a: World, b: World) -> bool { a.handlers == b.handlers && a.boxes == b.boxes && a.ran == b.ran }
pub open spec fn same(a: World, b: World) -> bool { idle(a, b) && a.registered == b.registered && a.starts == b.starts && a.stops == b.stops && a.published == b.published }
pub enum Published { Response(u32, V), Failure }
// what is done with what arrives under a number
pub enum Hand {
    // the function is run
    Tick(int),
    // the function is run, then what the box holds is given back
    Once(int, int),
    // the function is told the text
    Text(int),
    // the function is told what happened on the connection
    Socket(int, u64),
    // the request is answered
    Response,
}
pub enum Heard { Nothing, Text(Seq<char>), Connected(u64), Message(Seq<char>), Closed }
pub struct Ran { pub who: int, pub told: Heard }
// what a handle gives back: the call that tells the host, and the number
pub struct Back { pub call: Option<V>, pub frees: u64 }

impl MemoryBlock {
    // the value whose encoding the block holds, and where it is
    pub uninterp spec fn holds(self) -> V;
    pub uninterp spec fn place(self) -> (u32, u32);
    #[verifier::external_body]
    fn get_ptr_and_size(&self) -> (r: (u32, u32)) ensures r == self.place(),
    { unimplemented!() }
}
// the host reads the value encoded in the block it is pointed to
#[verifier::external_body]
fn vx_dom_access(f: &HostFn, ptr: u32, size: u32, m: &MemoryBlock, w: &mut World) -> (r: u32)
    requires (ptr, size) == m.place(),
    ensures final(w).calls@ == old(w).calls@.push(m.holds()), same(*old(w), *final(w)),
{ unimplemented!() }
#[verifier::external_body]
pub struct Arguments { _p: () }
impl Arguments {
    #[verifier::external_body]
    fn get_by_ptr(&self, ptr: u32, w: &mut World) -> (r: JsValue)
        ensures final(w).reply@ == v(r), final(w).calls == old(w).calls, same(*old(w), *final(w)),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_arguments(a: &Arguments) -> Arguments { unimplemented!() }
#[verifier::external_body]
fn vx_host_fn(a: &HostFn) -> HostFn { unimplemented!() }

//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
impl JsValue {
//@item impl JsValue :: fn str
    pub fn str(value: ⟦impl Into<String>⇒&str⟧) -> «(r:» JsValue «) ensures v(r) == V::Str(value@),»
    {
        JsValue::String(⟦value.into()⇒vx_to_string(value)⟧)
    }
//@end
    #[verifier::external_body]
    fn to_snapshot(&self) -> (r: MemoryBlock) ensures r.holds() == v(*self),
    { unimplemented!() }
}
//@file crates/vertigo/src/dom/dom_id.rs
//@item struct DomId
pub struct DomId(u64);
//@end
impl DomId {
//@item impl DomId :: fn to_u64
    pub fn to_u64(&self) -> «(r:» u64 «) ensures r == self.0,»
    {
        self.0
    }
//@end
}
//@file crates/vertigo/src/driver_module/api/api_dom_access.rs
//@item struct DomAccess
pub struct DomAccess {
    panic_message: PanicMessage,
    arguments: Arguments,
    fn_dom_access: ⟦fn(ptr: u32, size: u32) -> u32⇒HostFn⟧,
    builder: Vec<JsValue>,
}
//@end
impl DomAccess {
    // what was put together so far
    pub closed spec fn built(self) -> Seq<V> { vs(self.builder@) }

//@item impl DomAccess :: fn new
    pub fn new(
        panic_message: PanicMessage,
        arguments: Arguments,
        fn_dom_access: ⟦fn(ptr: u32, size: u32) -> u32⇒HostFn⟧,
    ) -> «(r:» DomAccess «) ensures r.built() == Seq::<V>::empty(),» {
        «proof { assert(vs(Seq::<JsValue>::empty()) =~= Seq::<V>::empty()); }»
        DomAccess {
            panic_message,
            fn_dom_access,
            arguments,
            builder: Vec::new(),
        }
    }
//@end
//@item impl DomAccess :: fn api
    pub fn api(⟦mut self⇒self⟧) -> «(r:» Self «) ensures r.built() == self.built().push(api()),» {
        «proof { reveal(api); }
        let mut this = self;»
        ⟦self⇒this⟧.builder.push(JsValue::List(vec![JsValue::str("api")]));

        ⟦self⇒this⟧
    }
//@end
//@item impl DomAccess :: fn element
    pub fn element(⟦mut self⇒self⟧, dom_id: DomId) -> «(r:» Self «) ensures r.built() == self.built().push(V::List(seq![s("root"), u64v(dom_id.0)])),» {
        «let mut this = self;»
        ⟦self⇒this⟧.builder.push(JsValue::List(vec![
            JsValue::str("root"),
            JsValue::U64(dom_id.to_u64()),
        ]));

        ⟦self⇒this⟧
    }
//@end
//@item impl DomAccess :: fn root
    pub fn root(⟦mut self⇒self⟧, name: ⟦impl Into<String>⇒&str⟧) -> «(r:» Self «) ensures r.built() == self.built().push(root(name)),» {
        «proof { reveal(root); }
        let mut this = self;»
        ⟦self⇒this⟧.builder.push(JsValue::List(vec![
            JsValue::str("root"),
            JsValue::str(name),
        ]));

        ⟦self⇒this⟧
    }
//@end
//@item impl DomAccess :: fn get
    pub fn get(⟦mut self⇒self⟧, name: ⟦impl Into<String>⇒&str⟧) -> «(r:» Self «) ensures r.built() == self.built().push(get(name)),» {
        «proof { reveal(get); }
        let mut this = self;»
        ⟦self⇒this⟧.builder
            .push(JsValue::List(vec![JsValue::str("get"), JsValue::str(name)]));

        ⟦self⇒this⟧
    }
//@end
//@item impl DomAccess :: fn set
    pub fn set(⟦mut self⇒self⟧, name: ⟦impl Into<String>⇒&str⟧, value: JsValue) -> «(r:» Self «) ensures r.built() == self.built().push(V::List(seq![s("set"), s(name), v(value)])),» {
        «let mut this = self;»
        ⟦self⇒this⟧.builder.push(JsValue::List(vec![
            JsValue::str("set"),
            JsValue::str(name),
            value,
        ]));

        ⟦self⇒this⟧
    }
//@end
//@item impl DomAccess :: fn call
    pub fn call(⟦mut self⇒self⟧, name: ⟦impl Into<String>⇒&str⟧, params: Vec<JsValue>) -> «(r:» Self «) ensures r.built() == self.built().push(call(name, vs(params@))),» {
        «proof { reveal(callq); }
        let mut this = self;»
        let mut value_params = vec![JsValue::str("call"), JsValue::str(name)];

        ⟦value_params.extend(params);⇒let mut params = params; let ghost g = params@; value_params.append(&mut params);⟧

        ⟦self⇒this⟧.builder.push(JsValue::List(value_params));
        ⟦self⇒this⟧
    }
//@end
//@item impl DomAccess :: fn synthetic
    pub fn synthetic(⟦mut self⇒self⟧, name: ⟦impl Into<String>⇒&str⟧, params: JsValue) -> «(r:» Self «) ensures r.built() == self.built().push(V::List(seq![s(name)])).push(v(params)),» {
        «let mut this = self;»
        ⟦self⇒this⟧.builder.push(JsValue::List(vec![JsValue::str(name)]));
        ⟦self⇒this⟧.builder.push(params);
        ⟦self⇒this⟧
    }
//@end
//@item impl DomAccess :: fn exec
    pub fn exec(self«, w: &mut World»)
        «ensures final(w).calls@ == old(w).calls@.push(V::List(self.built())), same(*old(w), *final(w)),
   » {
        let panic_message = self.panic_message;

        let result = self.fetch(«w»);

        if let JsValue::Undefined = result {
            //ok
        } else {
            let message = ⟦format!("Expected undefined dump={result:?}")⇒vx_string()⟧;
            panic_message.show(message);
        }
    }
//@end
//@item impl DomAccess :: fn fetch
    pub fn fetch(self«, w: &mut World») -> «(r:» JsValue «)
        ensures final(w).calls@ == old(w).calls@.push(V::List(self.built())), final(w).reply@ == v(r), same(*old(w), *final(w)),»
    {
        «proof { lemma_v_list(self.builder); }»
        let memory = JsValue::List(self.builder).to_snapshot();
        let (ptr, size) = memory.get_ptr_and_size();

        let result_ptr = ⟦(self.fn_dom_access)(ptr, size)⇒vx_dom_access(&self.fn_dom_access, ptr, size, &memory, w)⟧;
        self.arguments.get_by_ptr(result_ptr«, w»)
    }
//@end
}

//@include decoder.inc
//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
//@item struct JsJsonObjectBuilder
pub struct JsJsonObjectBuilder {
    data: HashMap<String, JsJson>,
}
//@end
impl JsJsonObjectBuilder {
    pub closed spec fn entries(self) -> Map<String, JsJson> { self.data@ }
    // derive(Default)
    fn vx_default() -> (r: JsJsonObjectBuilder) ensures r.entries() == Map::<String, JsJson>::empty(),
    { JsJsonObjectBuilder { data: HashMap::new() } }
//@item impl JsJsonObjectBuilder :: fn insert
    pub fn insert(⟦mut self⇒self⟧, name: ⟦impl ToString⇒String⟧, value: ⟦impl JsJsonSerialize⇒String⟧) -> «(r:» Self «)
        ensures r.entries() == self.entries().insert(name, JsJson::String(value)),»
    {
        «let mut this = self;»
        ⟦let name = name.to_string();⇒⟧
        let value = ⟦value.to_json()⇒vx_to_json(value)⟧;
        ⟦self⇒this⟧.data.insert(name, value);
        ⟦self⇒this⟧
    }
//@end
//@item impl JsJsonObjectBuilder :: fn get
    pub fn get(self) -> «(r:» JsJson «) ensures r is Object, r->Object_0@ == self.entries(),»
    {
        JsJson::Object(self.data)
    }
//@end
}
//@file crates/vertigo/src/driver_module/js_value/serialize.rs
//@item impl JsJsonSerialize for String :: fn to_json
fn ⟦to_json(self)⇒vx_to_json(this: String)⟧ -> «(r:» JsJson «) ensures r == JsJson::String(this),»
{
    JsJson::String(⟦self⇒this⟧)
}
//@end
pub open spec fn pairs_of(m: Map<String, String>, r: Seq<(String, String)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|k: String| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
    &&& forall|i: int| 0 <= i < r.len() ==> m[(#[trigger] r[i]).0] == r[i].1
}
pub open spec fn added(e: Map<String, JsJson>, r: Seq<(String, String)>, n: int) -> bool {
    &&& 0 <= n <= r.len()
    &&& forall|k: String| #[trigger] e.dom().contains(k) <==> exists|i: int| 0 <= i < n && (#[trigger] r[i]).0 == k
    &&& forall|i: int| 0 <= i < n ==> e[(#[trigger] r[i]).0] == JsJson::String(r[i].1)
}
pub open spec fn carries(m: Map<String, String>, e: Map<String, JsJson>) -> bool {
    &&& forall|k: String| #[trigger] e.dom().contains(k) <==> m.dom().contains(k)
    &&& forall|k: String| #[trigger] e.dom().contains(k) ==> e[k] == JsJson::String(m[k])
}
proof fn lemma_carries(m: Map<String, String>, e: Map<String, JsJson>)
    requires exists|r: Seq<(String, String)>| #[trigger] pairs_of(m, r) && added(e, r, r.len() as int),
    ensures carries(m, e),
{
    let r = choose|r: Seq<(String, String)>| #[trigger] pairs_of(m, r) && added(e, r, r.len() as int);
    assert forall|k: String| #[trigger] e.dom().contains(k) implies e[k] == JsJson::String(m[k]) by {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k;
        assert(m[r[i].0] == r[i].1);
    }
}
proof fn lemma_headers(m: Map<String, String>, j: JsJson)
    requires j is Object, carries(m, j->Object_0@),
    ensures headers_of(j) == Some(m),
{
    let h = Map::new(j->Object_0@.dom(), |k: String| j->Object_0@[k]->String_0);
    assert(h =~= m);
}
// the entries of a map, each once, in an order of the map's own
#[verifier::external_body]
fn vx_pairs(m: HashMap<String, String>) -> (r: Vec<(String, String)>)
    ensures pairs_of(m@, r@),
{ m.into_iter().collect() }
//@file crates/vertigo/src/driver_module/driver.rs
//@item enum FetchMethod
«pub» enum FetchMethod {
    GET,
    HEAD,
    POST,
    PUT,
    DELETE,
    CONNECT,
    OPTIONS,
    TRACE,
    PATCH,
}
//@end
pub open spec fn method_name(m: FetchMethod) -> Seq<char> {
    match m {
        FetchMethod::GET => "GET"@,
        FetchMethod::HEAD => "HEAD"@,
        FetchMethod::POST => "POST"@,
        FetchMethod::PUT => "PUT"@,
        FetchMethod::DELETE => "DELETE"@,
        FetchMethod::CONNECT => "CONNECT"@,
        FetchMethod::OPTIONS => "OPTIONS"@,
        FetchMethod::TRACE => "TRACE"@,
        FetchMethod::PATCH => "PATCH"@,
    }
}
impl FetchMethod {
//@item impl FetchMethod :: fn to_str
    pub fn to_str(&self) -> «(r:» String «) ensures r@ == method_name(*self),»
    {
        ⟦match⇒vx_to_string(match⟧ self {
            Self::GET => "GET",
            Self::HEAD => "HEAD",
            Self::POST => "POST",
            Self::PUT => "PUT",
            Self::DELETE => "DELETE",
            Self::CONNECT => "CONNECT",
            Self::OPTIONS => "OPTIONS",
            Self::TRACE => "TRACE",
            Self::PATCH => "PATCH",
        }
        ⟦.into()⇒)⟧
    }
//@end
}
//@file crates/vertigo/src/fetch/request_builder.rs
//@item enum RequestBody
«pub» enum RequestBody {
    Text(String),
    Json(JsJson),
    Binary(Vec<u8>),
}
//@end
pub open spec fn body_v(b: Option<RequestBody>) -> V {
    match b {
        None => undef(),
        Some(RequestBody::Text(t)) => V::Str(t@),
        Some(RequestBody::Json(j)) => jsonv(j),
        Some(RequestBody::Binary(b)) => V::Other(JsValue::Vec(b)),
    }
}
pub open spec fn response_is(r: (bool, u32, RequestBody), l: Seq<V>) -> bool {
    (l[0] == V::Other(JsValue::True) <==> r.0) && l[1] == u32v(r.1) && l[2] == body_v(Some(r.2))
}
pub open spec fn c_fetch(id: u64, method: Seq<char>, url: Seq<char>, headers: JsJson, body: V) -> V {
    api_get_call("fetch", "fetch_send_request", seq![u64v(id), V::Str(method), V::Str(url), jsonv(headers), body])
}
// the two ends of the future that fetch hands out
#[verifier::external_body]
pub struct FutureBoxSend { _p: () }
#[verifier::external_body]
pub struct FutureBox { _p: () }
impl FutureBox {
    #[verifier::external_body]
    fn new() -> (FutureBoxSend, FutureBox) { unimplemented!() }
}
impl FutureBoxSend {
    #[verifier::external_body]
    fn publish(&self, x: Result<(u32, RequestBody), String>, w: &mut World)
        ensures
            final(w).stops == old(w).stops, final(w).starts == old(w).starts, final(w).calls == old(w).calls, final(w).registered == old(w).registered, idle(*old(w), *final(w)),
            final(w).published@ == old(w).published@.push(match x { Ok(r) => Published::Response(r.0, body_v(Some(r.1))), Err(_) => Published::Failure }),
    { unimplemented!() }
}

//@file crates/vertigo/src/driver_module/api/callbacks.rs
#[derive(Clone, Copy)]
//@item struct CallbackId
«pub» struct CallbackId(«pub» u64);
//@end
impl CallbackId {
//@item impl CallbackId :: fn as_u64
    pub fn as_u64(&self) -> «(r:» u64 «) ensures r == self.0,»
    {
        self.0
    }
//@end
}
// what happens when a handle is let go
pub struct DropResource { pub back: Ghost<Back> }
pub open spec fn given_back(k: Back, a: World, b: World) -> bool {
    &&& b.calls@ == (match k.call { Some(c) => a.calls@.push(c), None => a.calls@ }) && b.handlers@ == a.handlers@.remove(k.frees)
    &&& b.registered == a.registered && b.starts == a.starts && b.stops == a.stops && b.published == a.published && b.boxes == a.boxes && b.ran == a.ran
}
impl DropResource {
    #[verifier::external_body]
    fn new<F: FnOnce(&mut World)>(back: Ghost<Back>, f: F) -> (r: DropResource)
        requires
            forall|w: &mut World| call_requires(f, (w,)),
            forall|w: &mut World| #[trigger] call_ensures(f, (w,), ()) ==> given_back(back@, *w, *final(w)),
        ensures r.back == back,
    { unimplemented!() }
    #[verifier::external_body]
    fn off(self, w: &mut World)
        ensures given_back(self.back@, *old(w), *final(w)),
    { unimplemented!() }
}
// a place for a handle, which is shared
pub struct DropBox { pub id: Ghost<int> }
impl DropBox {
    #[verifier::external_body]
    fn new(w: &mut World) -> (r: DropBox)
        ensures
            !old(w).boxes@.contains_key(r.id@), final(w).boxes@ == old(w).boxes@.insert(r.id@, None), final(w).calls == old(w).calls, final(w).handlers == old(w).handlers, final(w).ran == old(w).ran,
            final(w).registered == old(w).registered, final(w).starts == old(w).starts, final(w).stops == old(w).stops, final(w).published == old(w).published,
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: DropBox) ensures r.id == self.id { unimplemented!() }
    // the handle that was there is let go
    #[verifier::external_body]
    fn set(&self, value: Option<DropResource>, w: &mut World)
        ensures boxed(self.id@, match value { Some(d) => Some(d.back@), None => None }, *old(w), *final(w)),
    { unimplemented!() }
}
pub open spec fn held(a: World, id: int) -> Option<Back> { if a.boxes@.contains_key(id) { a.boxes@[id] } else { None } }
pub open spec fn boxed(id: int, value: Option<Back>, a: World, b: World) -> bool {
    emptied(id, value, a, b) && b.ran == a.ran
}
pub open spec fn emptied(id: int, value: Option<Back>, a: World, b: World) -> bool {
    &&& b.boxes@ == a.boxes@.insert(id, value)
    &&& b.reply == a.reply && b.registered == a.registered && b.starts == a.starts && b.stops == a.stops && b.published == a.published
    &&& match held(a, id) {
        None => b.calls == a.calls && b.handlers == a.handlers,
        Some(k) => b.calls@ == (match k.call { Some(c) => a.calls@.push(c), None => a.calls@ }) && b.handlers@ == a.handlers@.remove(k.frees),
    }
}
// functions of the program: that they ran is recorded
pub open spec fn runs(who: int, told: Heard, a: World, b: World) -> bool {
    &&& b.ran@ == a.ran@.push(Ran { who, told }) && b.reply == a.reply && b.calls == a.calls && b.handlers == a.handlers && b.boxes == a.boxes
    &&& b.registered == a.registered && b.starts == a.starts && b.stops == a.stops && b.published == a.published
}
pub open spec fn does(h: Hand, a: World, b: World) -> bool {
    match h {
        Hand::Tick(who) => runs(who, Heard::Nothing, a, b),
        Hand::Once(who, k) => b.ran@ == a.ran@.push(Ran { who, told: Heard::Nothing }) && emptied(k, None, a, b),
        _ => false,
    }
}
pub open spec fn handled(h: Hand, data: JsValue, a: World, b: World, r: JsValue) -> bool {
    match h {
        Hand::Tick(_) => does(h, a, b) && r is Undefined,
        Hand::Once(..) => does(h, a, b) && r is Undefined,
        Hand::Text(who) => runs(who, Heard::Text(if data is String { data->String_0@ } else { Seq::empty() }), a, b) && r is Undefined,
        Hand::Socket(who, id) => r is Undefined && match data {
            JsValue::True => runs(who, Heard::Connected(id), a, b),
            JsValue::String(t) => runs(who, Heard::Message(t@), a, b),
            JsValue::False => runs(who, Heard::Closed, a, b),
            _ => a == b,
        },
        Hand::Response => false,
    }
}
impl WebsocketMessage {
    closed spec fn told(self) -> Heard {
        match self {
            WebsocketMessage::Message(t) => Heard::Message(t@),
            WebsocketMessage::Connection(c) => Heard::Connected(c.callback_id.0),
            WebsocketMessage::Close => Heard::Closed,
        }
    }
}
// a number is given to the function, and the host is told of it
pub open spec fn asked(a: World, b: World, h: Hand) -> bool {
    &&& b.registered@ is Some && !a.handlers@.contains_key(b.registered@->0) && b.handlers@ == a.handlers@.insert(b.registered@->0, h)
    &&& b.starts == a.starts && b.stops == a.stops && b.published == a.published && b.boxes == a.boxes && b.ran == a.ran
}
// the store of callbacks (C25)
#[verifier::external_body]
pub struct CallbackStore { _p: () }
impl CallbackStore {
    #[verifier::external_body]
    fn register<C: Fn(JsValue, &mut World) -> JsValue>(&self, c: C, w: &mut World, hand: Ghost<Hand>) -> (r: (CallbackId, DropResource))
        requires
            forall|x: JsValue, w: &mut World| #[trigger] call_requires(c, (x, w)),
            forall|x: JsValue, w: &mut World, r: JsValue| #[trigger] call_ensures(c, (x, w), r) ==> handled(hand@, x, *w, *final(w), r),
        ensures
            asked(*old(w), *final(w), hand@), final(w).registered@ == Some(r.0.0), final(w).calls == old(w).calls, final(w).reply == old(w).reply,
            r.1.back@ == (Back { call: None, frees: r.0.0 }),
    { unimplemented!() }
    #[verifier::external_body]
    fn register_with_id<C: Fn(CallbackId, JsValue, &mut World) -> JsValue>(&self, c: C, w: &mut World, who: Ghost<int>) -> (r: (CallbackId, DropResource))
        requires
            forall|id: CallbackId, x: JsValue, w: &mut World| #[trigger] call_requires(c, (id, x, w)),
            forall|id: CallbackId, x: JsValue, w: &mut World, r: JsValue| #[trigger] call_ensures(c, (id, x, w), r) ==> handled(Hand::Socket(who@, id.0), x, *w, *final(w), r),
        ensures
            asked(*old(w), *final(w), Hand::Socket(who@, r.0.0)), final(w).registered@ == Some(r.0.0), final(w).calls == old(w).calls, final(w).reply == old(w).reply,
            r.1.back@ == (Back { call: None, frees: r.0.0 }),
    { unimplemented!() }
    // the function is called at most once, with whatever the host answers
    #[verifier::external_body]
    fn register_once<F: Fn(JsValue, &mut World) -> JsValue>(&self, f: F, w: &mut World) -> (r: CallbackId)
        requires
            forall|x: JsValue, w: &mut World| call_requires(f, (x, w)),
            forall|x: JsValue, w: &mut World, r: JsValue| #[trigger] call_ensures(f, (x, w), r) ==> responded(x, *w, *final(w)),
        ensures asked(*old(w), *final(w), Hand::Response), final(w).registered@ == Some(r.0), final(w).calls == old(w).calls, final(w).reply == old(w).reply,
    { unimplemented!() }
}
// a response of the form [success, status, body]
pub open spec fn is_response(x: V) -> bool {
    x is List && items(x).len() == 3 && is_bool(items(x)[0]) && is_u32(items(x)[1]) && (items(x)[2] is Str || items(x)[2] is Other && (items(x)[2]->Other_0 is Json || items(x)[2]->Other_0 is Vec))
}
pub open spec fn is_bool(x: V) -> bool { x == V::Other(JsValue::True) || x == V::Other(JsValue::False) }
// the end of the request is told once whatever arrives; a proper response is published, with its status and body
pub open spec fn responded(x: JsValue, before: World, after: World) -> bool {
    let r = v(x);
    &&& after.stops@ == before.stops@ + 1
    &&& is_response(r) && items(r)[0] == V::Other(JsValue::True) ==> after.published@ == before.published@.push(Published::Response(items(r)[1]->Other_0->U32_0, items(r)[2]))
    &&& is_response(r) && items(r)[0] == V::Other(JsValue::False) ==> after.published@ == before.published@.push(Published::Failure)
}
pub open spec fn c_is_browser() -> V { api_call("isBrowser", Seq::empty()) }
pub open spec fn c_env(name: Seq<char>) -> V { api_call("get_env", seq![V::Str(name)]) }
pub open spec fn c_plain(body: Seq<char>) -> V { V::List(seq![V::List(seq![s("plain_response")]), V::Str(body)]) }
pub open spec fn c_now() -> V { V::List(seq![root("window"), get("Date"), call("now", Seq::empty())]) }
pub open spec fn c_interval_clear(id: i32) -> V { api_get_call("interval", "interval_clear", seq![i32v(id)]) }
pub open spec fn timer_of(reply: V) -> i32 { if reply is Other && reply->Other_0 is I32 { reply->Other_0->I32_0 } else { 0 } }
pub open spec fn c_console(kind: Seq<char>, a: &str, b: &str, c: &str, d: &str) -> V {
    V::List(seq![root("window"), get("console"), callq(kind, seq![s(a), s(b), s(c), s(d)])])
}
//@file crates/vertigo/src/driver_module/api/api_import.rs
//@item enum ConsoleLogLevel
«pub» enum ConsoleLogLevel {
    Debug,
    Info,
    Log,
    Warn,
    Error,
}
//@end
pub open spec fn kind_name(k: ConsoleLogLevel) -> Seq<char> {
    match k {
        ConsoleLogLevel::Debug => "debug"@,
        ConsoleLogLevel::Info => "info"@,
        ConsoleLogLevel::Log => "log"@,
        ConsoleLogLevel::Warn => "warn"@,
        ConsoleLogLevel::Error => "error"@,
    }
}
impl ConsoleLogLevel {
//@item impl ConsoleLogLevel :: fn get_str
    pub fn get_str(&self) -> «(r:» &'static str «) ensures r@ == kind_name(*self),»
    {
        match self {
            Self::Debug => "debug",
            Self::Info => "info",
            Self::Log => "log",
            Self::Warn => "warn",
            Self::Error => "error",
        }
    }
//@end
}
//@item struct ApiImport
pub struct ApiImport {
    pub panic_message: PanicMessage,
    pub fn_dom_access: ⟦fn(ptr: u32, size: u32) -> u32⇒HostFn⟧,

    pub(crate) arguments: Arguments,
    pub(crate) callback_store: CallbackStore,

    pub on_fetch_start: ⟦EventEmitter<()>⇒StartEvent⟧,
    pub on_fetch_stop: ⟦EventEmitter<()>⇒StopEvent⟧,
}
//@end
#[verifier::external_body]
fn vx_api_clone(a: &ApiImport) -> ApiImport { unimplemented!() }
#[verifier::external_body]
fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
// A detached timer: its function runs when it comes, and then its number and the timer are given back.
pub open spec fn detached(a: World, b: World, duration: u32, who: int) -> bool { exists|k: int| #[trigger] detached_in(a, b, duration, who, k) }
pub open spec fn detached_in(a: World, b: World, duration: u32, who: int, k: int) -> bool {
    let id = b.registered@->0;
    &&& b.registered@ is Some && !a.handlers@.contains_key(id) && b.handlers@ == a.handlers@.insert(id, Hand::Once(who, k))
    &&& !a.boxes@.contains_key(k) && b.boxes@ == a.boxes@.insert(k, Some(Back { call: Some(c_interval_clear(timer_of(b.reply@))), frees: id }))
    &&& b.calls@ == a.calls@.push(api_get_call("interval", "timeout_set", seq![u32v(duration), u64v(id)]))
    &&& b.starts == a.starts && b.stops == a.stops && b.published == a.published && b.ran == a.ran
}
// when it comes (whatever else has come in between): the function runs once, and nothing is left that could run it again
proof fn lemma_detached(a: World, b: World, duration: u32, who: int, k: int, c: World, data: JsValue, d: World, r: JsValue)
    requires
        detached_in(a, b, duration, who, k), c.boxes@.contains_key(k) && c.boxes@[k] == b.boxes@[k],
        handled(Hand::Once(who, k), data, c, d, r),
    ensures
        d.ran@ == c.ran@.push(Ran { who, told: Heard::Nothing }), d.handlers@ == c.handlers@.remove(b.registered@->0),
        d.calls@ == c.calls@.push(c_interval_clear(timer_of(b.reply@))), d.boxes@ == c.boxes@.insert(k, None), r is Undefined,
{
}
// a handle that was let go: nothing more runs under its number, and the host has been told
proof fn lemma_let_go(a: World, b: World, k: Back)
    requires given_back(k, a, b),
    ensures !b.handlers@.contains_key(k.frees), k.call is Some ==> b.calls@ == a.calls@.push(k.call->0), b.ran == a.ran,
{
}
//@file crates/vertigo/src/websocket.rs
//@item struct WebsocketConnection
pub struct WebsocketConnection {
    api: ApiImport,
    callback_id: CallbackId,
}
//@end
//@item enum WebsocketMessage
pub enum WebsocketMessage {
    Message(String),
    Connection(WebsocketConnection),
    Close,
}
//@end
impl WebsocketConnection {
//@item impl WebsocketConnection :: fn new
    pub fn new(api: ApiImport, callback_id: CallbackId) -> «(r:» WebsocketConnection«)
        ensures r.callback_id == callback_id,»
    {
        WebsocketConnection { api, callback_id }
    }
//@end
//@item impl WebsocketConnection :: fn send
    pub fn send(&self«, w: &mut World», message: ⟦impl Into<String>⇒String⟧)
«        ensures final(w).calls@ == old(w).calls@.push(api_get_call2(self.callback_id.0, message@)), same(*old(w), *final(w)),»
    {
        let message = message⟦.into()⇒⟧;

        self.api
            .websocket_send_message(«w, »self.callback_id.as_u64(), message.as_str());
    }
//@end
}
pub open spec fn api_get_call2(id: u64, message: Seq<char>) -> V { V::List(seq![api(), get("websocket"), call("websocket_send_message", seq![u64v(id), V::Str(message)])]) }
//@file crates/vertigo/src/driver_module/api/api_import.rs
// the two request events (C24)
#[verifier::external_body]
pub struct StartEvent { _p: () }
#[verifier::external_body]
pub struct StopEvent { _p: () }
impl StartEvent {
    #[verifier::external_body]
    fn trigger(&self, x: (), w: &mut World)
        ensures final(w).starts@ == old(w).starts@ + 1, final(w).stops == old(w).stops, final(w).calls == old(w).calls, final(w).published == old(w).published, final(w).registered == old(w).registered, idle(*old(w), *final(w)),
    { unimplemented!() }
}
impl StopEvent {
    #[verifier::external_body]
    fn clone(&self) -> StopEvent { unimplemented!() }
    #[verifier::external_body]
    fn trigger(&self, x: (), w: &mut World)
        ensures final(w).stops@ == old(w).stops@ + 1, final(w).starts == old(w).starts, final(w).calls == old(w).calls, final(w).published == old(w).published, final(w).registered == old(w).registered, idle(*old(w), *final(w)),
    { unimplemented!() }
}
impl ApiImport {
//@item impl ApiImport :: fn console_4
    fn console_4(&self«, w: &mut World», kind: ConsoleLogLevel, arg1: &str, arg2: &str, arg3: &str, arg4: &str)
        «ensures final(w).calls@ == old(w).calls@.push(c_console(kind_name(kind), arg1, arg2, arg3, arg4)), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .root("window")
            .get("console")
            .call(
                kind.get_str(),
                vec![
                    JsValue::str(arg1),
                    JsValue::str(arg2),
                    JsValue::str(arg3),
                    JsValue::str(arg4),
                ],
            )
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn console_debug_4
    pub fn console_debug_4(&self«, w: &mut World», arg1: &str, arg2: &str, arg3: &str, arg4: &str)
        «ensures final(w).calls@ == old(w).calls@.push(c_console("debug"@, arg1, arg2, arg3, arg4)), same(*old(w), *final(w)),»
    {
        self.console_4(«w, »ConsoleLogLevel::Debug, arg1, arg2, arg3, arg4)
    }
//@end
//@item impl ApiImport :: fn console_log_4
    pub fn console_log_4(&self«, w: &mut World», arg1: &str, arg2: &str, arg3: &str, arg4: &str)
        «ensures final(w).calls@ == old(w).calls@.push(c_console("log"@, arg1, arg2, arg3, arg4)), same(*old(w), *final(w)),»
    {
        self.console_4(«w, »ConsoleLogLevel::Log, arg1, arg2, arg3, arg4)
    }
//@end
//@item impl ApiImport :: fn console_info_4
    pub fn console_info_4(&self«, w: &mut World», arg1: &str, arg2: &str, arg3: &str, arg4: &str)
        «ensures final(w).calls@ == old(w).calls@.push(c_console("info"@, arg1, arg2, arg3, arg4)), same(*old(w), *final(w)),»
    {
        self.console_4(«w, »ConsoleLogLevel::Info, arg1, arg2, arg3, arg4)
    }
//@end
//@item impl ApiImport :: fn console_warn_4
    pub fn console_warn_4(&self«, w: &mut World», arg1: &str, arg2: &str, arg3: &str, arg4: &str)
        «ensures final(w).calls@ == old(w).calls@.push(c_console("warn"@, arg1, arg2, arg3, arg4)), same(*old(w), *final(w)),»
    {
        self.console_4(«w, »ConsoleLogLevel::Warn, arg1, arg2, arg3, arg4)
    }
//@end
//@item impl ApiImport :: fn console_error_4
    pub fn console_error_4(&self«, w: &mut World», arg1: &str, arg2: &str, arg3: &str, arg4: &str)
        «ensures final(w).calls@ == old(w).calls@.push(c_console("error"@, arg1, arg2, arg3, arg4)), same(*old(w), *final(w)),»
    {
        self.console_4(«w, »ConsoleLogLevel::Error, arg1, arg2, arg3, arg4)
    }
//@end
//@item impl ApiImport :: fn cookie_get
    pub fn cookie_get(&self«, w: &mut World», cname: &str) -> «(r:» String «)
        ensures final(w).calls@ == old(w).calls@.push(api_get_call("cookie", "get", seq![s(cname)])), same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .api()
            .get("cookie")
            .call("get", vec![JsValue::str(cname)])
            .fetch(«w»);

        if let JsValue::String(value) = result {
            value
        } else {
            ⟦String::from("")⇒vx_string()⟧
        }
    }
//@end
//@item impl ApiImport :: fn cookie_get_json
    pub fn cookie_get_json(&self«, w: &mut World», cname: &str) -> «(r:» JsJson «)
        ensures final(w).calls@ == old(w).calls@.push(c_is_browser()) || final(w).calls@ == old(w).calls@.push(c_is_browser()).push(api_get_call("cookie", "get_json", seq![s(cname)])), same(*old(w), *final(w)),»
    {
        if self.is_browser(«w») {
            let result = self
                .dom_access()
                .api()
                .get("cookie")
                .call("get_json", vec![JsValue::str(cname)])
                .fetch(«w»);

            if ⟦result != JsValue::Null⇒!matches!(result, JsValue::Null)⟧ {
                if let JsValue::Json(value) = result {
                    return value;
                }
            }
        }
        JsJson::Null
    }
//@end
//@item impl ApiImport :: fn cookie_set
    pub fn cookie_set(&self«, w: &mut World», cname: &str, cvalue: &str, expires_in: u64)
        «ensures final(w).calls@ == old(w).calls@.push(c_is_browser()) || final(w).calls@ == old(w).calls@.push(c_is_browser()).push(api_get_call("cookie", "set", seq![s(cname), s(cvalue), u64v(expires_in)])), same(*old(w), *final(w)),»
    {
        if self.is_browser(«w») {
            self.dom_access()
                .api()
                .get("cookie")
                .call(
                    "set",
                    vec![
                        JsValue::str(cname),
                        JsValue::str(cvalue),
                        JsValue::U64(expires_in),
                    ],
                )
                .exec(«w»);
        } else {
        }
    }
//@end
//@item impl ApiImport :: fn cookie_set_json
    pub fn cookie_set_json(&self«, w: &mut World», cname: &str, cvalue: JsJson, expires_in: u64)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("cookie", "set_json", seq![s(cname), jsonv(cvalue), u64v(expires_in)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("cookie")
            .call(
                "set_json",
                vec![
                    JsValue::str(cname),
                    JsValue::Json(cvalue),
                    JsValue::U64(expires_in),
                ],
            )
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn interval_set
    pub fn interval_set<F: Fn(«&mut World») + 'static>(&self«, w: &mut World», duration: u32, callback: F«, hand: Ghost<Hand>») -> «(r:» DropResource «)
        requires
            hand@ is Tick || hand@ is Once,
            forall|w: &mut World| #[trigger] call_requires(callback, (w,)),
            forall|w: &mut World| #[trigger] call_ensures(callback, (w,), ()) ==> does(hand@, *w, *final(w)),
        ensures final(w).registered@ is Some, final(w).calls@ == old(w).calls@.push(api_get_call("interval", "interval_set", seq![u32v(duration), u64v(final(w).registered@->0)])), r.back@ == (Back { call: Some(c_interval_clear(timer_of(final(w).reply@))), frees: final(w).registered@->0 }), asked(*old(w), *final(w), hand@),»
    {
        let (callback_id, drop_callback) = self.callback_store.register(move |⟦_⇒_data: JsValue, w: &mut World⟧| «-> (r: JsValue) ensures handled(hand@, _data, *old(w), *final(w), r)» {
            callback(«w»);
            JsValue::Undefined
        }«, w, hand»);

        let result = self
            .dom_access()
            .api()
            .get("interval")
            .call(
                "interval_set",
                vec![JsValue::U32(duration), JsValue::U64(callback_id.as_u64())],
            )
            .fetch(«w»);

        let timer_id = if let JsValue::I32(timer_id) = result {
            timer_id
        } else {
            0
        };

        let api = ⟦self.clone()⇒vx_api_clone(self)⟧;

        DropResource::new(«Ghost(Back { call: Some(c_interval_clear(timer_id)), frees: callback_id.0 }), »move ⟦||⇒|w: &mut World| ensures given_back(Back { call: Some(c_interval_clear(timer_id)), frees: callback_id.0 }, *old(w), *final(w))⟧ {
            api.dom_access()
                .api()
                .get("interval")
                .call("interval_clear", vec![JsValue::I32(timer_id)])
                .exec(«w»);

            drop_callback.off(«w»);
        })
    }
//@end
//@item impl ApiImport :: fn timeout_set
    pub fn timeout_set<F: Fn(«&mut World») + 'static>(&self«, w: &mut World», duration: u32, callback: F«, hand: Ghost<Hand>») -> «(r:» DropResource «)
        requires
            hand@ is Tick || hand@ is Once,
            forall|w: &mut World| #[trigger] call_requires(callback, (w,)),
            forall|w: &mut World| #[trigger] call_ensures(callback, (w,), ()) ==> does(hand@, *w, *final(w)),
        ensures final(w).registered@ is Some, final(w).calls@ == old(w).calls@.push(api_get_call("interval", "timeout_set", seq![u32v(duration), u64v(final(w).registered@->0)])), r.back@ == (Back { call: Some(c_interval_clear(timer_of(final(w).reply@))), frees: final(w).registered@->0 }), asked(*old(w), *final(w), hand@),»
    {
        let (callback_id, drop_callback) = self.callback_store.register(move |⟦_⇒_data: JsValue, w: &mut World⟧| «-> (r: JsValue) ensures handled(hand@, _data, *old(w), *final(w), r)» {
            callback(«w»);
            JsValue::Undefined
        }«, w, hand»);

        let result = self
            .dom_access()
            .api()
            .get("interval")
            .call(
                "timeout_set",
                vec![JsValue::U32(duration), JsValue::U64(callback_id.as_u64())],
            )
            .fetch(«w»);

        let timer_id = if let JsValue::I32(timer_id) = result {
            timer_id
        } else {
            0
        };

        let api = ⟦self.clone()⇒vx_api_clone(self)⟧;

        DropResource::new(«Ghost(Back { call: Some(c_interval_clear(timer_id)), frees: callback_id.0 }), »move ⟦||⇒|w: &mut World| ensures given_back(Back { call: Some(c_interval_clear(timer_id)), frees: callback_id.0 }, *old(w), *final(w))⟧ {
            api.dom_access()
                .api()
                .get("interval")
                .call("interval_clear", vec![JsValue::I32(timer_id)])
                .exec(«w»);

            drop_callback.off(«w»);
        })
    }
//@end
//@item impl ApiImport :: fn set_timeout_and_detach
    pub fn set_timeout_and_detach<F: Fn(«&mut World») + 'static>(&self«, w: &mut World», duration: u32, callback: F«, who: Ghost<int>»)
«        requires
            forall|w: &mut World| #[trigger] call_requires(callback, (w,)),
            forall|w: &mut World| #[trigger] call_ensures(callback, (w,), ()) ==> runs(who@, Heard::Nothing, *w, *final(w)),
        ensures detached(*old(w), *final(w), duration, who@),»
    {
        let drop_box⟦: Rc<ValueMut<Option<DropResource>>> = Rc::new(ValueMut::new(None))⇒ = DropBox::new(w)⟧;
«        let ghost k = drop_box.id@;»

        let callback_with_drop = {
            let drop_box = drop_box.clone();

            move |«w: &mut World»| «ensures does(Hand::Once(who@, k), *old(w), *final(w))» {
                callback(«w»);
«                let ghost m = *w;
                assert(runs(who@, Heard::Nothing, *old(w), m));»
                drop_box.set(None«, w»);
«                assert(boxed(k, None, m, *w));»
            }
        };

        let drop = self.timeout_set(«w, »duration, callback_with_drop«, Ghost(Hand::Once(who@, k))»);
«        assert(held(*w, k) is None);»
        drop_box.set(Some(drop)«, w»);
«        assert(w.boxes@ =~= old(w).boxes@.insert(k, Some(Back { call: Some(c_interval_clear(timer_of(w.reply@))), frees: w.registered@->0 })));
        assert(detached_in(*old(w), *w, duration, who@, k));»
    }
//@end
//@item impl ApiImport :: fn utc_now
    pub fn utc_now(&self«, w: &mut World») -> «(r:» i64 «)
        ensures final(w).calls@ == old(w).calls@.push(c_now()), same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .root("window")
            .get("Date")
            .call("now", vec![])
            .fetch(«w»);

        match result {
            JsValue::I64(time) => time,
            JsValue::F64(time) => ⟦time as i64⇒vx_f64_to_i64(time)⟧,
            _ => {
                self.panic_message
                    .show(⟦format!("api.utc_now -> incorrect result {result:?}")⇒vx_string()⟧);
                0_i64
            }
        }
    }
//@end
//@item impl ApiImport :: fn instant_now
    pub fn instant_now(&self«, w: &mut World») -> «(r:» InstantType «)
        ensures final(w).calls@ == old(w).calls@.push(c_now()), same(*old(w), *final(w)),»
    {
        ⟦self.utc_now() as InstantType⇒vx_to_instant(self.utc_now(w))⟧
    }
//@end
//@item impl ApiImport :: fn timezone_offset
    pub fn timezone_offset(&self«, w: &mut World») -> «(r:» i32 «)
        ensures final(w).calls@ == old(w).calls@.push(api_call("getTimezoneOffset", Seq::empty())), same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .api()
            .call("getTimezoneOffset", vec![])
            .fetch(«w»);

        if let JsValue::I32(result) = result {
            // Return in seconds to be compatible with chrono
            // Opposite as JS returns the offset backwards
            ⟦result * -60⇒vx_minutes(result)⟧
        } else {
            self.panic_message.show(⟦format!(
                "api.timezone_offset -> incorrect result {result:?}"
            )⇒vx_string()⟧);
            0
        }
    }
//@end
//@item impl ApiImport :: fn history_back
    pub fn history_back(&self«, w: &mut World»)
        «ensures final(w).calls@ == old(w).calls@.push(V::List(seq![root("window"), get("history"), call("back", Seq::empty())])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .root("window")
            .get("history")
            .call("back", Vec::new())
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn get_hash_location
    pub fn get_hash_location(&self«, w: &mut World») -> «(r:» String «)
        ensures final(w).calls@ == old(w).calls@.push(api_get_call("hashRouter", "get", Seq::empty())), final(w).reply@ is Str ==> r@ == final(w).reply@->Str_0, same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .api()
            .get("hashRouter")
            .call("get", Vec::new())
            .fetch(«w»);

        if let JsValue::String(value) = result {
            value
        } else {
            ⟦String::from("")⇒vx_string()⟧
        }
    }
//@end
//@item impl ApiImport :: fn push_hash_location
    pub fn push_hash_location(&self«, w: &mut World», new_hash: &str)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("hashRouter", "push", seq![s(new_hash)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("hashRouter")
            .call("push", vec![JsValue::str(new_hash)])
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn on_hash_change
    pub fn on_hash_change<F: Fn(String«, &mut World») + 'static>(&self«, w: &mut World», callback: F«, who: Ghost<int>») -> «(r:» DropResource «)
        requires
            forall|t: String, w: &mut World| #[trigger] call_requires(callback, (t, w)),
            forall|t: String, w: &mut World| #[trigger] call_ensures(callback, (t, w), ()) ==> runs(who@, Heard::Text(t@), *w, *final(w)),
        ensures final(w).registered@ is Some, final(w).calls@ == old(w).calls@.push(api_get_call("hashRouter", "add", seq![u64v(final(w).registered@->0)])), r.back@ == (Back { call: Some(api_get_call("hashRouter", "remove", seq![u64v(final(w).registered@->0)])), frees: final(w).registered@->0 }), asked(*old(w), *final(w), Hand::Text(who@)),»
    {
        let (callback_id, drop_callback) = self.callback_store.register(move |data«: JsValue, w: &mut World»| «-> (r: JsValue) ensures handled(Hand::Text(who@), data, *old(w), *final(w), r)» {
            let new_hash = if let JsValue::String(new_hash) = data {
                new_hash
            } else {
                ⟦String::from("")⇒vx_empty()⟧
            };

            ⟦transaction(|_| {⇒{⟧
                callback(new_hash«, w»);
            ⟦});⇒}⟧

            JsValue::Undefined
        }«, w, Ghost(Hand::Text(who@))»);

        self.dom_access()
            .api()
            .get("hashRouter")
            .call("add", vec![JsValue::U64(callback_id.as_u64())])
            .exec(«w»);

        let api = ⟦self.clone()⇒vx_api_clone(self)⟧;

        DropResource::new(«Ghost(Back { call: Some(api_get_call("hashRouter", "remove", seq![u64v(callback_id.0)])), frees: callback_id.0 }), »move ⟦||⇒|w: &mut World| ensures given_back(Back { call: Some(api_get_call("hashRouter", "remove", seq![u64v(callback_id.0)])), frees: callback_id.0 }, *old(w), *final(w))⟧ {
            api.dom_access()
                .api()
                .get("hashRouter")
                .call("remove", vec![JsValue::U64(callback_id.as_u64())])
                .exec(«w»);

            drop_callback.off(«w»);
        })
    }
//@end
//@item impl ApiImport :: fn get_history_location
    pub fn get_history_location(&self«, w: &mut World») -> «(r:» String «)
        ensures final(w).calls@ == old(w).calls@.push(api_get_call("historyLocation", "get", Seq::empty())), final(w).reply@ is Str ==> r@ == final(w).reply@->Str_0, same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .api()
            .get("historyLocation")
            .call("get", Vec::new())
            .fetch(«w»);

        if let JsValue::String(value) = result {
            value
        } else {
            ⟦String::from("")⇒vx_string()⟧
        }
    }
//@end
//@item impl ApiImport :: fn push_history_location
    pub fn push_history_location(&self«, w: &mut World», new_path: &str)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("historyLocation", "push", seq![s(new_path)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("historyLocation")
            .call("push", vec![JsValue::str(new_path)])
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn replace_history_location
    pub fn replace_history_location(&self«, w: &mut World», new_hash: &str)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("historyLocation", "replace", seq![s(new_hash)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("historyLocation")
            .call("replace", vec![JsValue::str(new_hash)])
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn on_history_change
    pub fn on_history_change<F: Fn(String«, &mut World») + 'static>(&self«, w: &mut World», callback: F«, who: Ghost<int>») -> «(r:» DropResource «)
        requires
            forall|t: String, w: &mut World| #[trigger] call_requires(callback, (t, w)),
            forall|t: String, w: &mut World| #[trigger] call_ensures(callback, (t, w), ()) ==> runs(who@, Heard::Text(t@), *w, *final(w)),
        ensures final(w).registered@ is Some, final(w).calls@ == old(w).calls@.push(api_get_call("historyLocation", "add", seq![u64v(final(w).registered@->0)])), r.back@ == (Back { call: Some(api_get_call("historyLocation", "remove", seq![u64v(final(w).registered@->0)])), frees: final(w).registered@->0 }), asked(*old(w), *final(w), Hand::Text(who@)),»
    {
        let (callback_id, drop_callback) = self.callback_store.register(move |data«: JsValue, w: &mut World»| «-> (r: JsValue) ensures handled(Hand::Text(who@), data, *old(w), *final(w), r)» {
            let new_path = if let JsValue::String(new_path) = data {
                new_path
            } else {
                ⟦String::from("")⇒vx_empty()⟧
            };

            ⟦transaction(|_| {⇒{⟧
                callback(new_path«, w»);
            ⟦});⇒}⟧

            JsValue::Undefined
        }«, w, Ghost(Hand::Text(who@))»);

        self.dom_access()
            .api()
            .get("historyLocation")
            .call("add", vec![JsValue::U64(callback_id.as_u64())])
            .exec(«w»);

        let api = ⟦self.clone()⇒vx_api_clone(self)⟧;

        DropResource::new(«Ghost(Back { call: Some(api_get_call("historyLocation", "remove", seq![u64v(callback_id.0)])), frees: callback_id.0 }), »move ⟦||⇒|w: &mut World| ensures given_back(Back { call: Some(api_get_call("historyLocation", "remove", seq![u64v(callback_id.0)])), frees: callback_id.0 }, *old(w), *final(w))⟧ {
            api.dom_access()
                .api()
                .get("historyLocation")
                .call("remove", vec![JsValue::U64(callback_id.as_u64())])
                .exec(«w»);

            drop_callback.off(«w»);
        })
    }
//@end
//@item impl ApiImport :: fn websocket_register_callback
    fn websocket_register_callback(&self«, w: &mut World», host: &str, callback_id: u64)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("websocket", "websocket_register_callback", seq![s(host), u64v(callback_id)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("websocket")
            .call(
                "websocket_register_callback",
                vec![JsValue::String(⟦host.to_string()⇒vx_to_string(host)⟧), JsValue::U64(callback_id)],
            )
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn websocket_unregister_callback
    fn websocket_unregister_callback(&self«, w: &mut World», callback_id: u64)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("websocket", "websocket_unregister_callback", seq![u64v(callback_id)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("websocket")
            .call(
                "websocket_unregister_callback",
                vec![JsValue::U64(callback_id)],
            )
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn websocket_send_message
    pub fn websocket_send_message(&self«, w: &mut World», callback_id: u64, message: &str)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("websocket", "websocket_send_message", seq![u64v(callback_id), s(message)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("websocket")
            .call(
                "websocket_send_message",
                vec![
                    JsValue::U64(callback_id),
                    JsValue::String(⟦message.to_string()⇒vx_to_string(message)⟧),
                ],
            )
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn websocket
    pub fn websocket<F: Fn(WebsocketMessage«, &mut World») + 'static>(
        &self«, w: &mut World»,
        host: ⟦impl Into<String>⇒String⟧,
        callback: F,
«        who: Ghost<int>,»
    ) -> «(r:» DropResource «)
        requires
            forall|m: WebsocketMessage, w: &mut World| #[trigger] call_requires(callback, (m, w)),
            forall|m: WebsocketMessage, w: &mut World| #[trigger] call_ensures(callback, (m, w), ()) ==> runs(who@, m.told(), *w, *final(w)),
        ensures final(w).registered@ is Some, final(w).calls@ == old(w).calls@.push(V::List(seq![api(), get("websocket"), call("websocket_register_callback", seq![V::Str(host@), u64v(final(w).registered@->0)])])), r.back@ == (Back { call: Some(api_get_call("websocket", "websocket_unregister_callback", seq![u64v(final(w).registered@->0)])), frees: final(w).registered@->0 }), asked(*old(w), *final(w), Hand::Socket(who@, final(w).registered@->0)),»
    {
        ⟦let host: String = host.into();⇒⟧

        let api = ⟦self.clone()⇒vx_api_clone(self)⟧;

        let (callback_id, drop_callback) =
            self.callback_store
                .register_with_id(move |callback_id«: CallbackId», data«: JsValue, w: &mut World»| «-> (r: JsValue) ensures handled(Hand::Socket(who@, callback_id.0), data, *old(w), *final(w), r)» {
                    if let JsValue::True = data {
                        let connection = WebsocketConnection::new(⟦api.clone()⇒vx_api_clone(&api)⟧, callback_id);
                        let connection = WebsocketMessage::Connection(connection);
                        callback(connection«, w»);
                        return JsValue::Undefined;
                    }

                    if let JsValue::String(message) = data {
                        callback(WebsocketMessage::Message(message)«, w»);
                        return JsValue::Undefined;
                    }

                    if let JsValue::False = data {
                        callback(WebsocketMessage::Close«, w»);
                        return JsValue::Undefined;
                    }
                    JsValue::Undefined
                }«, w, who»);

        self.websocket_register_callback(«w, »host.as_str(), callback_id.as_u64());

        DropResource::new(«Ghost(Back { call: Some(api_get_call("websocket", "websocket_unregister_callback", seq![u64v(callback_id.0)])), frees: callback_id.0 }), »{
            let api = ⟦self.clone()⇒vx_api_clone(self)⟧;

            move ⟦||⇒|w: &mut World| ensures given_back(Back { call: Some(api_get_call("websocket", "websocket_unregister_callback", seq![u64v(callback_id.0)])), frees: callback_id.0 }, *old(w), *final(w))⟧ {
                api.websocket_unregister_callback(«w, »callback_id.as_u64());
                drop_callback.off(«w»);
            }
        })
    }
//@end
//@item impl ApiImport :: fn dom_bulk_update
    pub fn dom_bulk_update(&self«, w: &mut World», value: JsJson)
        «ensures final(w).calls@ == old(w).calls@.push(api_get_call("dom", "dom_bulk_update", seq![jsonv(value)])), same(*old(w), *final(w)),»
    {
        self.dom_access()
            .api()
            .get("dom")
            .call("dom_bulk_update", vec![JsValue::Json(value)])
            .exec(«w»);
    }
//@end
//@item impl ApiImport :: fn dom_access
    pub fn dom_access(&self) -> «(r:» DomAccess «) ensures r.built() == Seq::<V>::empty(),»
    {
        DomAccess::new(
            self.panic_message,
            ⟦self.arguments.clone()⇒vx_arguments(&self.arguments)⟧,
            ⟦self.fn_dom_access⇒vx_host_fn(&self.fn_dom_access)⟧,
        )
    }
//@end
//@item impl ApiImport :: fn get_random
    pub fn get_random(&self«, w: &mut World», min: u32, max: u32) -> «(r:» u32 «)
        ensures final(w).calls@ == old(w).calls@.push(api_call("getRandom", seq![u32v(min), u32v(max)])), same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .api()
            .call("getRandom", vec![JsValue::U32(min), JsValue::U32(max)])
            .fetch(«w»);

        if let JsValue::I32(result) = result {
            result as u32
        } else {
            self.panic_message
                .show(⟦format!("api.get_random -> incorrect result {result:?}")⇒vx_string()⟧);
            min
        }
    }
//@end
//@item impl ApiImport :: fn is_browser
    pub fn is_browser(&self«, w: &mut World») -> «(r:» bool «)
        ensures final(w).calls@ == old(w).calls@.push(c_is_browser()), final(w).reply@ == V::Other(JsValue::True) ==> r, final(w).reply@ == V::Other(JsValue::False) ==> !r, same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .api()
            .call("isBrowser", Vec::new())
            .fetch(«w»);

        if let JsValue::True = result {
            return true;
        }

        if let JsValue::False = result {
            return false;
        }
        false
    }
//@end
//@item impl ApiImport :: fn get_env
    pub fn get_env(&self«, w: &mut World», name: String) -> «(r:» Option<String> «)
        ensures final(w).calls@ == old(w).calls@.push(c_env(name@)), final(w).reply@ is Str ==> r is Some && r->0@ == final(w).reply@->Str_0, final(w).reply@ == V::Other(JsValue::Null) ==> r is None, same(*old(w), *final(w)),»
    {
        let result = self
            .dom_access()
            .api()
            .call("get_env", vec![JsValue::String(name)])
            .fetch(«w»);

        if let JsValue::Null = result {
            return None;
        }

        if let JsValue::String(value) = result {
            return Some(value);
        }
        None
    }
//@end
//@item impl ApiImport :: fn plain_response
    pub fn plain_response(&self«, w: &mut World», body: String)
        «ensures final(w).calls@ == old(w).calls@.push(c_is_browser()) || final(w).calls@ == old(w).calls@.push(c_is_browser()).push(c_plain(body@)), final(w).calls@.len() == old(w).calls@.len() + 1 ==> final(w).reply@ != V::Other(JsValue::False), same(*old(w), *final(w)),»
    {
        if self.is_browser(«w») {
            return;
        }

        self.dom_access()
            .synthetic("plain_response", JsValue::String(body))
            .exec(«w»);
    }
//@end
#[verifier::rlimit(60)]
//@item impl ApiImport :: fn fetch
    pub fn fetch(
        &self«, w: &mut World»,
        method: FetchMethod,
        url: String,
        headers: Option<HashMap<String, String>>,
        body: Option<RequestBody>,
    ) -> «(r:» ⟦Pin<Box<dyn Future<Output = FetchResult> + 'static>>⇒FutureBox⟧ «)
        ensures
            final(w).starts@ == old(w).starts@ + 1, final(w).stops == old(w).stops, final(w).registered@ is Some,
            exists|j: JsJson| headers_of(j) == Some(match headers { Some(h) => h@, None => Map::<String, String>::empty() })
                && final(w).calls@ == #[trigger] old(w).calls@.push(c_fetch(final(w).registered@->0, method_name(method), url@, j, body_v(body))),»
    {
        «let ghost url0 = url@; let ghost body0 = body;»
        let (sender, receiver) = FutureBox::new();

        self.on_fetch_start.trigger(()«, w»);

        let on_fetch_stop = self.on_fetch_stop.clone();

        let callback_id = self.callback_store.register_once(move |params«: JsValue, w: &mut World»| «-> (o: JsValue) ensures responded(params, *old(w), *final(w)),»{
            let params = params.convert(|⟦mut params⇒params: JsValueListDecoder⟧| «-> (o: Result<(bool, u32, RequestBody), String>)
                ensures
                    o is Ok <==> is_response(V::List(vs(params.items()))),
                    o is Ok ==> response_is(o->Ok_0, vs(params.items())),»{
                «let mut params = params;»
                let success = params.get_bool("success")?;
                let status = params.get_u32("status")?;
                let response = params.get_any("response")?;
                params.expect_no_more()?;

                if let JsValue::Json(json) = response {
                    return Ok((success, status, RequestBody::Json(json)));
                }

                if let JsValue::String(text) = response {
                    return Ok((success, status, RequestBody::Text(text)));
                }

                if let JsValue::Vec(buffer) = response {
                    return Ok((success, status, RequestBody::Binary(buffer)));
                }

                let name = response.typename();
                Err(⟦format!(
                    "Expected json or string or vec<u8>, received={name}"
                )⇒vx_string()⟧)
            });

            match params {
                Ok((success, status, response)) => {
                    ⟦get_driver().transaction(|_| {⇒{⟧
                        let response = match success {
                            true => Ok((status, response)),
                            false => Err(⟦format!("{response:#?}")⇒vx_string()⟧),
                        };
                        sender.publish(response«, w»);
                        on_fetch_stop.trigger(()«, w»);
                    ⟦});⇒}⟧
                }
                Err(error) => {
                    on_fetch_stop.trigger(()«, w»);
                }
            }

            JsValue::Undefined
        }«, w»);

        «let ghost all = if headers is Some { headers->0@ } else { Map::<String, String>::empty() };»
        let headers = {
            let mut headers_builder = ⟦JsJsonObjectBuilder::default()⇒JsJsonObjectBuilder::vx_default()⟧;

            if let Some(headers) = headers {
                «let ghost h = headers@;»
                for (key, value) in «it:» ⟦headers.into_iter()⇒vx_pairs(headers)⟧
                    «invariant
                        pairs_of(h, it.seq()), added(headers_builder.entries(), it.seq(), it.index@ as int),»
                {
                    «proof { assert(it.seq()[it.index@ as int] == (key, value)); }»
                    headers_builder = headers_builder.insert(key, value);
                }
                «proof { lemma_carries(h, headers_builder.entries()); }»
            }

            «proof { assert(carries(all, headers_builder.entries())); }»
            headers_builder.get()
        };
        «proof { lemma_headers(all, headers); }»

        «let ghost hj = headers;»
        self.dom_access()
            .api()
            .get("fetch")
            .call(
                "fetch_send_request",
                vec![
                    JsValue::U64(callback_id.as_u64()),
                    JsValue::String(method.to_str()),
                    JsValue::String(url),
                    JsValue::Json(headers),
                    match body {
                        Some(RequestBody::Text(body)) => JsValue::String(body),
                        Some(RequestBody::Json(json)) => JsValue::Json(json),
                        Some(RequestBody::Binary(bin)) => JsValue::Vec(bin),
                        None => JsValue::Undefined,
                    },
                ],
            )
            .exec(«w»);

        «proof { assert(w.calls@ == old(w).calls@.push(c_fetch(w.registered@->0, method_name(method), url0, hj, body_v(body0)))); }»
        ⟦Box::pin(receiver)⇒receiver⟧
    }
//@end
}
//@include host_theorem.inc
} // verus!
fn main() {}
