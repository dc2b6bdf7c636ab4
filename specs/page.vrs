#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key};

//@include strings.inc
//@include hashing.inc

#[verifier::external_body]
fn vx_clone<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
#[verifier::external_body]
fn vx_unreachable() -> (r: !) requires false, { unreachable!() }
#[verifier::external_body]
struct JsJson { _x: u8 }
#[verifier::external_body]
struct DomCommand { _x: u8 }
// a request's body; equal exactly if the derived == says so, which hashes alike (C32: json_key)
#[verifier::external_body]
struct RequestBody { _x: u8 }
uninterp spec fn key(b: RequestBody) -> int;
spec fn body_key(b: Option<RequestBody>) -> Option<int> { match b { Some(x) => Some(key(x)), None => None } }
#[verifier::external_body]
fn vx_body_eq(a: &Option<RequestBody>, b: &Option<RequestBody>) -> (r: bool) ensures r == (body_key(*a) == body_key(*b)) { unimplemented!() }
#[verifier::external_body]
fn vx_headers_eq(a: &HashMap<String, String>, b: &HashMap<String, String>) -> (r: bool) ensures r == (a@ == b@) { a == b }
uninterp spec fn feeds_body(b: Option<int>) -> Seq<Item>;
impl Fed {
    #[verifier::external_body]
    fn body(&mut self, b: &Option<RequestBody>) ensures final(self)@ == old(self)@ + feeds_body(body_key(*b)) { unimplemented!() }
}
#[verifier::external_body]
fn vx_sort(v: &mut Vec<(&String, &String)>, Ghost(m): Ghost<Map<String, String>>)
    requires exists|names: Seq<String>| #[trigger] refs(old(v)@, names, m) && forall|k: String| m.contains_key(k) ==> names.contains(k),
    ensures refs(final(v)@, in_order(m.dom()), m),
{ v.sort(); }

// ---- requests and messages ------------------------------------------------------------------------------------------------
//@file crates/vertigo-cli/src/serve/wasm/message.rs
//@item enum Message
enum Message {
    TimeoutAndSendResponse,
    DomUpdate(JsJson),
    Panic(Option<String>),
    SetTimeoutZero {
        callback_id: u64,
    },
    FetchRequest {
        callback_id: u64,
        request: FetchRequest,
    },
    FetchResponse {
        request: Arc<FetchRequest>,
        response: FetchResponse,
    },
    PlainResponse(String),
}
//@end
//@item struct FetchRequest
struct FetchRequest {
    pub method: String,
    pub url: String,
    pub headers: HashMap<String, String>,
    pub body: Option<RequestBody>,
}
//@end
//@item struct FetchResponse
struct FetchResponse {
    pub success: bool,
    pub status: u32,
    pub body: RequestBody,
}
//@end
// two requests are the same request if these are equal
struct Req { method: String, url: String, headers: Map<String, String>, body: Option<int> }
spec fn req(r: FetchRequest) -> Req { Req { method: r.method, url: r.url, headers: r.headers@, body: body_key(r.body) } }
spec fn areq(r: Arc<FetchRequest>) -> Req { req(*r) }
spec fn feeds_headers(h: Map<String, String>, n: int) -> Seq<Item>
    decreases n,
{
    if n <= 0 { Seq::empty() } else {
        let k = in_order(h.dom())[n - 1];
        feeds_headers(h, n - 1).push(Item::Text(k@)).push(Item::Text(h[k]@))
    }
}
spec fn feeds(r: Req) -> Seq<Item> {
    seq![Item::Text(r.method@), Item::Text(r.url@)] + feeds_headers(r.headers, in_order(r.headers.dom()).len() as int) + feeds_body(r.body)
}
impl FetchRequest {
//@item impl PartialEq for FetchRequest :: fn eq
    fn eq(&self, other: &Self) -> «(r:» bool «)
        ensures r == (req(*self) == req(*other)),»
    {
        ⟦self.method == other.method⇒vx_string_eq(&self.method, &other.method)⟧
            && ⟦self.url == other.url⇒vx_string_eq(&self.url, &other.url)⟧
            && ⟦self.headers == other.headers⇒vx_headers_eq(&self.headers, &other.headers)⟧
            && ⟦self.body == other.body⇒vx_body_eq(&self.body, &other.body)⟧
    }
//@end
//@item impl Hash for FetchRequest :: fn hash
    fn hash⟦<H: std::hash::Hasher>⇒⟧(&self, state: ⟦&mut H⇒&mut Fed⟧)
«        // a function of what == compares: equal requests hash alike
        ensures final(state)@ == old(state)@ + feeds(req(*self)),»
    {
        ⟦self.method.hash(state)⇒state.string(&self.method)⟧;
        ⟦self.url.hash(state)⇒state.string(&self.url)⟧;
        let mut headers = ⟦self.headers.iter().collect::<Vec<_>>()⇒vx_entries(&self.headers)⟧;
        ⟦headers.sort();⇒vx_sort(&mut headers, Ghost(self.headers@));⟧
«        proof { assert(state@ =~= old(state)@ + (seq![Item::Text(self.method@), Item::Text(self.url@)] + feeds_headers(self.headers@, 0))); }»
        for (key, value) in «it:» headers
«            invariant
                refs(it.seq(), in_order(self.headers@.dom()), self.headers@),
                state@ =~= old(state)@ + (seq![Item::Text(self.method@), Item::Text(self.url@)] + feeds_headers(self.headers@, it.index@ as int)),»
        {
            ⟦key.hash(state)⇒state.string(key)⟧;
            ⟦value.hash(state)⇒state.string(value)⟧;
        }
        ⟦self.body.hash(state)⇒state.body(&self.body)⟧;
«        proof { assert(state@ =~= old(state)@ + feeds(req(*self))); }»
    }
//@end
}

// ---- what happens around the page: the guest, the requests sent, their responses ------------------------------------------
struct World {
    // requests sent out, and the response each will bring
    sent: Ghost<Seq<Req>>,
    due: Ghost<Map<Req, FetchResponse>>,
    // answers given to the guest: callback, the request it asked for, the response
    answers: Ghost<Seq<(u64, Req, FetchResponse)>>,
    // callbacks of the guest which were called without a value
    ticks: Ghost<Seq<u64>>,
    // when the rendering is cut short, in seconds
    limit: Ghost<Option<int>>,
    // what the guest was started with
    started: Ghost<Seq<RequestState>>,
    // the messages taken from the channel so far
    log: Ghost<Seq<Message>>,
}
#[verifier::external_body]
struct JsValue { _x: u8 }
uninterp spec fn undefined() -> JsValue;
#[verifier::external_body]
fn vx_undefined() -> (r: JsValue) ensures r == undefined() { unimplemented!() }
fn vx_is_undefined(x: JsValue) requires x == undefined() {}
impl World {
    // the guest's callbacks give nothing back (C18)
    #[verifier::external_body]
    fn wasm_callback(&mut self, callback_id: u64, params: JsValue) -> (r: JsValue)
        requires params == undefined(),
        ensures *final(self) == (World { ticks: Ghost(old(self).ticks@.push(callback_id)), ..*old(self) }), r == undefined(),
    { unimplemented!() }
    // C18: the callback receives the response
    #[verifier::external_body]
    fn send_fetch_response(&mut self, Ghost(r): Ghost<Req>, callback_id: u64, response: FetchResponse)
        ensures *final(self) == (World { answers: Ghost(old(self).answers@.push((callback_id, r, response))), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn send_request(&mut self, request: Arc<FetchRequest>) -> (r: FetchResponse)
        ensures *final(self) == (World { sent: Ghost(old(self).sent@.push(req(*request))), ..*old(self) }),
    { unimplemented!() }
    // what a task sends when it is finished
    #[verifier::external_body]
    fn finish(&mut self, m: Message)
        requires m is FetchResponse,
        ensures *final(self) == (World { due: Ghost(old(self).due@.insert(areq(m->FetchResponse_request), m->FetchResponse_response)), ..*old(self) }),
    { unimplemented!() }
}
// what was asked for in the messages taken so far
spec fn asks(log: Seq<Message>) -> Seq<(u64, Req)>
    decreases log.len(),
{
    if log.len() == 0 { Seq::empty() } else {
        match log.last() {
            Message::FetchRequest { callback_id, request } => asks(log.drop_last()).push((callback_id, req(request))),
            _ => asks(log.drop_last()),
        }
    }
}
// the responses which came
spec fn got(log: Seq<Message>) -> Map<Req, FetchResponse>
    decreases log.len(),
{
    if log.len() == 0 { Map::empty() } else {
        match log.last() {
            Message::FetchResponse { request, response } => got(log.drop_last()).insert(req(*request), response),
            _ => got(log.drop_last()),
        }
    }
}
uninterp spec fn decoded(j: JsJson) -> Option<Seq<DomCommand>>;
#[verifier::external_body]
fn dom_command_from_js_json(j: JsJson) -> (r: Result<Vec<DomCommand>, String>)
    ensures match r { Ok(l) => decoded(j) == Some(l@), Err(_) => decoded(j) is None },
{ unimplemented!() }
// the DOM commands which came
spec fn fed(log: Seq<Message>) -> Seq<DomCommand>
    decreases log.len(),
{
    if log.len() == 0 { Seq::empty() } else {
        match log.last() {
            Message::DomUpdate(j) => fed(log.drop_last()) + match decoded(j) { Some(l) => l, None => Seq::empty() },
            _ => fed(log.drop_last()),
        }
    }
}
spec fn ticks(log: Seq<Message>) -> Seq<u64>
    decreases log.len(),
{
    if log.len() == 0 { Seq::empty() } else {
        match log.last() {
            Message::SetTimeoutZero { callback_id } => ticks(log.drop_last()).push(callback_id),
            _ => ticks(log.drop_last()),
        }
    }
}
// the callbacks that asked for, or were answered about, one request
spec fn askers(s: Seq<(u64, Req)>, r: Req) -> Seq<u64>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if s.last().1 == r { askers(s.drop_last(), r).push(s.last().0) } else { askers(s.drop_last(), r) }
}
spec fn answered(s: Seq<(u64, Req, FetchResponse)>, r: Req) -> Seq<u64>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if s.last().1 == r { answered(s.drop_last(), r).push(s.last().0) } else { answered(s.drop_last(), r) }
}
// a message that can come now: a response is the one of a request that was sent, and comes once
spec fn may_come(m: Message, w: World, log: Seq<Message>) -> bool {
    m is FetchResponse ==> {
        let r = areq(m->FetchResponse_request);
        w.due@.contains_key(r) && w.due@[r] == m->FetchResponse_response && !got(log).contains_key(r)
    }
}

//@file crates/vertigo-cli/src/serve/html/html_response.rs
//@item enum FetchStatus
enum FetchStatus {
    Requested { callbacks: Vec<u64> },
    Response { response: FetchResponse },
}
//@end
impl FetchStatus {
//@item impl FetchStatus :: fn is_requested
    fn is_requested(&self) -> «(r:» bool «)
        ensures r == (*self is Requested),»
    {
        matches!(self, Self::Requested { .. })
    }
//@end
}
// HashMap<Arc<FetchRequest>, FetchStatus>: a map by what FetchRequest's == compares, since equal keys hash alike
#[verifier::external_body]
struct Fetches { _x: u8 }
impl Fetches {
    uninterp spec fn view(&self) -> Map<Req, FetchStatus>;
    #[verifier::external_body]
    fn new() -> (r: Fetches) ensures r@ == Map::<Req, FetchStatus>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &Arc<FetchRequest>) -> (r: Option<&mut FetchStatus>)
        ensures match r {
            Some(s) => old(self)@.contains_key(req(**k)) && *s == old(self)@[req(**k)] && final(self)@ == old(self)@.insert(req(**k), *final(s)),
            None => !old(self)@.contains_key(req(**k)) && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &Arc<FetchRequest>) -> (r: Option<FetchStatus>)
        ensures
            r == (if old(self)@.contains_key(req(**k)) { Some(old(self)@[req(**k)]) } else { None }),
            final(self)@ == old(self)@.remove(req(**k)),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: Arc<FetchRequest>, v: FetchStatus)
        ensures final(self)@ == old(self)@.insert(req(*k), v),
    { unimplemented!() }
    // iter()
    #[verifier::external_body]
    fn entries(&self) -> (r: Vec<(&Arc<FetchRequest>, &FetchStatus)>)
        ensures
            r@.len() < 0x1_0000_0000,
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(req(**(#[trigger] r@[i]).0)) && self@[req(**r@[i].0)] == *r@[i].1,
            forall|k: Req| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && req(**(#[trigger] r@[i]).0) == k,
    { unimplemented!() }
}
//@include page_html.inc

//@file crates/vertigo-cli/src/serve/html/html_response.rs
//@item struct HtmlResponse
struct HtmlResponse {
    sender: ⟦UnboundedSender<Message>⇒Sender⟧,
    mount_path: MountPathConfig,
    inst: ⟦WasmInstance⇒Guest⟧,
    all_elements: AllElements,
    fetch: ⟦HashMap<Arc<FetchRequest>, FetchStatus>⇒Fetches⟧,
    env: HashMap<String, String>,
}
//@end
#[verifier::external_body]
struct Sender { _x: u8 }
#[verifier::external_body]
struct Guest { _x: u8 }
spec fn waiting(f: Map<Req, FetchStatus>, r: Req) -> Seq<u64> {
    if f.contains_key(r) && f[r] is Requested { f[r]->callbacks@ } else { Seq::empty() }
}
// the page's bookkeeping after the messages of the log
spec fn inv(h: HtmlResponse, w: World, log: Seq<Message>) -> bool {
    let f = h.fetch@;
    // each request was sent once
    &&& w.sent@.no_duplicates()
    &&& forall|r: Req| #[trigger] w.sent@.contains(r) <==> f.contains_key(r)
    &&& forall|r: Req| #[trigger] f.contains_key(r) <==> w.due@.contains_key(r)
    // whoever asked was answered, in that order, or waits
    &&& forall|r: Req| #[trigger] askers(asks(log), r) == answered(w.answers@, r) + waiting(f, r)
    &&& forall|r: Req| #[trigger] askers(asks(log), r).len() > 0 <==> f.contains_key(r)
    // with the response that came
    &&& forall|r: Req| #[trigger] got(log).contains_key(r) <==> f.contains_key(r) && f[r] is Response
    &&& forall|r: Req| #[trigger] f.contains_key(r) && f[r] is Response ==> f[r]->response == got(log)[r]
    &&& forall|i: int| 0 <= i < w.answers@.len() ==> got(log).contains_key((#[trigger] w.answers@[i]).1) && w.answers@[i].2 == got(log)[w.answers@[i].1]
    &&& h.all_elements@ == fed(log)
    &&& w.ticks@ == ticks(log)
}
spec fn still(a: World, b: World) -> bool { a.limit == b.limit && a.started == b.started && a.log == b.log }
proof fn lemma_start(h: HtmlResponse, w: World)
    requires
        h.fetch@ == Map::<Req, FetchStatus>::empty(), h.all_elements@.len() == 0,
        w.sent@.len() == 0, w.answers@.len() == 0, w.ticks@.len() == 0, w.due@ == Map::<Req, FetchResponse>::empty(),
    ensures inv(h, w, Seq::empty()),
{
    assert(h.all_elements@ =~= fed(Seq::empty()));
    assert(w.ticks@ =~= ticks(Seq::empty()));
    assert forall|r: Req| #[trigger] askers(asks(Seq::empty()), r) == answered(w.answers@, r) + waiting(h.fetch@, r) by {
        assert(askers(asks(Seq::empty()), r) =~= answered(w.answers@, r) + waiting(h.fetch@, r));
    }
}
proof fn lemma_askers(s: Seq<(u64, Req)>, c: u64, q: Req)
    ensures forall|r: Req| #[trigger] askers(s.push((c, q)), r) == if r == q { askers(s, r).push(c) } else { askers(s, r) },
{
    assert(s.push((c, q)).drop_last() =~= s);
}
proof fn lemma_answered(s: Seq<(u64, Req, FetchResponse)>, c: u64, q: Req, x: FetchResponse)
    ensures forall|r: Req| #[trigger] answered(s.push((c, q, x)), r) == if r == q { answered(s, r).push(c) } else { answered(s, r) },
{
    assert(s.push((c, q, x)).drop_last() =~= s);
}
// the answers after the first n callbacks of a waiting list received theirs
spec fn given(s: Seq<(u64, Req, FetchResponse)>, cs: Seq<u64>, q: Req, x: FetchResponse, n: int) -> Seq<(u64, Req, FetchResponse)>
    decreases n,
{
    if n <= 0 { s } else { given(s, cs, q, x, n - 1).push((cs[n - 1], q, x)) }
}
proof fn lemma_given(s: Seq<(u64, Req, FetchResponse)>, cs: Seq<u64>, q: Req, x: FetchResponse, n: int)
    requires 0 <= n <= cs.len(),
    ensures
        forall|r: Req| #[trigger] answered(given(s, cs, q, x, n), r) == if r == q { answered(s, r) + cs.take(n) } else { answered(s, r) },
        given(s, cs, q, x, n).len() == s.len() + n,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] given(s, cs, q, x, n)[i] == s[i],
        forall|i: int| s.len() <= i < s.len() + n ==> (#[trigger] given(s, cs, q, x, n)[i]).1 == q && given(s, cs, q, x, n)[i].2 == x,
    decreases n,
{
    if n > 0 {
        lemma_given(s, cs, q, x, n - 1);
        lemma_answered(given(s, cs, q, x, n - 1), cs[n - 1], q, x);
        assert(cs.take(n) =~= cs.take(n - 1).push(cs[n - 1]));
        assert(answered(s, q) + cs.take(n) =~= (answered(s, q) + cs.take(n - 1)).push(cs[n - 1]));
    } else {
        assert(answered(s, q) + cs.take(n) =~= answered(s, q));
    }
}
// a callback waits for the response, joins those who do, or is answered from the cache
proof fn lemma_ask(h0: HtmlResponse, h1: HtmlResponse, w0: World, w1: World, log: Seq<Message>, m: Message)
    requires
        inv(h0, w0, log), m is FetchRequest, h1.all_elements@ == h0.all_elements@, w1.ticks@ == w0.ticks@,
        ({
            let c = m->FetchRequest_callback_id;
            let q = req(m->FetchRequest_request);
            let f = h0.fetch@;
            if !f.contains_key(q) {
                &&& waiting(h1.fetch@, q) == seq![c] && h1.fetch@.contains_key(q) && h1.fetch@[q] is Requested
                &&& h1.fetch@ == f.insert(q, h1.fetch@[q])
                &&& w1.sent@ == w0.sent@.push(q) && w1.answers@ == w0.answers@
                &&& w1.due@.contains_key(q) && w1.due@ == w0.due@.insert(q, w1.due@[q])
            } else if f[q] is Requested {
                &&& waiting(h1.fetch@, q) == waiting(f, q).push(c) && h1.fetch@.contains_key(q) && h1.fetch@[q] is Requested
                &&& h1.fetch@ == f.insert(q, h1.fetch@[q])
                &&& w1.sent@ == w0.sent@ && w1.answers@ == w0.answers@ && w1.due@ == w0.due@
            } else {
                &&& h1.fetch@ =~= f
                &&& w1.sent@ == w0.sent@ && w1.answers@ == w0.answers@.push((c, q, f[q]->response)) && w1.due@ == w0.due@
            }
        }),
    ensures inv(h1, w1, log.push(m)),
{
    let c = m->FetchRequest_callback_id;
    let q = req(m->FetchRequest_request);
    let f = h0.fetch@;
    let log2 = log.push(m);
    assert(log2.drop_last() =~= log);
    lemma_askers(asks(log), c, q);
    assert(asks(log2) == asks(log).push((c, q)));
    if f.contains_key(q) && f[q] is Response { lemma_answered(w0.answers@, c, q, f[q]->response); }
    assert forall|r: Req| #[trigger] w1.sent@.contains(r) <==> h1.fetch@.contains_key(r) by {
        assert(w0.sent@.contains(r) <==> f.contains_key(r));
        if !f.contains_key(q) {
            assert(w1.sent@.contains(r) <==> w0.sent@.contains(r) || r == q) by {
                if w0.sent@.contains(r) { let i = w0.sent@.index_of(r); assert(w1.sent@[i] == r); }
                assert(w1.sent@.last() == q);
            }
        }
    }
    assert(!f.contains_key(q) ==> !w0.sent@.contains(q));
    assert forall|r: Req| #[trigger] askers(asks(log2), r) == answered(w1.answers@, r) + waiting(h1.fetch@, r) by {
        assert(askers(asks(log), r) == answered(w0.answers@, r) + waiting(f, r));
        assert(askers(asks(log2), r) =~= answered(w1.answers@, r) + waiting(h1.fetch@, r));
    }
    assert forall|i: int| 0 <= i < w1.answers@.len() implies got(log2).contains_key((#[trigger] w1.answers@[i]).1) && w1.answers@[i].2 == got(log2)[w1.answers@[i].1] by {
        if i < w0.answers@.len() { assert(w1.answers@[i] == w0.answers@[i]); }
    }
}
proof fn lemma_response(h0: HtmlResponse, h1: HtmlResponse, w0: World, w1: World, log: Seq<Message>, m: Message)
    requires
        inv(h0, w0, log), may_come(m, w0, log), m is FetchResponse, h1.all_elements@ == h0.all_elements@, w1.ticks@ == w0.ticks@,
        w1.sent@ == w0.sent@, w1.due@ == w0.due@,
        h1.fetch@ == h0.fetch@.insert(areq(m->FetchResponse_request), FetchStatus::Response { response: m->FetchResponse_response }),
        ({
            let q = areq(m->FetchResponse_request);
            let cs = waiting(h0.fetch@, q);
            w1.answers@ == given(w0.answers@, cs, q, m->FetchResponse_response, cs.len() as int)
        }),
    ensures inv(h1, w1, log.push(m)),
{
    let q = areq(m->FetchResponse_request);
    let x = m->FetchResponse_response;
    let f = h0.fetch@;
    let cs = waiting(f, q);
    let log2 = log.push(m);
    assert(log2.drop_last() =~= log);
    assert(asks(log2) == asks(log) && got(log2) == got(log).insert(q, x));
    lemma_given(w0.answers@, cs, q, x, cs.len() as int);
    assert(cs.take(cs.len() as int) =~= cs);
    assert forall|r: Req| #[trigger] askers(asks(log2), r) == answered(w1.answers@, r) + waiting(h1.fetch@, r) by {
        assert(askers(asks(log), r) == answered(w0.answers@, r) + waiting(f, r));
        assert(askers(asks(log2), r) =~= answered(w1.answers@, r) + waiting(h1.fetch@, r));
    }
    assert forall|i: int| 0 <= i < w1.answers@.len() implies got(log2).contains_key((#[trigger] w1.answers@[i]).1) && w1.answers@[i].2 == got(log2)[w1.answers@[i].1] by {
        if i < w0.answers@.len() { assert(w1.answers@[i] == w0.answers@[i]); assert(got(log).contains_key(w0.answers@[i].1)); }
    }
    assert(w0.due@.contains_key(q) && f.contains_key(q));
}
// messages which ask for nothing and bring no response
proof fn lemma_other(h0: HtmlResponse, h1: HtmlResponse, w0: World, w1: World, log: Seq<Message>, m: Message)
    requires
        inv(h0, w0, log), !(m is FetchRequest), !(m is FetchResponse), h1.fetch@ == h0.fetch@,
        w1.sent@ == w0.sent@, w1.due@ == w0.due@, w1.answers@ == w0.answers@,
        h1.all_elements@ == fed(log.push(m)), w1.ticks@ == ticks(log.push(m)),
    ensures inv(h1, w1, log.push(m)),
{
    let log2 = log.push(m);
    assert(log2.drop_last() =~= log);
    assert(asks(log2) == asks(log) && got(log2) == got(log));
}
spec fn same_page(a: HtmlResponse, b: HtmlResponse) -> bool { a.env == b.env && a.mount_path == b.mount_path }
spec fn ends(m: Message) -> bool { m is TimeoutAndSendResponse || m is Panic || m is PlainResponse }
spec fn is_end(m: Message, log: Seq<Message>, mount: MountPathConfig, env: Map<String, String>, r: ResponseState) -> bool {
    match m {
        Message::TimeoutAndSendResponse => is_page(fed(log), mount, env, r),
        Message::Panic(Some(t)) => is_error(r) && r.body == t,
        Message::Panic(None) => is_error(r) && r.body@ == "panic message decoding problem"@,
        Message::PlainResponse(t) => r.status == StatusCode::OK && r.content_type == ContentType::Plain && r.body == t,
        _ => false,
    }
}
impl HtmlResponse {
//@item impl HtmlResponse :: fn new
    pub fn new(
        sender: ⟦UnboundedSender<Message>⇒Sender⟧,
        mount_path: &MountPathConfig,
        inst: ⟦WasmInstance⇒Guest⟧,
        env: HashMap<String, String>,
    ) -> «(r:» Self «)
        ensures
            r.mount_path == *mount_path, r.env == env,
            r.fetch@ == Map::<Req, FetchStatus>::empty(), r.all_elements@.len() == 0,»
    {
        Self {
            sender,
            mount_path: ⟦mount_path.clone()⇒vx_clone(mount_path)⟧,
            inst,
            all_elements: AllElements::new(),
            fetch: ⟦HashMap⇒Fetches⟧::new(),
            env,
        }
    }
//@end
//@item impl HtmlResponse :: fn feed
    pub fn feed(&mut self, commands: Vec<DomCommand>)
«        ensures
            final(self).all_elements@ == old(self).all_elements@ + commands@, final(self).fetch == old(self).fetch,
            same_page(*final(self), *old(self)),»
    {
        self.all_elements.feed(commands);
    }
//@end
//@item impl HtmlResponse :: fn waiting_request
    pub fn waiting_request(&self) -> «(r:» u32 «)
        ensures r == 0 <==> forall|k: Req| #[trigger] self.fetch@.contains_key(k) ==> !(self.fetch@[k] is Requested),»
    {
        let mut count = 0;

«        let ghost es: Seq<(&Arc<FetchRequest>, &FetchStatus)> = Seq::empty();»
        for (_, state) in «it:» ⟦self.fetch.iter()⇒self.fetch.entries()⟧
«            invariant
                it.seq().len() < 0x1_0000_0000, count <= it.index@,
                count == 0 <==> forall|i: int| 0 <= i < it.index@ ==> !(*(#[trigger] it.seq()[i]).1 is Requested),
                forall|i: int| 0 <= i < it.seq().len() ==> self.fetch@.contains_key(req(**(#[trigger] it.seq()[i]).0)) && self.fetch@[req(**it.seq()[i].0)] == *it.seq()[i].1,
                forall|k: Req| #[trigger] self.fetch@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && req(**(#[trigger] it.seq()[i]).0) == k,»
        {
            if state.is_requested() {
                count += 1;
            }
        }

        count
    }
//@end
//@item impl HtmlResponse :: fn process_message
    pub fn process_message(&mut self, message: Message«, w: &mut World, Ghost(log): Ghost<Seq<Message>>») -> «(r:» Option<ResponseState> «)
        requires inv(*old(self), *old(w), log), may_come(message, *old(w), log),
        ensures
            inv(*final(self), *final(w), log.push(message)), same_page(*final(self), *old(self)), still(*final(w), *old(w)),
            r is Some <==> ends(message),
            r is Some ==> is_end(message, log.push(message), old(self).mount_path, old(self).env@, r->0),»
    {
«        let ghost log2 = log.push(message);
        let ghost m0 = message;
        let ghost h0 = *self;
        let ghost w0 = *w;
        proof { assert(log2.drop_last() =~= log); if !(m0 is FetchRequest) && !(m0 is FetchResponse) && !(m0 is DomUpdate) && !(m0 is SetTimeoutZero) { lemma_other(h0, h0, w0, w0, log, m0); } }»
        match message {
            Message::TimeoutAndSendResponse => {
                Some(self.build_response())
            }
            Message::DomUpdate(update) => {
                match dom_command_from_js_json(update) {
                    Ok(commands) => {
                        self.feed(commands);
                    }
                    Err(message) => {
                    }
                }
«                proof { assert(self.all_elements@ =~= fed(log2)); lemma_other(h0, *self, w0, *w, log, m0); }»

                None
            }
            Message::Panic(message) => {
                let message =
                    message.unwrap_or_else(|| «-> (t: String) ensures t@ == "panic message decoding problem"@ { »⟦"panic message decoding problem".to_string()⇒vx_text("panic message decoding problem")⟧« }»);
                Some(ResponseState::internal_error(message))
            }
            Message::SetTimeoutZero { callback_id } => {
                let result = ⟦self.inst.wasm_callback⇒w.wasm_callback⟧(callback_id, ⟦JsValue::Undefined⇒vx_undefined()⟧);
                ⟦assert_eq!(result, JsValue::Undefined)⇒vx_is_undefined(result)⟧;
«                proof { lemma_other(h0, *self, w0, *w, log, m0); }»
                None
            }
            Message::FetchRequest {
                callback_id,
                request,
            } => {
                let request = Arc::new(request);
«                let ghost rq = areq(request);»

                if let Some(value) = self.fetch.get_mut(&request) {
                    match value {
                        FetchStatus::Requested { callbacks } => {
                            callbacks.push(callback_id);
                        }
                        FetchStatus::Response { response } => {
                            ⟦self.inst.send_fetch_response(⇒w.send_fetch_response(Ghost(rq), ⟧callback_id, ⟦response.clone()⇒vx_clone(response)⟧);
                        }
                    }
                } else {
                    ⟦tokio::spawn(⇒⟧{
                        let request = ⟦request.clone()⇒vx_clone(&request)⟧;
                        let sender = ⟦self.sender.clone()⇒vx_clone(&self.sender)⟧;

                        ⟦async move⇒⟧ {
                            let response = ⟦send_request(request.clone()).await⇒w.send_request(vx_clone(&request))⟧;

                            ⟦sender
                                .send(⇒w.finish(⟧Message::FetchResponse { request, response })
                                ⟦.unwrap()⇒⟧;
                        }
                    }⟦)⇒⟧;

                    self.fetch.insert(
                        request,
                        FetchStatus::Requested {
                            callbacks: vec![callback_id],
                        },
                    );
                }
«                proof {
                    let f1 = self.fetch@;
                    if !h0.fetch@.contains_key(rq) {
                        assert(waiting(f1, rq) =~= seq![callback_id]);
                        assert(w.due@ =~= w0.due@.insert(rq, w.due@[rq]));
                        assert(f1 =~= h0.fetch@.insert(rq, f1[rq]));
                    } else if h0.fetch@[rq] is Requested {
                        assert(f1 =~= h0.fetch@.insert(rq, f1[rq]));
                        assert(waiting(f1, rq) =~= waiting(h0.fetch@, rq).push(callback_id));
                    } else {
                        assert(f1 =~= h0.fetch@);
                    }
                }
                proof { lemma_ask(h0, *self, w0, *w, log, m0); }»
                None
            }

            Message::FetchResponse { request, response } => {
«                let ghost rq = areq(request);»
                let state = self.fetch.remove(&request);

                let new_state = match state {
                    Some(state) => match state {
                        FetchStatus::Requested { callbacks } => {
                            for callback_id in «it:» callbacks
«                                invariant
                                    it.seq() == waiting(h0.fetch@, rq),
                                    w.answers@ == given(w0.answers@, it.seq(), rq, response, it.index@ as int),
                                    w.sent == w0.sent, w.due == w0.due, w.ticks == w0.ticks, still(*w, w0),»
                            {
                                ⟦self.inst.send_fetch_response(⇒w.send_fetch_response(Ghost(rq), ⟧callback_id, ⟦response.clone()⇒vx_clone(&response)⟧);
                            }
                            FetchStatus::Response { response }
                        }
                        FetchStatus::Response { .. } => {
                            ⟦unreachable!()⇒vx_unreachable()⟧;
                        }
                    },
                    None => FetchStatus::Response { response },
                };

                self.fetch.insert(request, new_state);
«                proof { assert(self.fetch@ =~= h0.fetch@.insert(rq, FetchStatus::Response { response: m0->FetchResponse_response })); lemma_response(h0, *self, w0, *w, log, m0); }»

                None
            }

            Message::PlainResponse(body) => Some(ResponseState::plain(body)),
        }
    }
//@end
}

// ---- one request to the server -----------------------------------------------------------------------------------------------
//@file crates/vertigo-cli/src/serve/request_state.rs
//@item struct RequestState
struct RequestState {
    pub url: String,
    pub env: HashMap<String, String>,
}
//@end
#[verifier::external_body]
struct Engine { _x: u8 }
#[verifier::external_body]
struct Module { _x: u8 }
// both ends of the channel; the guest and the tasks hold clones of the sender
#[verifier::external_body]
struct Receiver { _x: u8 }
enum TryRecvError { Empty, Disconnected }
#[verifier::external_body]
fn unbounded_channel(Ghost(w): Ghost<World>) -> (r: (Sender, Receiver)) { unimplemented!() }
impl Sender {
    #[verifier::external_body]
    fn clone(&self) -> (r: Sender) { unimplemented!() }
    #[verifier::external_body]
    fn send(&self, m: Message) -> (r: Result<(), Message>) { unimplemented!() }
}
impl Receiver {
    // a response only comes from the task which fetched it, once (finish); a sender is still held
    #[verifier::external_body]
    fn try_recv(&mut self, w: &mut World) -> (r: Result<Message, TryRecvError>)
        ensures match r {
            Ok(m) => may_come(m, *old(w), old(w).log@) && *final(w) == (World { log: Ghost(old(w).log@.push(m)), ..*old(w) }),
            Err(e) => e is Empty && *final(w) == *old(w),
        },
    { unimplemented!() }
    // recv().await
    #[verifier::external_body]
    fn recv(&mut self, w: &mut World) -> (r: Option<Message>)
        ensures match r {
            Some(m) => may_come(m, *old(w), old(w).log@) && *final(w) == (World { log: Ghost(old(w).log@.push(m)), ..*old(w) }),
            None => *final(w) == *old(w),
        },
    { unimplemented!() }
}
impl Guest {
    uninterp spec fn asked(&self) -> RequestState;
    #[verifier::external_body]
    fn new(sender: Sender, engine: &Engine, module: &Module, request: RequestState) -> (r: Guest) ensures r.asked() == request { unimplemented!() }
    // runs the guest up to the end of its first turn
    #[verifier::external_body]
    fn call_vertigo_entry_function(&mut self, w: &mut World)
        ensures
            final(self).asked() == old(self).asked(),
            *final(w) == (World { started: Ghost(old(w).started@.push(old(self).asked())), ..*old(w) }),
    { unimplemented!() }
}
// a task that is stopped when its owner is dropped
#[verifier::external_body]
struct SpawnOwner { _x: u8 }
impl SpawnOwner {
    #[verifier::external_body]
    fn new(future: ()) -> (r: SpawnOwner) { unimplemented!() }
    #[verifier::external_body]
    fn off(self) { unimplemented!() }
}
struct Duration { secs: u64 }
impl Duration {
    fn from_secs(s: u64) -> (r: Duration) ensures r.secs == s { Duration { secs: s } }
}
// tokio::time::sleep, before the message which cuts the rendering short
#[verifier::external_body]
fn vx_sleep(d: Duration, w: &mut World)
    ensures *final(w) == (World { limit: Ghost(Some(d.secs as int)), ..*old(w) }),
{ unimplemented!() }
//@file crates/vertigo-cli/src/serve/server_state.rs
//@item struct ServerState
struct ServerState {
    engine: Engine,
    module: Module,
    pub mount_path: MountPathConfig,
    pub port_watch: Option<u16>,
    pub env: HashMap<String, String>,
}
//@end
spec fn idle(w: World) -> bool {
    &&& w.sent@.len() == 0 && w.answers@.len() == 0 && w.ticks@.len() == 0 && w.due@ == Map::<Req, FetchResponse>::empty()
    &&& w.limit@ is None && w.started@.len() == 0 && w.log@.len() == 0
}
spec fn none_ends(log: Seq<Message>) -> bool { forall|i: int| 0 <= i < log.len() ==> !ends(#[trigger] log[i]) }
// nobody waits for a response
spec fn settled(h: HtmlResponse) -> bool { forall|k: Req| #[trigger] h.fetch@.contains_key(k) ==> !(h.fetch@[k] is Requested) }
// the guest was started once, on this url
spec fn started_on(w: World, url: Seq<char>, env: Map<String, String>) -> bool {
    w.started@.len() == 1 && w.started@[0].url@ == url && w.started@[0].env@ == env
}
// the answer is the one the message that ended the rendering calls for, or the page when all was done
spec fn answer(s: ServerState, w: World, h: HtmlResponse, r: ResponseState) -> bool {
    let log = w.log@;
    &&& inv(h, w, log)
    &&& if none_ends(log) {
        settled(h) && is_page(fed(log), s.mount_path, s.env@, r)
    } else {
        log.len() > 0 && none_ends(log.drop_last()) && is_end(log.last(), log, s.mount_path, s.env@, r)
    }
}
// Once nobody waits: exactly the requests that were asked for were sent, each once; each callback which asked was answered
// once, in the order of asking, with the response that came for its request.
proof fn theorem_settled(h: HtmlResponse, w: World)
    requires inv(h, w, w.log@), settled(h),
    ensures
        w.sent@.no_duplicates(),
        forall|r: Req| #[trigger] w.sent@.contains(r) <==> askers(asks(w.log@), r).len() > 0,
        forall|r: Req| #[trigger] answered(w.answers@, r) == askers(asks(w.log@), r),
        forall|i: int| 0 <= i < w.answers@.len() ==> got(w.log@).contains_key((#[trigger] w.answers@[i]).1) && w.answers@[i].2 == got(w.log@)[w.answers@[i].1],
{
    let log = w.log@;
    assert forall|r: Req| #[trigger] answered(w.answers@, r) == askers(asks(log), r) by {
        assert(askers(asks(log), r) == answered(w.answers@, r) + waiting(h.fetch@, r));
        assert(waiting(h.fetch@, r) =~= Seq::empty());
        assert(answered(w.answers@, r) + Seq::<u64>::empty() =~= answered(w.answers@, r));
    }
    assert forall|r: Req| #[trigger] w.sent@.contains(r) <==> askers(asks(log), r).len() > 0 by {
        assert(w.sent@.contains(r) <==> h.fetch@.contains_key(r));
    }
}
impl ServerState {
//@item impl ServerState :: fn request
«    #[verifier::exec_allows_no_decreases_clause]»
    pub ⟦async fn⇒fn⟧ request(&self, url: &str«, w: &mut World») -> «(r:» ResponseState «)
        requires idle(*old(w)),
        ensures
            started_on(*final(w), url@, self.env@), final(w).limit@ == Some(10int),
            exists|h: HtmlResponse| #[trigger] answer(*self, *final(w), h, r),»
    {
        let (sender, mut receiver) = unbounded_channel⟦::<Message>()⇒(Ghost(*w))⟧;

        let request = RequestState {
            url: ⟦url.to_string()⇒vx_text(url)⟧,
            env: ⟦self.env.clone()⇒vx_clone(&self.env)⟧,
        };

        let mut inst = ⟦WasmInstance⇒Guest⟧::new(sender.clone(), &self.engine, &self.module, request);

        inst.call_vertigo_entry_function(⟦)⇒w)⟧;

        let spawn_resource = SpawnOwner::new({
            let sender = sender.clone();

            ⟦async move⇒⟧ {
                ⟦tokio::time::sleep(std::time::Duration⇒vx_sleep(Duration⟧::from_secs(10⟦)).await⇒), w)⟧;
                let _ = sender.send(Message::TimeoutAndSendResponse);
            }
        });

        let mut html_response =
            HtmlResponse::new(sender.clone(), &self.mount_path, inst, ⟦self.env.clone()⇒vx_clone(&self.env)⟧);
«        proof { lemma_start(html_response, *w); assert(w.log@ =~= Seq::empty()); }»

        loop
«            invariant_except_break
                true,
            invariant
                inv(html_response, *w, w.log@), none_ends(w.log@),
                started_on(*w, url@, self.env@), w.limit@ == Some(10int),
                html_response.mount_path == self.mount_path, html_response.env@ == self.env@,
            ensures
                settled(html_response),»
        {
«            let ghost w1 = *w;»
            let message = receiver.try_recv(⟦)⇒w)⟧;

            match message {
                Ok(message) => {
«                    let ghost log = w1.log@;
                    proof { assert(inv(html_response, *w, log)); assert(w.log@.drop_last() =~= log); }»
                    if let Some(response) = html_response.process_message(message«, w, Ghost(log)») {
«                        proof { assert(ends(w.log@.last())); assert(answer(*self, *w, html_response, response)); }»
                        return response;
                    };
                    continue;
                }
                Err(TryRecvError::Empty) => {
                }
                Err(TryRecvError::Disconnected) => {
                    break;
                }
            }

            if html_response.waiting_request() == 0 {
                break;
            } else {
«                let ghost w1 = *w;»
                let message = receiver.recv(⟦).await⇒w)⟧;
                if let Some(message) = message {
«                    let ghost log = w1.log@;
                    proof { assert(inv(html_response, *w, log)); assert(w.log@.drop_last() =~= log); }»
                    if let Some(response) = html_response.process_message(message«, w, Ghost(log)») {
«                        proof { assert(ends(w.log@.last())); assert(answer(*self, *w, html_response, response)); }»
                        return response;
                    };
                }
            }
        }

        spawn_resource.off();
⟦        html_response.build_response()⇒let response = html_response.build_response(); proof { assert(answer(*self, *w, html_response, response)); } response⟧
    }
//@end
}
} // verus!
fn main() {}
