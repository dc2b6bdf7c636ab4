#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use vstd::std_specs::cmp::PartialEqSpec;
use std::rc::Rc;

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key};

//@include strings.inc

// ---- trusted: clones are equal, time, texts ----------------------------------------------------------------------------
#[verifier::external_body]
fn vx_clone<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
#[derive(Clone, Copy)]
struct Duration { ms: Ghost<int> }
#[verifier::external_body]
fn vx_from_secs(n: u64) -> (r: Duration) ensures r.ms@ == n * 1000 { unimplemented!() }
// self.instant + time.as_millis() as u64, with times below 2^64 milliseconds
#[verifier::external_body]
fn vx_later(t: u64, d: Duration) -> (r: u64) ensures r == t + d.ms@ { unimplemented!() }
uninterp spec fn unhandled(status: u32) -> String;
#[verifier::external_body]
fn vx_unhandled(status: u32) -> (r: String) ensures r == unhandled(status) { format!("Unhandled response code {status}") }
#[verifier::external_body]
pub struct JsJson { _x: u8 }
// reading a value out of JSON (C21), and giving it as JSON
uninterp spec fn reads_as<T>(j: JsJson) -> Result<T, String>;
uninterp spec fn json_of<T>(x: T) -> JsJson;
#[verifier::external_body]
fn from_json<T>(j: JsJson) -> (r: Result<T, String>) ensures r == reads_as::<T>(j) { unimplemented!() }
#[verifier::external_body]
fn vx_to_json<T>(x: T) -> (r: JsJson) ensures r == json_of(x) { unimplemented!() }
//@file crates/vertigo/src/fetch/request_builder.rs
//@item enum RequestBody
pub enum RequestBody {
    Text(String),
    Json(JsJson),
    Binary(Vec<u8>),
}
//@end
impl RequestBody {
//@item impl RequestBody :: fn into
    pub fn into<⟦T: JsJsonDeserialize⇒T⟧>(self) -> «(r:» Result<T, String> «)
        ensures match self { RequestBody::Json(j) => r == reads_as::<T>(j), _ => r is Err },»
    {
        match self {
            RequestBody::Json(json) => match from_json::<T>(json) {
                Ok(data) => Ok(data),
                Err(err) => Err(err),
            },
            RequestBody::Text(_) => {
                Err(⟦"FetchBody.into() - expected json, received text".to_string()⇒vx_owned("")⟧)
            }
            RequestBody::Binary(_) => {
                Err(⟦"FetchBody.into() - expected json, received binary".to_string()⇒vx_owned("")⟧)
            }
        }
    }
//@end
}
#[verifier::external_body]
struct ApiImport { _x: u8 }
#[verifier::external_body]
struct Context { _x: u8 }

//@file crates/vertigo/src/fetch/resource.rs
//@item enum Resource
pub enum Resource<T> {
    Loading,
    Ready(T),
    Error(String),
}
//@end
spec fn same_resource<T: PartialEq>(a: Resource<T>, b: Resource<T>) -> bool {
    match (a, b) {
        (Resource::Loading, Resource::Loading) => true,
        (Resource::Error(x), Resource::Error(y)) => x == y,
        (Resource::Ready(x), Resource::Ready(y)) => x.eq_spec(&y),
        _ => false,
    }
}
pub enum ControlFlow<B, C> { Continue(C), Break(B) }
//@item enum ResourceError
pub enum ResourceError {
    Loading,
    Error(String),
}
//@end
impl<T> Resource<T> {
    // a readable form of the result; the text of an error and the value stay
//@item impl Resource :: fn map
    pub fn map<K«, F: Fn(T) -> K»>(self, map: ⟦impl Fn(T) -> K⇒F⟧) -> «(r:» Resource<K> «)
        requires self is Ready ==> call_requires(map, (self->Ready_0,)),
        ensures match self {
            Resource::Loading => r is Loading,
            Resource::Ready(x) => r is Ready && call_ensures(map, (x,), r->Ready_0),
            Resource::Error(m) => r == Resource::<K>::Error(m),
        },»
    {
        match self {
            Resource::Loading => Resource::Loading,
            Resource::Ready(data) => Resource::Ready(map(data)),
            Resource::Error(err) => Resource::Error(err),
        }
    }
//@end
//@item impl Resource :: fn ref_map
    pub fn ref_map<K«, F: Fn(&T) -> K»>(&self, map: ⟦impl Fn(&T) -> K⇒F⟧) -> «(r:» Resource<K> «)
        requires *self is Ready ==> call_requires(map, (&self->Ready_0,)),
        ensures match *self {
            Resource::Loading => r is Loading,
            Resource::Ready(x) => r is Ready && call_ensures(map, (&x,), r->Ready_0),
            Resource::Error(m) => r == Resource::<K>::Error(m),
        },»
    {
        match self {
            Resource::Loading => Resource::Loading,
            Resource::Ready(data) => Resource::Ready(map(data)),
            Resource::Error(err) => Resource::Error(⟦err.clone()⇒vx_clone(err)⟧),
        }
    }
//@end
//@item impl Resource :: fn ref_clone
    pub fn ref_clone(&self) -> «(r:» Self «)
        ensures r == *self,»
    {
        match self {
            Resource::Loading => Resource::Loading,
            Resource::Ready(data) => Resource::Ready(⟦data.clone()⇒vx_clone(data)⟧),
            Resource::Error(error) => Resource::Error(⟦error.clone()⇒vx_clone(error)⟧),
        }
    }
//@end
    // x? gives the value, or leaves with the same loading or error
//@item impl Try for Resource :: fn from_output
    fn from_output(output: ⟦Self::Output⇒T⟧) -> «(r:» Self «)
        ensures r == Resource::Ready(output),»
    {
        Resource::Ready(output)
    }
//@end
//@item impl Try for Resource :: fn branch
    fn branch(self) -> «(r:» ControlFlow<ResourceError, ⟦Self::Output⇒T⟧> «)
        ensures match self {
            Resource::Loading => r is Break && r->Break_0 is Loading,
            Resource::Ready(x) => r == ControlFlow::<ResourceError, T>::Continue(x),
            Resource::Error(m) => r == ControlFlow::<ResourceError, T>::Break(ResourceError::Error(m)),
        },»
    {
        match self {
            Self::Loading => ControlFlow::Break(ResourceError::Loading),
            Self::Error(message) => ControlFlow::Break(ResourceError::Error(message)),
            Self::Ready(value) => ControlFlow::Continue(value),
        }
    }
//@end
//@item impl FromResidual for Resource :: fn from_residual
    fn from_residual(residual: ResourceError) -> «(r:» Resource<T> «)
        ensures r == match residual { ResourceError::Loading => Resource::<T>::Loading, ResourceError::Error(m) => Resource::<T>::Error(m) },»
    {
        match residual {
            ResourceError::Error(message) => Resource::Error(message),
            ResourceError::Loading => Resource::Loading,
        }
    }
//@end
}
impl<T: PartialEq> Resource<T> {
    // what tells a watcher that there is something new
//@item impl PartialEq for Resource :: fn eq
    fn eq(&self, other: &Self) -> «(r:» bool «)
        ensures T::obeys_eq_spec() ==> r == same_resource(*self, *other),»
    {
        match (self, other) {
            (Resource::Loading, Resource::Loading) => true,
            (Resource::Error(message1), Resource::Error(message2)) => ⟦message1.eq(message2)⇒vx_string_eq(message1, message2)⟧,
            (Resource::Ready(val1), Resource::Ready(val2)) => val1.eq(val2),
            _ => false,
        }
    }
//@end
}
//@file crates/vertigo/src/instant.rs
//@item struct Instant
pub struct Instant {
    api: ApiImport,
    pub instant: ⟦InstantType⇒u64⟧,
}
//@end

// ---- the world of one cache ---------------------------------------------------------------------------------------------
// A request as it is sent.
struct Request { method: FetchMethod, url: String, headers: Option<HashMap<String, String>>, body: Option<RequestBody> }
// The shared state behind all clones of the cache, the host and its clock.  The clock advances at the points where an update
// waits: between being started and being run, and between sending the request and the answer.
struct World<T> {
    value_id: Ghost<int>,
    queued_id: Ghost<int>,
    // the result that readers see, and the mark that an update is under way
    value: Ghost<ApiResponse<T>>,
    queued: Ghost<bool>,
    // requests sent and not yet answered, requests sent so far, fetch events begun and not ended
    flight: Ghost<bool>,
    sent: Ghost<nat>,
    started: Ghost<int>,
    now: Ghost<int>,
    // when the last update began to run: result and clock; when its request was sent: the result; the request and its answer
    run_value: Ghost<ApiResponse<T>>,
    run_now: Ghost<int>,
    kept: Ghost<ApiResponse<T>>,
    request: Ghost<Request>,
    answer: Ghost<Result<(u32, RequestBody), String>>,
}
// What reads, forced updates, updates and forgets may do while an update is under way (theorem_others): nothing, or drop the
// result.
spec fn others<T>(a: World<T>, b: World<T>) -> bool {
    &&& b.value_id == a.value_id && b.queued_id == a.queued_id
    &&& b.queued == a.queued && b.flight == a.flight && b.sent == a.sent && b.started == a.started
    &&& b.now@ >= a.now@
    &&& b.value == a.value || b.value@ is Uninitialized
}
#[derive(Clone, Copy)]
struct Shared { id: Ghost<int> }
impl<T> World<T> {
    spec fn of(self, c: LazyCache<T>) -> bool { c.value.id == self.value_id && c.queued.id == self.queued_id }
    // value.get(context): reading registers the dependency (C10)
    #[verifier::external_body]
    fn value(&self, v: &Shared) -> (r: ApiResponse<T>)
        requires v.id == self.value_id,
        ensures r == self.value@,
    { unimplemented!() }
    #[verifier::external_body]
    fn set_value(&mut self, v: &Shared, x: ApiResponse<T>)
        requires v.id == old(self).value_id,
        ensures *final(self) == (World { value: Ghost(x), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn queued(&self, q: &Shared) -> (r: bool)
        requires q.id == self.queued_id,
        ensures r == self.queued@,
    { unimplemented!() }
    #[verifier::external_body]
    fn set_queued(&mut self, q: &Shared, x: bool)
        requires q.id == old(self).queued_id,
        ensures *final(self) == (World { queued: Ghost(x), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn instant_now(&self) -> (r: u64)
        ensures r == self.now@,
    { unimplemented!() }
    #[verifier::external_body]
    fn now(&self) -> (r: Instant)
        ensures r.instant == self.now@,
    { unimplemented!() }
    #[verifier::external_body]
    fn fetch_start(&mut self)
        ensures *final(self) == (World { started: Ghost(old(self).started@ + 1), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn fetch_stop(&mut self)
        ensures *final(self) == (World { started: Ghost(old(self).started@ - 1), ..*old(self) }),
    { unimplemented!() }
    // spawn: the future is run later
    #[verifier::external_body]
    fn spawn(&mut self)
        requires old(self).queued@,
        ensures
            others(*old(self), *final(self)),
            final(self).run_value == final(self).value,
            final(self).run_now == final(self).now,
    { unimplemented!() }
    // api.fetch(..).await: at most one request of the cache is unanswered
    #[verifier::external_body]
    fn fetch(&mut self, method: FetchMethod, url: String, headers: Option<HashMap<String, String>>, body: Option<RequestBody>) -> (r: Result<(u32, RequestBody), String>)
        requires old(self).queued@, !old(self).flight@,
        ensures
            others(World { sent: Ghost(old(self).sent@ + 1), ..*old(self) }, *final(self)),
            final(self).run_value == old(self).run_value,
            final(self).run_now == old(self).run_now,
            final(self).kept == old(self).value,
            final(self).request@ == (Request { method, url, headers, body }),
            final(self).answer@ == r,
    { unimplemented!() }
}
// the function that makes a result of an answer
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Mapper<T> { _x: core::marker::PhantomData<T> }
uninterp spec fn makes<T>(m: Mapper<T>, status: u32, body: RequestBody, o: Option<Result<T, String>>) -> bool;
#[verifier::external_body]
fn vx_as_fn<T>(m: &Mapper<T>) -> (f: impl Fn(u32, RequestBody) -> Option<Result<T, String>>)
    ensures
        forall|s: u32, b: RequestBody| #[trigger] call_requires(f, (s, b)),
        forall|s: u32, b: RequestBody, o: Option<Result<T, String>>| #[trigger] call_ensures(f, (s, b), o) ==> makes(*m, s, b, o),
{ |s: u32, b: RequestBody| -> Option<Result<T, String>> { unimplemented!() } }

impl Instant {
//@item impl Instant :: fn add_duration
    pub fn add_duration(&self, time: Duration) -> «(r:» Self «)
        ensures r.instant == self.instant + time.ms@,»
    {
        let new_instant = ⟦self.instant + time.as_millis() as u64⇒vx_later(self.instant, time)⟧;

        Self {
            api: ⟦self.api.clone()⇒vx_clone(&self.api)⟧,
            instant: new_instant,
        }
    }
//@end
//@item impl Instant :: fn is_expire
    pub fn is_expire«<T>»(&self«, w: &World<T>») -> «(r:» bool «)
        ensures r == (w.now@ > self.instant),»
    {
        ⟦self.api.instant_now()⇒w.instant_now()⟧ > self.instant
    }
//@end
}

//@file crates/vertigo/src/fetch/lazy_cache.rs
//@item enum ApiResponse
enum ApiResponse<T> {
    Uninitialized,
    Data {
        value: Resource<Rc<T>>,
        expiry: Option<Instant>,
    },
}
//@end
// what readers see
spec fn shown<T>(a: ApiResponse<T>) -> Resource<Rc<T>> {
    match a { ApiResponse::Uninitialized => Resource::Loading, ApiResponse::Data { value, .. } => value }
}
// there is no result, or it has expired
spec fn stale<T>(a: ApiResponse<T>, now: int) -> bool {
    match a {
        ApiResponse::Uninitialized => true,
        ApiResponse::Data { expiry, .. } => expiry is Some && now > expiry->0.instant,
    }
}
impl<T> ApiResponse<T> {
//@item impl ApiResponse :: fn new
    pub fn new(value: Resource<Rc<T>>, expiry: Option<Instant>) -> «(r:» Self «)
        ensures r == (ApiResponse::Data { value, expiry }),»
    {
        Self::Data { value, expiry }
    }
//@end
//@item impl ApiResponse :: fn new_loading
    pub fn new_loading() -> «(r:» Self «)
        ensures r == (ApiResponse::<T>::Data { value: Resource::Loading, expiry: None }),»
    {
        ApiResponse::Data {
            value: Resource::Loading,
            expiry: None,
        }
    }
//@end
//@item impl ApiResponse :: fn get_value
    pub fn get_value(&self) -> «(r:» Resource<Rc<T>> «)
        ensures r == shown(*self),»
    {
        match self {
            Self::Uninitialized => Resource::Loading,
            Self::Data { value, expiry: _ } => ⟦value.clone()⇒vx_clone(value)⟧,
        }
    }
//@end
//@item impl ApiResponse :: fn needs_update
    pub fn needs_update(&self«, w: &World<T>») -> «(r:» bool «)
        ensures r == stale(*self, w.now@),»
    {
        match self {
            ApiResponse::Uninitialized => true,
            ApiResponse::Data { value: _, expiry } => {
                let Some(expiry) = expiry else {
                    return false;
                };

                expiry.is_expire(«w»)
            }
        }
    }
//@end
}

//@file crates/vertigo/src/fetch/request_builder.rs
//@item struct RequestBuilder
pub struct RequestBuilder {
    method: FetchMethod,
    url: String,
    headers: HashMap<String, String>,
    body: Option<RequestBody>,
    ttl: Option<Duration>,
}
//@end
//@item struct RequestResponse
pub struct RequestResponse {
    method: FetchMethod,
    url: String,
    data: Result<(u32, RequestBody), String>,
}
//@end
//@file crates/vertigo/src/driver_module/driver.rs
//@item enum FetchMethod
pub enum FetchMethod {
    GET,
    HEAD,
    POST,
    PUT,
    DELETE,
    CONNECT,
    OPTIONS,
    TRACE,
    PATCH,
}
//@end
impl Clone for FetchMethod {
    #[verifier::external_body]
    fn clone(&self) -> (r: FetchMethod) ensures r == *self, { unimplemented!() }
}
impl Copy for FetchMethod {}
#[verifier::external_body]
fn vx_owned(x: &str) -> (r: String) ensures r@ == x@ { x.to_string() }
#[verifier::external_body]
fn vx_bearer(t: &String) -> (r: String) ensures r@ == "Bearer "@ + t@ { format!("Bearer {t}") }
spec fn ttl_ms(t: Option<Duration>) -> Option<int> { match t { Some(d) => Some(d.ms@), None => None } }
//@file crates/vertigo/src/fetch/request_builder.rs
impl RequestBuilder {
    spec fn request(self) -> Request { Request { method: self.method, url: self.url, headers: Some(self.headers), body: self.body } }
//@item impl RequestBuilder :: fn new
    pub fn new(method: FetchMethod, url: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.method == method, r.url == url, r.headers@ == Map::<String, String>::empty(), r.body is None, r.ttl is None,»
    {
        Self {
            method,
            url: ⟦url.into()⇒url⟧,
            headers: HashMap::new(),
            body: None,
            ttl: None,
        }
    }
//@end
//@item impl RequestBuilder :: fn get
    pub fn get(url: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.method is GET, r.url == url, r.headers@ == Map::<String, String>::empty(), r.body is None, r.ttl is None,»
    {
        Self::new(FetchMethod::GET, url)
    }
//@end
//@item impl RequestBuilder :: fn post
    pub fn post(url: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.method is POST, r.url == url, r.headers@ == Map::<String, String>::empty(), r.body is None, r.ttl is None,»
    {
        Self::new(FetchMethod::POST, url)
    }
//@end
//@item impl RequestBuilder :: fn body
    pub fn body(⟦mut self⇒self⟧, body: RequestBody) -> «(r:» Self «)
        ensures r == (RequestBuilder { body: Some(body), ..self }),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.body = Some(body);
        ⟦self⇒this⟧
    }
//@end
//@item impl RequestBuilder :: fn bearer_auth
    pub fn bearer_auth(self, token: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures
            exists|n: String, v: String| n@ == "Authorization"@ && v@ == "Bearer "@ + token@ && r.headers@ == #[trigger] self.headers@.insert(n, v),
            r == (RequestBuilder { headers: r.headers, ..self }),»
    {
        let token: String = ⟦token.into()⇒token⟧;
        self.set_header(⟦"Authorization", format!("Bearer {token}")⇒vx_owned("Authorization"), vx_bearer(&token)⟧)
    }
//@end
//@item impl RequestBuilder :: fn set_header
    pub fn set_header(⟦mut self⇒self⟧, name: ⟦impl Into<String>⇒String⟧, value: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.headers@ == self.headers@.insert(name, value), r == (RequestBuilder { headers: r.headers, ..self }),»
    {
«        let mut this = self;»
        let name: String = ⟦name.into()⇒name⟧;
        let value: String = ⟦value.into()⇒value⟧;
        ⟦self⇒this⟧.headers.insert(name, value);
        ⟦self⇒this⟧
    }
//@end
//@item impl RequestBuilder :: fn body_json
    pub fn body_json«<B>»(self, body: ⟦impl JsJsonSerialize⇒B⟧) -> «(r:» Self «)
        ensures r == (RequestBuilder { body: Some(RequestBody::Json(json_of(body))), ..self }),»
    {
        let body = ⟦body.to_json()⇒vx_to_json(body)⟧;
        self.body(RequestBody::Json(body))
    }
//@end
//@item impl RequestBuilder :: fn headers
    pub fn headers(⟦mut self⇒self⟧, headers: HashMap<String, String>) -> «(r:» Self «)
        ensures r == (RequestBuilder { headers, ..self }),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.headers = headers;
        ⟦self⇒this⟧
    }
//@end
//@item impl RequestBuilder :: fn lazy_cache
    pub fn lazy_cache<T>(
        self,
        map_response: ⟦impl Fn(u32, RequestBody) -> Option<Result<T, String>> + 'static⇒Mapper<T>⟧,
«        Ghost(w): Ghost<World<T>>,»
    ) -> «(r:» LazyCache<T> «)
        requires w.value@ is Uninitialized, !w.queued@,
        ensures w.of(r), r.request == self, r.map_response == map_response,»
    {
        LazyCache::new(self, map_response«, Ghost(w)»)
    }
//@end
//@item impl RequestBuilder :: fn ttl_seconds
    pub fn ttl_seconds(⟦mut self⇒self⟧, seconds: u64) -> «(r:» Self «)
        ensures ttl_ms(r.ttl) == Some(seconds * 1000int), r.request() == self.request(),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.ttl = Some(⟦Duration::from_secs⇒vx_from_secs⟧(seconds));
        ⟦self⇒this⟧
    }
//@end
//@item impl RequestBuilder :: fn ttl_minutes
    pub fn ttl_minutes(⟦mut self⇒self⟧, minutes: u64) -> «(r:» Self «)
        requires minutes * 60 <= u64::MAX,
        ensures ttl_ms(r.ttl) == Some(minutes * 60_000int), r.request() == self.request(),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.ttl = Some(⟦Duration::from_secs⇒vx_from_secs⟧(minutes * 60));
        ⟦self⇒this⟧
    }
//@end
//@item impl RequestBuilder :: fn ttl_hours
    pub fn ttl_hours(⟦mut self⇒self⟧, hours: u64) -> «(r:» Self «)
        requires hours * 3600 <= u64::MAX,
        ensures ttl_ms(r.ttl) == Some(hours * 3_600_000int), r.request() == self.request(),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.ttl = Some(⟦Duration::from_secs⇒vx_from_secs⟧(hours * 60 * 60));
        ⟦self⇒this⟧
    }
//@end
//@item impl RequestBuilder :: fn ttl_days
    pub fn ttl_days(⟦mut self⇒self⟧, days: u64) -> «(r:» Self «)
        requires days * 86400 <= u64::MAX,
        ensures ttl_ms(r.ttl) == Some(days * 86_400_000int), r.request() == self.request(),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.ttl = Some(⟦Duration::from_secs⇒vx_from_secs⟧(days * 24 * 60 * 60));
        ⟦self⇒this⟧
    }
//@end
//@item impl RequestBuilder :: fn get_ttl
    pub fn get_ttl(&self) -> «(r:» Option<Duration> «) ensures r == self.ttl,»
    {
        self.ttl
    }
//@end
//@item impl RequestBuilder :: fn call
    pub ⟦async fn⇒fn⟧ call«<T>»(&self«, w: &mut World<T>») -> «(r:» RequestResponse «)
        requires old(w).queued@, !old(w).flight@,
        ensures
            others(World { sent: Ghost(old(w).sent@ + 1), ..*old(w) }, *final(w)),
            final(w).run_value == old(w).run_value,
            final(w).run_now == old(w).run_now,
            final(w).kept == old(w).value,
            final(w).request@ == self.request(),
            final(w).answer@ == r.data,»
    {
        let Self {
            method,
            url,
            headers,
            body,
            ttl: _,
        } = self;

        let result = ⟦get_driver()
            .inner
            .api
            .fetch⇒w.fetch⟧(*method, ⟦url.clone()⇒vx_clone(url)⟧, Some(⟦headers.clone()⇒vx_clone(headers)⟧), ⟦body.clone()⇒vx_clone(body)⟧)
            ⟦.await⇒⟧;

        RequestResponse::new(*method, ⟦url.clone()⇒vx_clone(url)⟧, result)
    }
//@end
}
// what the answer comes to
spec fn comes_to<T>(m: Mapper<T>, data: Result<(u32, RequestBody), String>, r: Result<T, String>) -> bool {
    match data {
        Ok((status, body)) => exists|o: Option<Result<T, String>>| #[trigger] makes(m, status, body, o) && r == match o { Some(x) => x, None => Err(unhandled(status)) },
        Err(e) => r == Err::<T, String>(e),
    }
}
impl RequestResponse {
//@item impl RequestResponse :: fn new
    fn new(
        method: FetchMethod,
        url: String,
        data: Result<(u32, RequestBody), String>,
    ) -> «(r:» RequestResponse «)
        ensures r == (RequestResponse { method, url, data }),»
    {
        RequestResponse { method, url, data }
    }
//@end
//@item impl RequestResponse :: fn status
    pub fn status(&self) -> «(r:» Option<u32> «)
        ensures r == match self.data { Ok((s, _)) => Some(s), Err(_) => None },»
    {
        if let Ok((status, _)) = self.data {
            return Some(status);
        }

        None
    }
//@end
//@item impl RequestResponse :: fn into
    pub fn into<T>(
        self,
        convert: impl Fn(u32, RequestBody) -> Option<Result<T, String>>,
    ) -> «(r:» Result<T, String> «)
        requires forall|s: u32, b: RequestBody| #[trigger] call_requires(convert, (s, b)),
        ensures match self.data {
            Ok((status, body)) => exists|o: Option<Result<T, String>>| #[trigger] call_ensures(convert, (status, body), o) && r == match o { Some(x) => x, None => Err(unhandled(status)) },
            Err(e) => r == Err::<T, String>(e),
        },»
    {
        let result = match self.data {
            Ok((status, body)) => match convert(status, body) {
                Some(result) => result,
                None => Err(⟦format!("Unhandled response code {status}")⇒vx_unhandled(status)⟧),
            },
            Err(err) => Err(err),
        };

        if let Err(err) = &result {
        }

        result
    }
//@end
//@item impl RequestResponse :: fn into_data
    pub fn into_data<⟦T: JsJsonDeserialize⇒T⟧>(self) -> «(r:» Result<T, String> «)
        ensures match self.data {
            Ok((_, RequestBody::Json(j))) => r == reads_as::<T>(j),
            Ok(_) => r is Err,
            Err(e) => r == Err::<T, String>(e),
        },»
    {
        self.into(⟦|_, response_body|⇒|_s: u32, response_body: RequestBody|⟧ «-> (o: Option<Result<T, String>>)
            ensures o is Some, match response_body { RequestBody::Json(j) => o->0 == reads_as::<T>(j), _ => o->0 is Err }, {» Some(response_body.into::<T>()) «}»)
    }
//@end
}

//@file crates/vertigo/src/fetch/lazy_cache.rs
#[verifier::reject_recursive_types(T)]
//@item struct LazyCache
pub struct LazyCache<T: 'static> {
    id: u64,
    value: ⟦Value<ApiResponse<T>>⇒Shared⟧,
    queued: ⟦Rc<ValueMut<bool>>⇒Shared⟧,
    request: ⟦Rc<RequestBuilder>⇒RequestBuilder⟧,
    map_response: ⟦Rc<dyn Fn(u32, RequestBody) -> MapResponse<T>>⇒Mapper<T>⟧,
}
//@end
// what an update leaves, once it is finished
spec fn updated<T>(c: LazyCache<T>, with_loading: bool, force: bool, a: World<T>, b: World<T>) -> bool {
    let go = force || stale(b.run_value@, b.run_now@);
    &&& b.value_id == a.value_id && b.queued_id == a.queued_id
    &&& !b.queued@ && b.flight@ == a.flight@ && b.started@ == a.started@
    // others may have dropped the result before the update ran
    &&& b.run_value == a.value || b.run_value@ is Uninitialized
    &&& b.run_now@ >= a.now@
    &&& b.sent@ == a.sent@ + (if go { 1int } else { 0int })
    &&& !go ==> b.value == b.run_value
    &&& go ==> {
        &&& b.request@ == c.request.request()
        // the old result stays, unless loading is asked for
        &&& b.kept@ == if with_loading { ApiResponse::Data { value: Resource::Loading, expiry: None } } else { b.run_value@ }
        // the answer replaces it
        &&& b.value@ is Data
        &&& exists|r: Result<T, String>| #[trigger] comes_to(c.map_response, b.answer@, r) && match r {
                Ok(x) => shown(b.value@) is Ready && *shown(b.value@)->Ready_0 == x,
                Err(m) => shown(b.value@) == Resource::<Rc<T>>::Error(m),
            }
        &&& match c.request.ttl {
            Some(d) => b.value@->expiry is Some && b.value@->expiry->0.instant == b.now@ + d.ms@,
            None => b.value@->expiry is None,
        }
    }
}
impl<T> Clone for LazyCache<T> {
//@item impl Clone for LazyCache :: fn clone
    fn clone(&self) -> «(r:» Self «)
        ensures r == *self,»
    {
        LazyCache {
            id: self.id,
            value: ⟦self.value.clone()⇒vx_clone(&self.value)⟧,
            queued: ⟦self.queued.clone()⇒vx_clone(&self.queued)⟧,
            request: ⟦self.request.clone()⇒vx_clone(&self.request)⟧,
            map_response: ⟦self.map_response.clone()⇒vx_clone(&self.map_response)⟧,
        }
    }
//@end
}
impl<T> LazyCache<T> {
//@item impl LazyCache :: fn get
    pub fn get(&self, context: &Context«, w: &mut World<T>») -> «(r:» Resource<Rc<T>> «)
        requires old(w).of(*self), old(w).flight@ ==> old(w).queued@,
        ensures
            r == shown(old(w).value@),
            old(w).queued@ || !stale(old(w).value@, old(w).now@) ==> *final(w) == *old(w),
            !old(w).queued@ && stale(old(w).value@, old(w).now@) ==> updated(*self, false, false, *old(w), *final(w)),»
    {
        let api_response = ⟦self.value.get(context)⇒w.value(&self.value)⟧;

        if !⟦self.queued.get()⇒w.queued(&self.queued)⟧ && api_response.needs_update(«w») {
            self.update(false, false«, w»);
        }

        api_response.get_value()
    }
//@end
//@item impl LazyCache :: fn forget
    pub fn forget(&self«, w: &mut World<T>»)
«        requires old(w).of(*self),
        ensures *final(w) == (World { value: Ghost(ApiResponse::Uninitialized), ..*old(w) }),»
    {
        ⟦self.value.set(⇒w.set_value(&self.value, ⟧ApiResponse::Uninitialized);
    }
//@end
//@item impl LazyCache :: fn force_update
    pub fn force_update(&self, with_loading: bool«, w: &mut World<T>»)
«        requires old(w).of(*self), old(w).flight@ ==> old(w).queued@,
        ensures
            old(w).queued@ ==> *final(w) == *old(w),
            !old(w).queued@ ==> updated(*self, with_loading, true, *old(w), *final(w)),»
    {
        self.update(with_loading, true«, w»)
    }
//@end
//@item impl LazyCache :: fn update
    pub fn update(&self, with_loading: bool, force: bool«, w: &mut World<T>»)
«        requires old(w).of(*self), old(w).flight@ ==> old(w).queued@,
        ensures
            old(w).queued@ ==> *final(w) == *old(w),
            !old(w).queued@ ==> updated(*self, with_loading, force, *old(w), *final(w)),»
    {
        if ⟦self.queued.get()⇒w.queued(&self.queued)⟧ {
            return;
        }

        ⟦self.queued.set(⇒w.set_queued(&self.queued, ⟧true);
        ⟦get_driver().inner.api.on_fetch_start.trigger(())⇒w.fetch_start()⟧;

        let self_clone = self.clone();

        ⟦get_driver().spawn(async move {⇒w.spawn(); {⟧
            if !⟦self_clone.queued.get()⇒w.queued(&self_clone.queued)⟧ {
                return;
            }

            let api_response = ⟦transaction(|context| self_clone.value.get(context))⇒w.value(&self_clone.value)⟧;

            if force || api_response.needs_update(«w») {
                if with_loading {
                    ⟦self_clone.value.set(⇒w.set_value(&self_clone.value, ⟧ApiResponse::new_loading());
                }

                let new_value = self_clone
                    .request
                    .call(«w»)
                    ⟦.await⇒⟧
                    .into(⟦self_clone.map_response.as_ref()⇒vx_as_fn(&self_clone.map_response)⟧);
«                proof { assert(comes_to(self.map_response, w.answer@, new_value)); }»

                let new_value = match new_value {
                    Ok(value) => Resource::Ready(Rc::new(value)),
                    Err(message) => Resource::Error(message),
                };

                let expiry = self_clone
                    .request
                    .get_ttl()
                    .map(|ttl«: Duration»| «-> (o: Instant) ensures o.instant == w.now@ + ttl.ms@ { »⟦get_driver().now()⇒w.now()⟧.add_duration(ttl)« }»);

                ⟦self_clone.value.set(⇒w.set_value(&self_clone.value, ⟧ApiResponse::new(new_value, expiry));
            }

            ⟦self_clone.queued.set(⇒w.set_queued(&self_clone.queued, ⟧false);
            ⟦get_driver().inner.api.on_fetch_stop.trigger(())⇒w.fetch_stop()⟧;
        }⟦);⇒⟧
    }
//@end
//@item impl PartialEq for LazyCache :: fn eq
    fn eq(&self, other: &Self) -> «(r:» bool «)
        ensures r == (self.id == other.id),»
    {
        self.id == other.id
    }
//@end
//@item impl LazyCache :: fn new
    pub fn new(
        request: RequestBuilder,
        map_response: ⟦impl Fn(u32, RequestBody) -> MapResponse<T> + 'static⇒Mapper<T>⟧,
«        Ghost(w): Ghost<World<T>>,»
    ) -> «(r:» Self «)
        requires w.value@ is Uninitialized, !w.queued@,
        ensures w.of(r), r.request == request, r.map_response == map_response,»
    {
        Self {
            id: get_unique_id(),
            value: ⟦Value::new(⇒vx_value::<T>(Ghost(w), ⟧ApiResponse::Uninitialized),
            queued: ⟦Rc::new(ValueMut::new(⇒vx_queued::<T>(Ghost(w), ⟧false⟦))⇒)⟧,
            request: ⟦Rc::new(request)⇒request⟧,
            map_response: ⟦Rc::new(map_response)⇒map_response⟧,
        }
    }
//@end
}
#[verifier::external_body]
fn get_unique_id() -> u64 { unimplemented!() }
// the state that the world stands for is the one given
#[verifier::external_body]
fn vx_value<T>(w: Ghost<World<T>>, x: ApiResponse<T>) -> (r: Shared) requires w@.value@ == x, ensures r.id == w@.value_id { unimplemented!() }
#[verifier::external_body]
fn vx_queued<T>(w: Ghost<World<T>>, x: bool) -> (r: Shared) requires w@.queued@ == x, ensures r.id == w@.queued_id { unimplemented!() }

// While an update is under way, what others do to the cache is what is assumed of them: reads and updates change nothing,
// forgetting drops the result.  These are the cases of the contracts above.
proof fn theorem_others<T>(c: LazyCache<T>, a: World<T>, b: World<T>)
    requires
        a.queued@,
        // get, update, force_update; or forget
        b == a || b == (World { value: Ghost(ApiResponse::Uninitialized), ..a }),
    ensures others(a, b),
{
}
// A cache is asked for at most once: with an update finished, and its result not expired, a read changes nothing.
proof fn theorem_fresh<T>(c: LazyCache<T>, a: World<T>, b: World<T>)
    requires updated(c, false, false, a, b), b.sent@ > a.sent@, c.request.ttl is None || c.request.ttl->0.ms@ >= 0,
    ensures !stale(b.value@, b.now@), !b.queued@,
{
}
} // verus!
fn main() {}
