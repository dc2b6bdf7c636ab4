//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
impl JsValue {
//@item impl JsValue :: fn typename
    pub fn typename(&self) -> &'static str {
        match self {
            Self::U32(_) => "u32",
            Self::I32(_) => "i32",
            Self::U64(_) => "u64",
            Self::I64(_) => "i64",
            Self::F64(_) => "f64",
            Self::True => "true",
            Self::False => "false",
            Self::Null => "null",
            Self::Undefined => "undefined",
            Self::Vec(_) => "vec",
            Self::String(_) => "string",
            Self::List(_) => "list",
            Self::Object(_) => "object",
            Self::Json(_) => "json",
        }
    }
//@end
//@item impl JsValue :: fn bool
    pub fn bool(value: bool) -> «(r:» JsValue «) ensures r == (if value { JsValue::True } else { JsValue::False }),»
    {
        if value {
            JsValue::True
        } else {
            JsValue::False
        }
    }
//@end
//@item impl JsValue :: fn str
    pub fn str(value: ⟦impl Into<String>⇒String⟧) -> «(r:» JsValue «) ensures r == JsValue::String(value),»
    {
        JsValue::String(⟦value.into()⇒value⟧)
    }
//@end
}
//@file crates/vertigo-cli/src/serve/html/send_request.rs
//@item enum RequestBody
«pub» enum RequestBody {
    Text(String),
    Json(JsJson),
    Binary(Vec<u8>),
}
//@end
//@file crates/vertigo-cli/src/serve/wasm/message.rs
//@item struct FetchRequest
«pub» struct FetchRequest {
    «pub» method: String,
    «pub» url: String,
    «pub» headers: HashMap<String, String>,
    «pub» body: Option<RequestBody>,
}
//@end
//@item struct FetchResponse
«pub» struct FetchResponse {
    «pub» success: bool,
    «pub» status: u32,
    «pub» body: RequestBody,
}
//@end
#[allow(inconsistent_fields)]
//@item enum Message
«pub» enum Message {
    TimeoutAndSendResponse,
    DomUpdate(JsJson),
    Panic(Option<String>),
    SetTimeoutZero {
        callback_id: u64,
    },
    FetchRequest {
        callback_id: u64,
        request: FetchRequest,
    },
    FetchResponse {
        request: Arc<FetchRequest>,
        response: FetchResponse,
    },
    PlainResponse(String),
}
//@end
//@item enum CallWebsocketResult
«pub» enum CallWebsocketResult {
    TimeoutSet { time: u32, callback_id: u64 },
    NoResult,
}
//@end
pub open spec fn body_v(b: Option<RequestBody>) -> V {
    match b {
        None => undef(),
        Some(RequestBody::Text(t)) => V::Str(t@),
        Some(RequestBody::Json(j)) => jsonv(j),
        Some(RequestBody::Binary(b)) => V::Other(JsValue::Vec(b)),
    }
}
pub open spec fn body_is(b: Option<RequestBody>, x: V) -> bool { body_v(b) == x }
pub open spec fn interval_is(r: CallWebsocketResult, c: V) -> bool {
    match r {
        CallWebsocketResult::TimeoutSet { time, callback_id } => sets_timeout(c) && p(c, 0) == u32v(time) && p(c, 1) == u64v(callback_id),
        CallWebsocketResult::NoResult => !sets_timeout(c),
    }
}
pub open spec fn fetch_is(r: (u64, FetchRequest), c: V) -> bool {
    p(c, 0) == u64v(r.0) && p(c, 1) == V::Str(r.1.method@) && p(c, 2) == V::Str(r.1.url@)
        && headers_of(p(c, 3)->Other_0->Json_0) == Some(r.1.headers@) && body_v(r.1.body) == p(c, 4)
}
// trusted here, as assumed of the JSON conversion (C21): only an object of strings is read as a map of strings
#[verifier::external_body]
fn vx_headers(j: JsJson) -> (r: Result<HashMap<String, String>, ()>)
    ensures r is Ok <==> headers_of(j) is Some, r is Ok ==> headers_of(j) == Some(r->Ok_0@),
{ unimplemented!() }
#[verifier::external_body]
fn vx_now_millis() -> u128 { unimplemented!() }

//@file crates/vertigo-cli/src/serve/wasm/decode_commands.rs
//@item fn convert_value_to_body
pub fn convert_value_to_body(body: JsValue) -> «(r:» Result<Option<RequestBody>, String> «)
    ensures r is Ok <==> body_ok(v(body)), r is Ok ==> body_is(r->Ok_0, v(body)),»
{
    match body {
        JsValue::Json(json) => Ok(Some(RequestBody::Json(json))),
        JsValue::String(text) => Ok(Some(RequestBody::Text(text))),
        JsValue::Vec(buffer) => Ok(Some(RequestBody::Binary(buffer))),
        JsValue::Undefined => Ok(None),
        other => {
            let typename = other.typename();
            let message = ⟦format!("expected JsValue::Json or JsValue::Text or JsValue::Binary, received JsValue::{typename}")⇒vx_string()⟧;
            Err(message)
        }
    }
}
//@end
//@item fn convert_body_to_value
pub fn convert_body_to_value(body: RequestBody) -> «(r:» JsValue «)
    ensures v(r) == body_v(Some(body)),»
{
    match body {
        RequestBody::Json(json) => JsValue::Json(json),
        RequestBody::Text(text) => JsValue::String(text),
        RequestBody::Binary(buffer) => JsValue::Vec(buffer),
    }
}
//@end
//@item fn match_is_browser
pub fn match_is_browser(arg: &JsValue) -> «(r:» Result<(), ()> «)
    ensures r is Ok <==> m_is_browser(v(*arg)),»
{
    let matcher = Match::new(arg)?;
    let matcher = matcher.test_list(&["api"])?;
    let _ = matcher.test_list(&["call", "isBrowser"])?;

    Ok(())
}
//@end
//@item fn match_cookie_command
pub fn match_cookie_command(arg: &JsValue) -> «(r:» Result<(), ()> «)
    ensures r is Ok <==> at(v(*arg), "cookie"),»
{
    let matcher = Match::new(arg)?;
    let matcher = matcher.test_list(&["api"])?;
    let _ = matcher.test_list(&["get", "cookie"])?;

    Ok(())
}
//@end
//@item fn match_plain_response
pub fn match_plain_response(arg: &JsValue) -> «(r:» Result<String, ()> «)
    ensures r is Ok <==> m_plain(v(*arg)), r is Ok ==> items(v(*arg))[1] == V::Str(r->Ok_0@),»
{
    let matcher = Match::new(arg)?;
    let matcher = matcher.test_list(&["plain_response"])?;
    let (matcher, body) = matcher.string()?;
    matcher.end()?;

    Ok(body)
}
//@end
//@item fn match_history_router
pub fn match_history_router(arg: &JsValue) -> «(r:» Result<(), ()> «)
    ensures r is Ok <==> m_history(v(*arg)),»
{
    let matcher = Match::new(arg)?;
    let matcher = matcher.test_list(&["api"])?;
    let matcher = matcher.test_list(&["get", "historyLocation"])?;
    let matcher = matcher.test_list(&["call", "get"])?;
    matcher.end()?;

    Ok(())
}
//@end
//@item fn match_get_env
pub fn match_get_env(arg: &JsValue) -> «(r:» Result<String, ()> «)
    ensures r is Ok <==> m_env(v(*arg)), r is Ok ==> p(items(v(*arg))[1], 0) == V::Str(r->Ok_0@),»
{
    let matcher = Match::new(arg)?;
    let matcher = matcher.test_list(&["api"])?;
    let (matcher, name) = matcher.test_list_with_fn(|matcher: Match| -> «(o:» Result<String, ()> «) ensures o is Ok <==> calls(V::List(matcher.left()), "get_env", 1) && p(V::List(matcher.left()), 0) is Str, o is Ok ==> p(V::List(matcher.left()), 0) == V::Str(o->Ok_0@),»{
        let matcher = matcher.str("call")?;
        let matcher = matcher.str("get_env")?;
        let (matcher, name) = matcher.string()?;
        matcher.end()?;

        Ok(name)
    })?;
    matcher.end()?;

    Ok(name)
}
//@end
//@item fn match_history_router_callback
pub fn match_history_router_callback(arg: &JsValue) -> «(r:» Result<(), ()> «)
    ensures r is Ok <==> m_history_add(v(*arg)),»
{
    let matcher = Match::new(arg)?;
    let matcher = matcher.test_list(&["api"])?;
    let matcher = matcher.test_list(&["get", "historyLocation"])?;
    let (matcher, _) = matcher.test_list_with_fn(|matcher: Match| -> «(o:» Result<u64, ()> «) ensures o is Ok <==> calls(V::List(matcher.left()), "add", 1) && is_u64(p(V::List(matcher.left()), 0)),»{
        let matcher = matcher.str("call")?;
        let matcher = matcher.str("add")?;
        let (matcher, callback_id) = matcher.u64()?;
        matcher.end()?;

        Ok(callback_id)
    })?;
    matcher.end()?;

    Ok(())
}
//@end
//@item fn match_dom_bulk_update
pub fn match_dom_bulk_update(arg: &JsValue) -> «(r:» Result<JsJson, ()> «)
    ensures r is Ok <==> m_bulk(v(*arg)), r is Ok ==> p(items(v(*arg))[2], 0) == jsonv(r->Ok_0),»
{
    let matcher = Match::new(arg)?;
    let matcher = matcher.test_list(&["api"])?;
    let matcher = matcher.test_list(&["get", "dom"])?;
    let (matcher, data) = matcher.test_list_with_fn(|matcher: Match| -> «(o:» Result<JsJson, ()> «) ensures o is Ok <==> calls(V::List(matcher.left()), "dom_bulk_update", 1) && is_json(p(V::List(matcher.left()), 0)), o is Ok ==> p(V::List(matcher.left()), 0) == jsonv(o->Ok_0),»{
        let matcher = matcher.str("call")?;
        let matcher = matcher.str("dom_bulk_update")?;
        let (matcher, data) = matcher.json()?;
        matcher.end()?;

        Ok(data)
    })?;
    matcher.end()?;

    Ok(data)
}
//@end
//@item fn match_log
pub fn match_log(arg: &JsValue) -> «(r:» Result<(String, String), ()> «)
    ensures r is Ok <==> m_log(v(*arg)),»
{
    let matcher = Match::new(arg)?;

    let matcher = matcher.test_list(&["root", "window"])?;
    let matcher = matcher.test_list(&["get", "console"])?;
    let (matcher, (log_type, log_message)) =
        matcher.test_list_with_fn(|matcher: Match| -> «(o:» Result<(String, String), ()> «) ensures o is Ok <==> is_call(V::List(matcher.left())) && matcher.left().len() == 6 && forall|i: int| 1 <= i < 6 ==> #[trigger] matcher.left()[i] is Str,»{
            let matcher = matcher.str("call")?;
            let (matcher, log_type) = matcher.string()?;
            let (matcher, log_message) = matcher.string()?;
            let (matcher, _) = matcher.string()?;
            let (matcher, _) = matcher.string()?;
            let (matcher, _) = matcher.string()?;
            matcher.end()?;

            Ok((log_type, log_message))
        })?;

    matcher.end()?;

    Ok((log_type, log_message))
}
//@end
//@item fn match_date_now
pub fn match_date_now(arg: &JsValue) -> «(r:» Result<JsValue, ()> «)
    ensures r is Ok <==> m_now(v(*arg)), r is Ok ==> r->Ok_0 is I64,»
{
    let matcher = Match::new(arg)?;

    let matcher = matcher.test_list(&["root", "window"])?;
    let matcher = matcher.test_list(&["get", "Date"])?;
    let matcher = matcher.test_list(&["call", "now"])?;
    matcher.end()?;

    let time = ⟦get_now().as_millis()⇒vx_now_millis()⟧;
    Ok(JsValue::I64(time as i64))
}
//@end
//@item fn match_websocket
pub fn match_websocket(arg: &JsValue) -> «(r:» Result<(), ()> «)
    ensures r is Ok <==> at(v(*arg), "websocket"),»
{
    let matcher = Match::new(arg)?;

    let matcher = matcher.test_list(&["api"])?;
    let _ = matcher.test_list(&["get", "websocket"])?;

    Ok(())
}
//@end
//@item fn match_interval
pub fn match_interval(arg: &JsValue) -> «(r:» Result<CallWebsocketResult, ()> «)
    ensures r is Ok <==> m_interval(v(*arg)), r is Ok ==> interval_is(r->Ok_0, items(v(*arg))[2]),»
{
    let matcher = Match::new(arg)?;

    let matcher = matcher.test_list(&["api"])?;
    let matcher = matcher.test_list(&["get", "interval"])?;

    let (matcher, result) = matcher.test_list_with_fn(|matcher«: Match»| «-> (o: Result<CallWebsocketResult, ()>) ensures o is Ok <==> is_call(V::List(matcher.left())) && (sets_timeout(V::List(matcher.left())) ==> matcher.left().len() >= 4 && is_u32(p(V::List(matcher.left()), 0)) && is_u64(p(V::List(matcher.left()), 1))), o is Ok ==> interval_is(o->Ok_0, V::List(matcher.left())),»{
        let matcher = matcher.str("call")?;
        if let Ok(matcher) = matcher.str("timeout_set") {
            let (matcher, time) = matcher.u32()?;
            let (_, callback_id) = matcher.u64()?;

            return Ok(CallWebsocketResult::TimeoutSet { time, callback_id });
        }

        Ok(CallWebsocketResult::NoResult)
    })?;

    matcher.end()?;

    Ok(result)
}
//@end
//@item fn match_fetch
pub fn match_fetch(arg: &JsValue) -> «(r:» Result<(u64, FetchRequest), ()> «)
    ensures r is Ok <==> m_fetch(v(*arg)), r is Ok ==> fetch_is(r->Ok_0, items(v(*arg))[2]),»
{
    let matcher = Match::new(arg)?;

    let matcher = matcher.test_list(&["api"])?;
    let matcher = matcher.test_list(&["get", "fetch"])?;

    let (matcher, result) = matcher.test_list_with_fn(|matcher«: Match»| «-> (o: Result<(u64, FetchRequest), ()>) ensures o is Ok <==> is_fetch(V::List(matcher.left())), o is Ok ==> fetch_is(o->Ok_0, V::List(matcher.left())),»{
        let matcher = matcher.str("call")?;
        let matcher = matcher.str("fetch_send_request")?;
        let (matcher, callback_id) = matcher.u64()?;
        let (matcher, method) = matcher.string()?;
        let (matcher, url) = matcher.string()?;
        let (matcher, headers) = matcher.json()?;
        let (matcher, body) = matcher.get_any()?;
        matcher.end()?;

        let headers = ⟦from_json::<HashMap<String, String>>(headers).map_err(|error| {
        })⇒vx_headers(headers)⟧?;

        let body = convert_value_to_body(body).map_err(|error| {
        })?;

        Ok((
            callback_id,
            FetchRequest {
                method,
                url,
                headers,
                body,
            },
        ))
    })?;

    matcher.end()?;

    Ok(result)
}
//@end
// ---- the host function of the server ----------------------------------------------------------------------------------
// wasmtime and tokio (trusted): the memory of the program, and the channel to the task that serves the request
#[verifier::external_body]
pub struct Engine { _p: () }
#[verifier::external_body]
pub struct Module { _p: () }
#[verifier::external_body]
pub struct Instance { _p: () }
#[verifier::external_body]
pub struct Func { _p: () }
#[verifier::external_body]
pub struct Caller { _p: () }
#[verifier::external_body]
pub struct Imports { _p: () }
pub struct Store { pub state: RequestState }
#[verifier::external_body]
pub struct UnboundedSender { _p: () }
#[verifier::external_body]
pub struct DataContext { _p: () }

// one call of the program: what it passed, what was told to the request's task, and what was handed back
pub struct World { pub input: Ghost<V>, pub told: Ghost<Seq<Told>>, pub panics: Ghost<nat>, pub reply: Ghost<Option<V>> }

pub open spec fn told_is(m: Message, t: Told) -> bool {
    match (m, t) {
        (Message::PlainResponse(b), Told::Plain(x)) => b@ == x,
        (Message::DomUpdate(j), Told::Dom(x)) => j == x,
        (Message::SetTimeoutZero { callback_id }, Told::TimeoutZero(x)) => callback_id == x,
        (Message::FetchRequest { callback_id, request }, Told::Fetch { id, method, url, headers, body }) =>
            callback_id == id && request.method@ == method && request.url@ == url && request.headers@ == headers && body_v(request.body) == body,
        _ => false,
    }
}
impl UnboundedSender {
    #[verifier::external_body]
    fn clone(&self) -> UnboundedSender { unimplemented!() }
    // the receiving end lives as long as the program
    #[verifier::external_body]
    fn send(&self, m: Message, w: &mut World) -> (r: Result<(), ()>)
        ensures
            r is Ok,
            final(w).input == old(w).input, final(w).reply == old(w).reply,
            m is Panic ==> final(w).told == old(w).told && final(w).panics@ == old(w).panics@ + 1,
            !(m is Panic) ==> final(w).panics == old(w).panics && exists|t: Told| told_is(m, t) && final(w).told@ == #[trigger] old(w).told@.push(t),
    { unimplemented!() }
}
impl DataContext {
    #[verifier::external_body]
    fn from_caller(c: Caller) -> DataContext { unimplemented!() }
    #[verifier::external_body]
    fn get_string_from(&mut self, ptr: u32, offset: u32) -> Option<String> { unimplemented!() }
    // the value whose snapshot the program passed (C01)
    #[verifier::external_body]
    fn get_value(&mut self, ptr: u32, offset: u32, w: &mut World) -> (r: JsValue)
        ensures v(r) == old(w).input@, *final(w) == *old(w),
    { unimplemented!() }
    #[verifier::external_body]
    fn save_value(&mut self, value: JsValue, w: &mut World) -> (r: u32)
        ensures
            final(w).input == old(w).input, final(w).told == old(w).told, final(w).panics == old(w).panics,
            value is Undefined ==> r == 0 && final(w).reply == old(w).reply,
            !(value is Undefined) ==> final(w).reply@ == Some(v(value)),
    { unimplemented!() }
}
// what is handed back for a reply
pub open spec fn reply_is(r: Option<V>, want: Reply) -> bool {
    match want {
        Reply::Nothing => r is None,
        Reply::Text(t) => r == Some(V::Str(t)),
        Reply::Null => r == Some(V::Other(JsValue::Null)),
        Reply::Now => r is Some && r->0 is Other && r->0->Other_0 is I64,
        Reply::I32(n) => r == Some(i32v(n)),
        Reply::False => r == Some(V::Other(JsValue::False)),
    }
}
pub open spec fn answered(before: World, after: World, r: u32, url: Seq<char>, env: Map<String, String>) -> bool {
    let a = answer(before.input@, url, env);
    after.told@ == (match a.told { Some(t) => before.told@.push(t), None => before.told@ }) && (before.reply@ is None ==> reply_is(after.reply@, a.reply) && (a.reply is Nothing ==> r == 0))
}
impl Store {
    fn new(engine: &Engine, state: RequestState) -> (r: Store) ensures r.state == state,
    { Store { state } }
}
impl Func {
    #[verifier::external_body]
    fn wrap_panic<F: Fn(Caller, u32, u32, &mut World)>(store: &mut Store, f: F) -> (r: Func)
        requires
            forall|c: Caller, ptr: u32, n: u32, w: &mut World| call_requires(f, (c, ptr, n, w)),
            forall|c: Caller, ptr: u32, n: u32, w: &mut World| #[trigger] call_ensures(f, (c, ptr, n, w), ()) ==> (*final(w)).told == (*w).told,
        ensures *final(store) == *old(store),
    { unimplemented!() }
    // the function that is given to the program as its host: it must answer as the request the store holds asks
    #[verifier::external_body]
    fn wrap<F: Fn(Caller, u32, u32, &mut World) -> u32>(store: &mut Store, f: F) -> (r: Func)
        requires
            forall|c: Caller, ptr: u32, n: u32, w: &mut World| call_requires(f, (c, ptr, n, w)),
            forall|c: Caller, ptr: u32, n: u32, w: &mut World, r: u32| #[trigger] call_ensures(f, (c, ptr, n, w), r) ==>
                answered(*w, *final(w), r, old(store).state.url@, old(store).state.env@),
        ensures *final(store) == *old(store),
    { unimplemented!() }
    #[verifier::external_body]
    fn into(self) -> Imports { unimplemented!() }
}
impl Instance {
    #[verifier::external_body]
    fn new(store: &mut Store, module: &Module, imports: &[Imports; 2]) -> (r: Result<Instance, ()>)
        ensures r is Ok, *final(store) == *old(store),
    { unimplemented!() }
}
//@file crates/vertigo-cli/src/serve/request_state.rs
//@item struct RequestState
«pub» struct RequestState {
    «pub» url: String,
    «pub» env: HashMap<String, String>,
}
//@end
impl RequestState {
    #[verifier::external_body]
    fn clone(&self) -> (r: RequestState)
        ensures r.url@ == self.url@, r.env@ == self.env@,
    { unimplemented!() }
//@item impl RequestState :: fn env
    pub fn env(&self, name: ⟦impl Into<String>⇒String⟧) -> «(r:» Option<String> «)
        ensures
            r is Some <==> env_reply(self.env@, name@) is Text,
            r is Some ==> env_reply(self.env@, name@) == Reply::Text(r->0@),»
    {
        ⟦let name = name.into();⇒⟧
        «proof {
            assert forall|k: String| k@ == name@ && #[trigger] self.env@.dom().contains(k) implies k == name by { sax::axiom_string_ext(k, name); }
        }»
        let value = self.env.get(&name)?;

        Some(⟦value.clone()⇒vx_clone_string(value)⟧)
    }
//@end
}
//@file crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
//@item struct WasmInstance
pub struct WasmInstance {
    instance: Instance,
    store: ⟦Store<RequestState>⇒Store⟧,
}
//@end
//@file crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
impl WasmInstance {
//@item impl WasmInstance :: fn new
    pub fn new(
        sender: ⟦UnboundedSender<Message>⇒UnboundedSender⟧,
        engine: &Engine,
        module: &Module,
        request: RequestState,
    ) -> Self {
        let url = request.url.clone();
        let mut store = Store::new(engine, request.clone());

        let import_panic_message = ⟦Func::wrap⇒Func::wrap_panic⟧(&mut store, {
            let sender = sender.clone();

            move |caller: ⟦Caller<'_, RequestState>⇒Caller⟧, ptr: u32, offset: u32«, w: &mut World»| «ensures final(w).told == old(w).told,»{
                let mut data_context = DataContext::from_caller(caller);

                let message = data_context.get_string_from(ptr, offset);

                sender.send(Message::Panic(message)«, w»).unwrap();
            }
        });

        let import_dom_access = {
            Func::wrap(
                &mut store,
                move |caller: ⟦Caller<'_, RequestState>⇒Caller⟧, ptr: u32, offset: u32«, w: &mut World»| -> «(r:» u32 «) ensures answered(*old(w), *final(w), r, url@, request.env@),» {
                    let mut data_context = DataContext::from_caller(caller);

                    let value = data_context.get_value(ptr, offset«, w»);

                    // Ignore cookie operations
                    if let Ok(()) = match_cookie_command(&value) {
                        return 0;
                    }

                    // Intercept plain response
                    if let Ok(body) = match_plain_response(&value) {
                        sender.send(Message::PlainResponse(body)«, w»).unwrap();
                        return 0;
                    }

                    //get history router location
                    if let Ok(()) = match_history_router(&value) {
                        let result = JsValue::str(url.clone());
                        return data_context.save_value(result«, w»);
                    }

                    if let Ok(env_name) = match_get_env(&value) {
                        let env_value = request.env(env_name);

                        let result = match env_value {
                            Some(value) => JsValue::String(value),
                            None => JsValue::Null,
                        };
                        return data_context.save_value(result«, w»);
                    }

                    //adding callback for hashrouter
                    if match_history_router_callback(&value).is_ok() {
                        return 0;
                    }

                    if let Ok(data) = match_dom_bulk_update(&value) {
                        sender.send(Message::DomUpdate(data)«, w»).unwrap();
                        return 0;
                    }

                    if let Ok((log_type, log_message)) = match_log(&value) {
                        ⟦if log_type == "error" {
                        } else {
                        }⇒⟧
                        return 0;
                    }

                    if let Ok(current_time) = match_date_now(&value) {
                        return data_context.save_value(current_time«, w»);
                    }

                    if let Ok(result) = match_interval(&value) {
                        match result {
                            CallWebsocketResult::TimeoutSet { time, callback_id } => {
                                if time == 0 {
                                    sender
                                        .send(Message::SetTimeoutZero { callback_id }«, w»)
                                        .unwrap();
                                }

                                let result = JsValue::I32(0); // fake timerId
                                return data_context.save_value(result«, w»);
                            }
                            CallWebsocketResult::NoResult => {
                                return 0;
                            }
                        }
                    }

                    if let Ok(()) = match_websocket(&value) {
                        return 0;
                    }

                    if let Ok((callback_id, request)) = match_fetch(&value) {
                        sender
                            .send(Message::FetchRequest {
                                callback_id,
                                request,
                            }«, w»)
                            .unwrap();
                        return 0;
                    }

                    if let Ok(()) = match_is_browser(&value) {
                        let result = JsValue::bool(false);
                        return data_context.save_value(result«, w»);
                    }

                        0
                },
            )
        };

        let imports = [import_panic_message.into(), import_dom_access.into()];
        let instance = Instance::new(&mut store, module, &imports).unwrap();

        WasmInstance { instance, store }
    }
//@end
}
