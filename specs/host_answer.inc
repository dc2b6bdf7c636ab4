// ---- the server's answer to each call ---------------------------------------------------------------------------------
// what is told to the request's task
pub enum Told {
    Plain(Seq<char>),
    Dom(JsJson),
    TimeoutZero(u64),
    Fetch { id: u64, method: Seq<char>, url: Seq<char>, headers: Map<String, String>, body: V },
}
pub enum Reply { Nothing, Text(Seq<char>), Null, Now, I32(i32), False }
pub struct Answer { pub told: Option<Told>, pub reply: Reply }
pub open spec fn quiet(r: Reply) -> Answer { Answer { told: None, reply: r } }
pub open spec fn tell(t: Told) -> Answer { Answer { told: Some(t), reply: Reply::Nothing } }

pub open spec fn items(x: V) -> Seq<V> { if x is List { x->List_0 } else { Seq::empty() } }
// [api] [get name] ...
pub open spec fn at(x: V, name: &str) -> bool { items(x).len() >= 2 && items(x)[0] == api() && items(x)[1] == get(name) }
// [api] [get name] [call function parameters]
pub open spec fn at_call(x: V, name: &str) -> bool { items(x).len() == 3 && at(x, name) && is_call(items(x)[2]) }
pub open spec fn is_call(c: V) -> bool { items(c).len() >= 1 && items(c)[0] == s("call") }
pub open spec fn calls(c: V, f: &str, n: int) -> bool { items(c).len() == n + 2 && is_call(c) && items(c)[1] == s(f) }
pub open spec fn p(c: V, i: int) -> V { items(c)[2 + i] }
pub open spec fn is_u64(x: V) -> bool { x is Other && x->Other_0 is U64 }
pub open spec fn is_u32(x: V) -> bool { x is Other && x->Other_0 is U32 }
pub open spec fn is_json(x: V) -> bool { x is Other && x->Other_0 is Json }

pub open spec fn m_is_browser(x: V) -> bool { items(x).len() >= 2 && items(x)[0] == api() && items(x)[1] == call("isBrowser", Seq::empty()) }
pub open spec fn m_plain(x: V) -> bool { items(x).len() == 2 && items(x)[0] == V::List(seq![s("plain_response")]) && items(x)[1] is Str }
pub open spec fn m_history(x: V) -> bool { items(x).len() == 3 && at(x, "historyLocation") && items(x)[2] == call("get", Seq::empty()) }
pub open spec fn m_env(x: V) -> bool { items(x).len() == 2 && items(x)[0] == api() && calls(items(x)[1], "get_env", 1) && p(items(x)[1], 0) is Str }
pub open spec fn m_history_add(x: V) -> bool { at_call(x, "historyLocation") && calls(items(x)[2], "add", 1) && is_u64(p(items(x)[2], 0)) }
pub open spec fn m_bulk(x: V) -> bool { at_call(x, "dom") && calls(items(x)[2], "dom_bulk_update", 1) && is_json(p(items(x)[2], 0)) }
pub open spec fn m_log(x: V) -> bool {
    items(x).len() == 3 && items(x)[0] == root("window") && items(x)[1] == get("console") && is_call(items(x)[2]) && items(items(x)[2]).len() == 6
        && forall|i: int| 1 <= i < 6 ==> #[trigger] items(items(x)[2])[i] is Str
}
pub open spec fn m_now(x: V) -> bool { items(x).len() == 3 && items(x)[0] == root("window") && items(x)[1] == get("Date") && items(x)[2] == call("now", Seq::empty()) }
pub open spec fn sets_timeout(c: V) -> bool { items(c).len() >= 2 && items(c)[1] == s("timeout_set") }
pub open spec fn m_interval(x: V) -> bool {
    at_call(x, "interval") && (sets_timeout(items(x)[2]) ==> items(items(x)[2]).len() >= 4 && is_u32(p(items(x)[2], 0)) && is_u64(p(items(x)[2], 1)))
}
pub open spec fn body_ok(b: V) -> bool { b is Str || b is Other && (b->Other_0 is Json || b->Other_0 is Vec || b->Other_0 is Undefined) }
pub open spec fn is_fetch(c: V) -> bool {
    calls(c, "fetch_send_request", 5) && is_u64(p(c, 0)) && p(c, 1) is Str && p(c, 2) is Str && is_json(p(c, 3))
        && headers_of(p(c, 3)->Other_0->Json_0) is Some && body_ok(p(c, 4))
}
pub open spec fn m_fetch(x: V) -> bool { at_call(x, "fetch") && is_fetch(items(x)[2]) }

// the server's host function: the first form that fits
pub open spec fn answer(x: V, url: Seq<char>, env: Map<String, String>) -> Answer {
    let c = items(x)[2];
    if at(x, "cookie") { quiet(Reply::Nothing) }
    else if m_plain(x) { tell(Told::Plain(items(x)[1]->Str_0)) }
    else if m_history(x) { quiet(Reply::Text(url)) }
    else if m_env(x) { quiet(env_reply(env, p(items(x)[1], 0)->Str_0)) }
    else if m_history_add(x) { quiet(Reply::Nothing) }
    else if m_bulk(x) { tell(Told::Dom(p(c, 0)->Other_0->Json_0)) }
    else if m_log(x) { quiet(Reply::Nothing) }
    else if m_now(x) { quiet(Reply::Now) }
    else if m_interval(x) {
        if sets_timeout(c) {
            Answer { told: if p(c, 0)->Other_0->U32_0 == 0 { Some(Told::TimeoutZero(p(c, 1)->Other_0->U64_0)) } else { None }, reply: Reply::I32(0) }
        } else { quiet(Reply::Nothing) }
    }
    else if at(x, "websocket") { quiet(Reply::Nothing) }
    else if m_fetch(x) {
        tell(Told::Fetch { id: p(c, 0)->Other_0->U64_0, method: p(c, 1)->Str_0, url: p(c, 2)->Str_0, headers: headers_of(p(c, 3)->Other_0->Json_0)->0, body: p(c, 4) })
    }
    else if m_is_browser(x) { quiet(Reply::False) }
    else { quiet(Reply::Nothing) }
}
pub open spec fn env_reply(env: Map<String, String>, name: Seq<char>) -> Reply {
    if exists|k: String| k@ == name && #[trigger] env.dom().contains(k) {
        Reply::Text(env[choose|k: String| k@ == name && #[trigger] env.dom().contains(k)]@)
    } else { Reply::Null }
}
