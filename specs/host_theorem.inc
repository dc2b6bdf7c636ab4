// ---- every call the client makes, and the server's answer to it -----------------------------------------------------
proof fn lemma_names()
    ensures
        "api"@.len() == 3, "root"@.len() == 4, "get"@.len() == 3, "call"@.len() == 4, "window"@.len() == 6,
        "cookie"@.len() == 6, "historyLocation"@.len() == 15, "dom"@.len() == 3, "interval"@.len() == 8, "websocket"@.len() == 9, "fetch"@.len() == 5,
        "hashRouter"@.len() == 10, "console"@.len() == 7, "Date"@.len() == 4, "history"@.len() == 7, "console"@ != "history"@,
        "isBrowser"@.len() == 9, "get_env"@.len() == 7, "getRandom"@.len() == 9, "getTimezoneOffset"@.len() == 17, "isBrowser"@ != "getRandom"@,
        "push"@.len() == 4, "replace"@.len() == 7, "remove"@.len() == 6, "add"@.len() == 3, "get"@ != "add"@,
        "timeout_set"@.len() == 11, "interval_set"@.len() == 12, "interval_clear"@.len() == 14, "plain_response"@.len() == 14, "now"@.len() == 3,
        "call"@ != "root"@, "get"@ != "api"@,
{
    reveal_strlit("api"); reveal_strlit("root"); reveal_strlit("get"); reveal_strlit("call"); reveal_strlit("window");
    reveal_strlit("cookie"); reveal_strlit("historyLocation"); reveal_strlit("dom"); reveal_strlit("interval"); reveal_strlit("websocket"); reveal_strlit("fetch");
    reveal_strlit("hashRouter"); reveal_strlit("console"); reveal_strlit("Date"); reveal_strlit("history");
    reveal_strlit("isBrowser"); reveal_strlit("get_env"); reveal_strlit("getRandom"); reveal_strlit("getTimezoneOffset");
    reveal_strlit("push"); reveal_strlit("replace"); reveal_strlit("remove"); reveal_strlit("add");
    reveal_strlit("timeout_set"); reveal_strlit("interval_set"); reveal_strlit("interval_clear"); reveal_strlit("plain_response"); reveal_strlit("now");
    assert("console"@[0] == 'c' && "history"@[0] == 'h');
    assert("isBrowser"@[0] == 'i' && "getRandom"@[0] == 'g');
    assert("get"@[0] == 'g' && "add"@[0] == 'a' && "api"@[0] == 'a');
    assert("call"@[0] == 'c' && "root"@[0] == 'r');
}
proof fn lemma_get_ne(a: &str, b: &str)
    requires a@ != b@,
    ensures get(a) != get(b), root(a) != root(b),
{
    broadcast use {forms::lemma_root, forms::lemma_get};
    assert(seq![s("get"), s(a)][1] == s(a) && seq![s("get"), s(b)][1] == s(b));
    assert(seq![s("root"), s(a)][1] == s(a) && seq![s("root"), s(b)][1] == s(b));
}
proof fn lemma_call(n: &str, q: Seq<V>)
    ensures
        items(call(n, q)).len() == q.len() + 2, items(call(n, q))[0] == s("call"), items(call(n, q))[1] == s(n), is_call(call(n, q)), call(n, q) is List,
        forall|i: int| 0 <= i < q.len() ==> #[trigger] p(call(n, q), i) == q[i],
{
    broadcast use forms::lemma_callq;
}
proof fn lemma_call_ne(n: &str, q: Seq<V>, m: &str, r: Seq<V>)
    requires n@ != m@ || q != r,
    ensures call(n, q) != call(m, r),
{
    lemma_call(n, q);
    lemma_call(m, r);
    if call(n, q) == call(m, r) {
        assert(s(n) == s(m));
        assert forall|i: int| 0 <= i < q.len() implies q[i] == r[i] by { assert(p(call(n, q), i) == p(call(m, r), i)); }
        assert(q =~= r);
    }
}
// the same function of the host, whatever its parameters, is at no other place and is no direct call
proof fn lemma_place(g: &str, n: &str, q: Seq<V>)
    ensures
        ({
            let x = api_get_call(g, n, q);
            &&& items(x).len() == 3 && items(x)[0] == api() && items(x)[1] == get(g) && items(x)[2] == call(n, q)
            &&& forall|h: &str| h@ != g@ ==> !(#[trigger] at(x, h))
            &&& at(x, g) && at_call(x, g)
            &&& !m_plain(x) && !m_env(x) && !m_log(x) && !m_now(x) && !m_is_browser(x)
        }),
{
    let x = api_get_call(g, n, q);
    lemma_names();
    lemma_call(n, q);
    lemma_call("isBrowser", Seq::empty());
    assert forall|h: &str| h@ != g@ implies !(#[trigger] at(x, h)) by { lemma_get_ne(h, g); }
    broadcast use {forms::lemma_api, forms::lemma_root, forms::lemma_get};
    assert(items(get(g))[0] == s("get"));
    assert(items(api()).len() == 1);
    assert(items(root("window")).len() == 2);
    assert(s("get") != s("call"));
    assert(get(g) != call("isBrowser", Seq::empty()));
}
proof fn lemma_direct(n: &str, q: Seq<V>)
    ensures
        ({
            let x = api_call(n, q);
            &&& items(x).len() == 2 && items(x)[0] == api() && items(x)[1] == call(n, q)
            &&& forall|h: &str| !(#[trigger] at(x, h))
            &&& !m_plain(x) && !m_log(x) && !m_now(x) && !m_history(x) && !m_history_add(x) && !m_bulk(x) && !m_interval(x) && !m_fetch(x)
            &&& n@ != "isBrowser"@ ==> !m_is_browser(x)
            &&& n@ != "get_env"@ ==> !m_env(x)
        }),
{
    let x = api_call(n, q);
    lemma_names();
    lemma_call(n, q);
    lemma_call("isBrowser", Seq::empty());
    broadcast use {forms::lemma_api, forms::lemma_root, forms::lemma_get};
    assert forall|h: &str| !(#[trigger] at(x, h)) by { assert(items(get(h))[0] == s("get")); assert(s("get") != s("call")); }
    assert(items(root("window")).len() == 2);
    if n@ != "isBrowser"@ { lemma_call_ne(n, q, "isBrowser", Seq::empty()); }
    assert(x->List_0 =~= seq![api(), call(n, q)]);
    assert(is_call(call(n, q)));
}
// calls on objects of the window
proof fn lemma_window(o: &str, n: Seq<char>, q: Seq<V>)
    ensures
        ({
            let x = V::List(seq![root("window"), get(o), callq(n, q)]);
            &&& items(x).len() == 3 && items(x)[0] == root("window") && items(x)[1] == get(o) && items(x)[2] == callq(n, q)
            &&& forall|h: &str| !(#[trigger] at(x, h))
            &&& !m_plain(x) && !m_env(x) && !m_history(x) && !m_history_add(x) && !m_bulk(x) && !m_interval(x) && !m_fetch(x) && !m_is_browser(x)
            &&& o@ != "console"@ ==> !m_log(x)
            &&& o@ != "Date"@ ==> !m_now(x)
        }),
{
    let x = V::List(seq![root("window"), get(o), callq(n, q)]);
    lemma_names();
    if o@ != "console"@ { lemma_get_ne(o, "console"); }
    if o@ != "Date"@ { lemma_get_ne(o, "Date"); }
    broadcast use {forms::lemma_api, forms::lemma_root, forms::lemma_get};
    assert(items(root("window")).len() == 2 && items(api()).len() == 1);
    assert(x->List_0 =~= seq![root("window"), get(o), callq(n, q)]);
}

// The calls the server supports are recognised with their own parameters
proof fn theorem_answered(url: Seq<char>, env: Map<String, String>, n: &str, q: Seq<V>, id: u64, d: u32, j: JsJson, m: Seq<char>, u: Seq<char>, b: V, name: Seq<char>, k: Seq<char>, k1: &str, k2: &str, k3: &str, k4: &str)
    ensures
        // cookies and websockets are ignored on the server
        answer(api_get_call("cookie", n, q), url, env) == quiet(Reply::Nothing),
        answer(api_get_call("websocket", n, q), url, env) == quiet(Reply::Nothing),
        // the location of the page is that of the request; changes of it are never told
        answer(api_get_call("historyLocation", "get", Seq::empty()), url, env) == quiet(Reply::Text(url)),
        answer(api_get_call("historyLocation", "add", seq![u64v(id)]), url, env) == quiet(Reply::Nothing),
        // commands for the page reach it unchanged
        answer(api_get_call("dom", "dom_bulk_update", seq![jsonv(j)]), url, env) == tell(Told::Dom(j)),
        // a timer of no delay is told, other timers never fire on the server
        answer(api_get_call("interval", "timeout_set", seq![u32v(d), u64v(id)]), url, env)
            == (Answer { told: if d == 0 { Some(Told::TimeoutZero(id)) } else { None }, reply: Reply::I32(0) }),
        answer(api_get_call("interval", "interval_set", q), url, env) == quiet(Reply::Nothing),
        answer(api_get_call("interval", "interval_clear", q), url, env) == quiet(Reply::Nothing),
        // requests are told with all their parts
        headers_of(j) is Some && body_ok(b) ==>
            answer(c_fetch(id, m, u, j, b), url, env) == tell(Told::Fetch { id, method: m, url: u, headers: headers_of(j)->0, body: b }),
        // the environment, the kind of host, the clock, the console
        answer(c_env(name), url, env) == quiet(env_reply(env, name)),
        answer(c_is_browser(), url, env) == quiet(Reply::False),
        answer(c_now(), url, env) == quiet(Reply::Now),
        answer(c_console(k, k1, k2, k3, k4), url, env) == quiet(Reply::Nothing),
        answer(c_plain(name), url, env) == tell(Told::Plain(name)),
{
    lemma_names();
    lemma_place("cookie", n, q);
    lemma_place("websocket", n, q);
    lemma_place("historyLocation", "get", Seq::empty());
    lemma_added(id, url, env);
    lemma_bulk(j, url, env);
    lemma_timers(d, id, q, url, env);
    if headers_of(j) is Some && body_ok(b) { lemma_fetched(id, m, u, j, b, url, env); }
    lemma_env_asked(name, url, env);
    lemma_plain_told(name, url, env);
    lemma_logged(k, k1, k2, k3, k4, url, env);
    lemma_direct("isBrowser", Seq::empty());
    lemma_window("Date", "now"@, Seq::empty());
}
proof fn lemma_added(id: u64, url: Seq<char>, env: Map<String, String>)
    ensures answer(api_get_call("historyLocation", "add", seq![u64v(id)]), url, env) == quiet(Reply::Nothing),
{
    lemma_names();
    lemma_place("historyLocation", "add", seq![u64v(id)]);
    lemma_call("add", seq![u64v(id)]);
    lemma_call_ne("add", seq![u64v(id)], "get", Seq::empty());
    assert(p(call("add", seq![u64v(id)]), 0) == u64v(id));
}
proof fn lemma_bulk(j: JsJson, url: Seq<char>, env: Map<String, String>)
    ensures answer(api_get_call("dom", "dom_bulk_update", seq![jsonv(j)]), url, env) == tell(Told::Dom(j)),
{
    lemma_names();
    lemma_place("dom", "dom_bulk_update", seq![jsonv(j)]);
    lemma_call("dom_bulk_update", seq![jsonv(j)]);
    assert(p(call("dom_bulk_update", seq![jsonv(j)]), 0) == jsonv(j));
}
proof fn lemma_timers(d: u32, id: u64, q: Seq<V>, url: Seq<char>, env: Map<String, String>)
    ensures
        answer(api_get_call("interval", "timeout_set", seq![u32v(d), u64v(id)]), url, env)
            == (Answer { told: if d == 0 { Some(Told::TimeoutZero(id)) } else { None }, reply: Reply::I32(0) }),
        answer(api_get_call("interval", "interval_set", q), url, env) == quiet(Reply::Nothing),
        answer(api_get_call("interval", "interval_clear", q), url, env) == quiet(Reply::Nothing),
{
    lemma_names();
    let t = seq![u32v(d), u64v(id)];
    lemma_place("interval", "timeout_set", t);
    lemma_call("timeout_set", t);
    assert(p(call("timeout_set", t), 0) == u32v(d) && p(call("timeout_set", t), 1) == u64v(id));
    lemma_place("interval", "interval_set", q);
    lemma_call("interval_set", q);
    lemma_place("interval", "interval_clear", q);
    lemma_call("interval_clear", q);
}
proof fn lemma_fetched(id: u64, m: Seq<char>, u: Seq<char>, j: JsJson, b: V, url: Seq<char>, env: Map<String, String>)
    requires headers_of(j) is Some, body_ok(b),
    ensures answer(c_fetch(id, m, u, j, b), url, env) == tell(Told::Fetch { id, method: m, url: u, headers: headers_of(j)->0, body: b }),
{
    let q = seq![u64v(id), V::Str(m), V::Str(u), jsonv(j), b];
    let c = call("fetch_send_request", q);
    lemma_names();
    lemma_place("fetch", "fetch_send_request", q);
    lemma_call("fetch_send_request", q);
    assert(p(c, 0) == u64v(id) && p(c, 1) == V::Str(m) && p(c, 2) == V::Str(u) && p(c, 3) == jsonv(j) && p(c, 4) == b);
}
proof fn lemma_env_asked(name: Seq<char>, url: Seq<char>, env: Map<String, String>)
    ensures answer(c_env(name), url, env) == quiet(env_reply(env, name)),
{
    lemma_names();
    lemma_direct("get_env", seq![V::Str(name)]);
    lemma_call("get_env", seq![V::Str(name)]);
    assert(p(call("get_env", seq![V::Str(name)]), 0) == V::Str(name));
}
proof fn lemma_plain_told(body: Seq<char>, url: Seq<char>, env: Map<String, String>)
    ensures answer(c_plain(body), url, env) == tell(Told::Plain(body)),
{
    lemma_names();
    broadcast use forms::lemma_api;
    assert(items(c_plain(body))[0] == V::List(seq![s("plain_response")]));
    assert(seq![s("plain_response")][0] != seq![s("api")][0]);
    assert(items(c_plain(body))[0] != api());
}
proof fn lemma_logged(k: Seq<char>, a: &str, b: &str, c: &str, d: &str, url: Seq<char>, env: Map<String, String>)
    ensures answer(c_console(k, a, b, c, d), url, env) == quiet(Reply::Nothing),
{
    let q = seq![s(a), s(b), s(c), s(d)];
    lemma_names();
    lemma_window("console", k, q);
}
// The calls the server does not support are taken for no other call
proof fn theorem_unsupported(url: Seq<char>, env: Map<String, String>, n: &str, q: Seq<V>)
    ensures
        answer(api_get_call("hashRouter", n, q), url, env) == quiet(Reply::Nothing),
        n@ != "get"@ && n@ != "add"@ ==> answer(api_get_call("historyLocation", n, q), url, env) == quiet(Reply::Nothing),
        n@ != "get_env"@ && n@ != "isBrowser"@ ==> answer(api_call(n, q), url, env) == quiet(Reply::Nothing),
        answer(V::List(seq![root("window"), get("history"), call("back", Seq::empty())]), url, env) == quiet(Reply::Nothing),
{
    lemma_names();
    lemma_place("hashRouter", n, q);
    if n@ != "get"@ && n@ != "add"@ {
        lemma_place("historyLocation", n, q);
        lemma_call(n, q);
        lemma_call_ne(n, q, "get", Seq::empty());
    }
    lemma_direct(n, q);
    lemma_window("history", "back"@, Seq::empty());
}
