//! Whole pages, rendered by the server's own request function over a scripted guest, scripted answers and a schedule.
//! Lines, each a JSON list: ["page", root, [head, body, second body], env, sched, cut],
//! ["req", method, url, headers, body] or with [status, content type or null, text] or null as the answer of that url,
//! ["css", selector, rules] and the actions of the guest's first turn: ["p", text], ["fetch", request, [actions]],
//! ["later", [actions]], ["plain", text], ["panic", text or null], ["el", [name, name of a child …], attributes].
use crate::serve::mount_path::MountPathConfig;
use crate::serve::response_state::ContentType;
use crate::serve::server_state::ServerState;
use crate::App;
use reqwest::{Answer, Asked};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::task::Poll;
use vertigo::verif_hooks::{dom, flush_dom_changes};
use vertigo::{get_driver, DomId, FetchMethod, JsJson, RequestBody, RequestBuilder};

const WASM: &str = "/b/app.wasm";
const RUN: &str = "/b/run.js";

fn js(v: &Value) -> JsJson {
    match v {
        Value::Null => JsJson::Null,
        Value::Bool(true) => JsJson::True,
        Value::Bool(false) => JsJson::False,
        Value::Number(n) => JsJson::Number(n.as_f64().unwrap()),
        Value::String(s) if s == "$nan" => JsJson::Number(f64::NAN),
        Value::String(s) if s == "$inf" => JsJson::Number(f64::NEG_INFINITY),
        Value::String(s) => JsJson::String(s.clone()),
        Value::Array(l) => JsJson::List(l.iter().map(js).collect()),
        Value::Object(o) => JsJson::Object(o.iter().map(|(k, v)| (k.clone(), js(v))).collect()),
    }
}
// numbers the way they are sent
fn floats(v: &Value) -> Value {
    match v {
        Value::Number(n) => json!(n.as_f64().unwrap()),
        // what JSON has no number for
        Value::String(s) if s == "$nan" || s == "$inf" => Value::Null,
        Value::Array(l) => Value::Array(l.iter().map(floats).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), floats(v))).collect()),
        x => x.clone(),
    }
}
fn plain(j: &JsJson) -> Value {
    match j {
        JsJson::True => json!(true),
        JsJson::False => json!(false),
        JsJson::Null => Value::Null,
        JsJson::Number(x) => json!(x),
        JsJson::String(s) => json!(s),
        JsJson::List(l) => Value::Array(l.iter().map(plain).collect()),
        JsJson::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
    }
}
// JSON texts are compared by what they say
fn norm(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Err(_) => json!(b),
        Ok(t) => match serde_json::from_str::<Value>(t) {
            Ok(v) if v.is_array() || v.is_object() => json!([floats(&v)]),
            _ => json!(t),
        },
    }
}
const METHODS: [(&str, FetchMethod); 9] = [
    ("GET", FetchMethod::GET),
    ("HEAD", FetchMethod::HEAD),
    ("POST", FetchMethod::POST),
    ("PUT", FetchMethod::PUT),
    ("DELETE", FetchMethod::DELETE),
    ("CONNECT", FetchMethod::CONNECT),
    ("OPTIONS", FetchMethod::OPTIONS),
    ("TRACE", FetchMethod::TRACE),
    ("PATCH", FetchMethod::PATCH),
];
/// what the guest is told: status, kind, value
type Told = Option<(u32, Value)>;
fn kind(content_type: &Option<String>) -> &'static str {
    let Some(t) = content_type else { return "bin" };
    // not a readable header value
    if !t.chars().all(|c| c == '\t' || (' '..='~').contains(&c)) {
        return "bin";
    }
    match t.split(';').next().unwrap().trim().to_lowercase().as_str() {
        "application/json" => "json",
        "text/plain" => "text",
        _ => "bin",
    }
}
#[derive(Clone)]
struct Req {
    method: String,
    url: String,
    headers: BTreeMap<String, String>,
    body: Option<(String, Value)>,
    // the answer of this url, if it has one of its own
    reply: Option<Option<(u16, Option<String>, String)>>,
}
impl Req {
    fn read(l: &[Value]) -> Option<Req> {
        let body = match l.get(4)? {
            Value::Array(b) => Some((b.first()?.as_str()?.to_string(), b.get(1)?.clone())),
            _ => None,
        };
        if let Some((k, v)) = &body {
            if !(k == "json" || (k == "text" || k == "bin") && v.is_string()) {
                return None;
            }
        }
        let reply = match l.get(5) {
            None => None,
            Some(Value::Array(a)) => Some(Some((a.first()?.as_u64()? as u16, a.get(1)?.as_str().map(String::from), a.get(2)?.as_str()?.to_string()))),
            Some(_) => Some(None),
        };
        let method = l.get(1)?.as_str()?.to_string();
        if !METHODS.iter().any(|m| m.0 == method) {
            return None;
        }
        Some(Req {
            method,
            reply,
            url: l.get(2)?.as_str()?.to_string(),
            headers: l.get(3)?.as_array()?.iter().filter_map(|p| Some((p[0].as_str()?.to_string(), p[1].as_str()?.to_string()))).collect(),
            body,
        })
    }
    fn build(&self) -> RequestBuilder {
        let mut r = RequestBuilder::new(METHODS.iter().find(|m| m.0 == self.method).map(|m| m.1.clone()).unwrap(), self.url.clone());
        // a map of its own, filled one by one
        r = r.headers(HashMap::new());
        for (k, v) in &self.headers {
            r = r.set_header(k, v);
        }
        match &self.body {
            None => r,
            Some((k, v)) if k == "text" => r.body(RequestBody::Text(v.as_str().unwrap().into())),
            Some((k, v)) if k == "bin" => r.body(RequestBody::Binary(v.as_str().unwrap().bytes().collect())),
            Some((_, v)) => r.body(RequestBody::Json(js(v))),
        }
    }
    // what makes it the request it is
    fn id(&self) -> String {
        let b = self.body.as_ref().map(|(k, v)| (k, if k == "json" { floats(v) } else { v.clone() }));
        json!([self.method, self.url, self.headers, b]).to_string()
    }
    // how it goes out
    fn out(&self) -> String {
        let mut h: BTreeMap<String, String> = self.headers.iter().map(|(k, v)| (k.to_lowercase().trim().to_string(), v.clone())).collect();
        let kind = match self.body.as_ref().map(|b| b.0.as_str()) {
            Some("text") => Some("text/plain; charset=utf-8"),
            Some("json") => Some("application/json; charset=utf-8"),
            _ => None,
        };
        if let Some(k) = kind {
            h.entry("content-type".into()).or_insert(k.into());
        }
        let b = self.body.as_ref().map(|(k, v)| if k == "json" { norm(floats(v).to_string().as_bytes()) } else { norm(v.as_str().unwrap().as_bytes()) });
        json!([self.method, self.url, h, b]).to_string()
    }
    // what comes back over the network
    fn answer(&self) -> Option<Answer> {
        match &self.reply {
            Some(r) => r.clone().map(|(status, content_type, t)| Answer {
                status,
                content_type,
                // \u{FFFC} stands for a byte that is in no text
                body: t.split('\u{FFFC}').map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>().join(&0xffu8),
            }),
            None => answer(&self.out()).map(|(status, t)| Answer { status: status as u16, content_type: Some("text/plain".into()), body: t.into_bytes() }),
        }
    }
    // what the guest is to be told
    fn told(&self) -> Told {
        let a = self.answer()?;
        let v = match kind(&a.content_type) {
            "text" => json!(["text", String::from_utf8(a.body).ok()?]),
            "json" => json!(["json", floats(&serde_json::from_slice::<Value>(&a.body).ok()?)]),
            _ => json!(["bin", a.body]),
        };
        Some((a.status as u32, v))
    }
}
fn asked(a: &Asked) -> String {
    let h: BTreeMap<String, String> = a.headers.iter().cloned().collect();
    if h.len() != a.headers.len() {
        return format!("a header twice: {:?}", a.headers);
    }
    json!([a.method, a.url, h, a.body.as_ref().map(|b| norm(b))]).to_string()
}
fn sum(s: &str) -> u64 {
    s.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64))
}
fn answer(out: &str) -> Option<(u32, String)> {
    let n = sum(out);
    if n % 7 == 0 { None } else { Some((200 + (n % 3) as u32, format!("a{}", n % 100_000))) }
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    P(String),
    El(Vec<String>, Vec<(String, String)>),
    Plain(String),
    Panic(Option<String>),
    Cut,
}
#[derive(Default)]
struct Run {
    reqs: Vec<Req>,
    log: RefCell<Vec<Ev>>,
    sent: RefCell<Vec<String>>,
    asks: RefCell<Vec<usize>>,
    // callback order per request: number of the ask
    told: RefCell<Vec<usize>>,
    wrong: RefCell<Option<String>>,
    next: Cell<u64>,
    put: Cell<u64>,
}
fn act(run: &Rc<Run>, l: &[Value]) {
    for a in l {
        match a[0].as_str().unwrap_or("") {
            "p" => put(run, a[1].as_str().unwrap_or("x")),
            "el" => {
                let mut names: Vec<String> = a[1].as_array().cloned().unwrap_or_default().iter().filter_map(|n| n.as_str().map(String::from)).collect();
                // below the root, where no body is wanted
                if run.put.get() == 1 && names.first().is_some_and(|n| n == "body") {
                    names[0] = "div".into();
                }
                let attrs: BTreeMap<String, String> = strs(&a[2]).into_iter().collect();
                let attrs: Vec<(String, String)> = attrs.into_iter().collect();
                let mut last = DomId::from_u64(run.put.get());
                for (i, n) in names.iter().enumerate() {
                    let e = id(run);
                    dom::create_node(e, n);
                    if i == 0 {
                        for (k, v) in &attrs {
                            dom::set_attr(e, k, v);
                        }
                    }
                    dom::insert_before(last, e, None);
                    last = e;
                }
                if !names.is_empty() {
                    run.log.borrow_mut().push(Ev::El(names, attrs));
                }
                flush_dom_changes();
            }
            "fetch" => {
                let i = a[1].as_u64().unwrap_or(0) as usize;
                let Some(q) = run.reqs.get(i).cloned() else { continue };
                let nr = run.asks.borrow().len();
                run.asks.borrow_mut().push(i);
                let (run, then) = (run.clone(), a[2].as_array().cloned().unwrap_or_default());
                let rb = q.build();
                get_driver().spawn(async move {
                    let r = rb.call().await;
                    run.told.borrow_mut().push(nr);
                    let want = q.told();
                    let status = r.status();
                    let got = r.into(|s, b| {
                        Some(Ok((
                            s,
                            match b {
                                RequestBody::Text(t) => json!(["text", t]),
                                RequestBody::Json(j) => json!(["json", plain(&j)]),
                                RequestBody::Binary(b) => json!(["bin", b]),
                            },
                        )))
                    });
                    let got: Told = match (got, status) {
                        (Ok(x), _) => Some(x),
                        (Err(_), None) => None,
                        (Err(e), Some(s)) => Some((s, json!(["err", e]))),
                    };
                    if got != want {
                        let m = format!("ask {nr}, {}: answered with {got:?}, expected {want:?}", q.out());
                        run.wrong.borrow_mut().get_or_insert(m);
                    }
                    let t = match want {
                        Some((s, t)) => format!("{s} {}", sum(&t.to_string())),
                        None => "none".to_string(),
                    };
                    put(&run, &format!("{nr} {t}"));
                    act(&run, &then);
                });
            }
            "later" => {
                let (run, then) = (run.clone(), a[1].as_array().cloned().unwrap_or_default());
                get_driver().spawn(async move { act(&run, &then) });
            }
            "plain" => {
                let t = a[1].as_str().unwrap_or("").to_string();
                run.log.borrow_mut().push(Ev::Plain(t.clone()));
                let mut d = get_driver();
                d.plains(move |_| Some(t.clone()));
                d.try_get_plain();
            }
            "panic" => {
                let t = a[1].as_str();
                run.log.borrow_mut().push(Ev::Panic(t.map(String::from)));
                wasmtime::host_call(0, match t { Some(t) => t.as_bytes(), None => &[0xff, 0xfe] });
            }
            _ => {}
        }
    }
}
fn id(run: &Run) -> DomId {
    let i = run.next.get();
    run.next.set(i + 1);
    DomId::from_u64(i)
}
fn put(run: &Run, t: &str) {
    run.log.borrow_mut().push(Ev::P(t.to_string()));
    let (p, x) = (id(run), id(run));
    dom::create_node(p, "p");
    dom::create_text(x, t);
    dom::insert_before(p, x, None);
    dom::insert_before(DomId::from_u64(run.put.get()), p, None);
    flush_dom_changes();
}
struct Page {
    root: String,
    head: bool,
    body: bool,
    second: bool,
    env: Vec<(String, String)>,
    css: Vec<(String, String)>,
}
fn first_turn(run: &Rc<Run>, page: &Page, acts: &[Value]) {
    run.next.set(10);
    // commands are passed on at once from here (C16)
    vertigo::verif_hooks::fetch_start();
    vertigo::verif_hooks::fetch_stop();
    let root = DomId::root_id();
    run.put.set(1);
    if !page.root.is_empty() {
        dom::create_node(root, &page.root);
    }
    let under = |name: &str, on: bool| {
        let i = id(run);
        if on {
            dom::create_node(i, name);
            if !page.root.is_empty() {
                dom::insert_before(root, i, None);
            }
        }
        i
    };
    under("head", page.head);
    let b = under("body", page.body);
    under("body", page.body && page.second);
    if page.body {
        run.put.set(b.to_u64());
    } else if page.root.is_empty() {
        // a node that is nowhere
        let n = id(run);
        dom::create_node(n, "div");
        run.put.set(run.next.get() - 1);
    }
    for (s, v) in &page.css {
        dom::insert_css(s, v);
    }
    flush_dom_changes();
    act(run, acts);
}
/// status, kind, text
fn expected(page: &Page, evs: &[Ev], order: &[String]) -> (u16, bool, String) {
    let end = evs.iter().position(|e| !matches!(e, Ev::P(_) | Ev::El(..)));
    match end.map(|i| &evs[i]) {
        Some(Ev::Plain(t)) => return (200, false, t.clone()),
        Some(Ev::Panic(Some(t))) => return (500, false, t.clone()),
        Some(Ev::Panic(None)) => return (500, false, "panic message decoding problem".into()),
        _ => {}
    }
    if page.root.is_empty() {
        return (500, false, "Missing <html> element".into());
    }
    if page.root != "html" {
        return (500, false, format!("Missing <html> element, found {} instead", page.root));
    }
    if !page.body {
        return (500, false, "Missing <body> element".into());
    }
    let mut l = vec!["<!DOCTYPE html>".to_string()];
    let env: HashMap<&str, &str> = page.env.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let attrs: String = order.iter().map(|k| format!(" data-env-{k}=\"{}\"", env[k.as_str()])).collect();
    l.push(format!("<html{attrs}>"));
    if page.head {
        l.push("  <head>".into());
        l.push("  </head>".into());
    }
    l.push("  <body>".into());
    for (s, v) in &page.css {
        l.push(format!("    <style>{s} {{ {v} }}</style>"));
    }
    for e in &evs[..end.unwrap_or(evs.len())] {
        if let Ev::P(t) = e {
            l.push(format!("    <p>{t}</p>"));
        }
        if let Ev::El(names, attrs) = e {
            for (i, n) in names.iter().enumerate() {
                let a: String = attrs.iter().filter(|_| i == 0).map(|(k, v)| format!(" {k}=\"{v}\"")).collect();
                l.push(format!("{}<{n}{a}>", "  ".repeat(i + 2)));
            }
            for (i, n) in names.iter().enumerate().rev() {
                l.push(format!("{}</{n}>", "  ".repeat(i + 2)));
            }
        }
    }
    l.push(format!("    <script type=\"module\" data-vertigo-run-wasm=\"{WASM}\" src=\"{RUN}\">"));
    l.push("    </script>".into());
    l.push("  </body>".into());
    if page.second {
        l.push("  <body>".into());
        l.push("  </body>".into());
    }
    l.push("</html>".into());
    (200, true, l.join("\n"))
}
fn dir() -> String {
    // one scratch folder per run of the harness
    let d = std::env::temp_dir().join(format!("hx-pages-{}", std::process::id()));
    if !d.join("index.json").exists() {
        let _ = std::fs::create_dir_all(&d);
        let _ = std::fs::write(d.join("app.wasm"), b"");
        let tmp = d.join(format!("index.{:?}", std::thread::current().id()));
        let _ = std::fs::write(&tmp, json!({"run_js": RUN, "wasm": WASM}).to_string());
        let _ = std::fs::rename(&tmp, d.join("index.json"));
    }
    d.to_string_lossy().into_owned()
}
fn drop_dir() {
    let d = std::env::temp_dir().join(format!("hx-pages-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(d);
}
fn strs(v: &Value) -> Vec<(String, String)> {
    v.as_array().cloned().unwrap_or_default().iter().filter_map(|p| Some((p[0].as_str()?.to_string(), p[1].as_str()?.to_string()))).collect()
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || one(&input))
}
fn one(input: &str) -> hx_core::Res {
    let l: Vec<Vec<Value>> = match input.lines().map(serde_json::from_str::<Vec<Value>>).collect() {
        Ok(l) => l,
        Err(_) => return hx_core::invalid(),
    };
    let mut page = Page { root: "html".into(), head: true, body: true, second: false, env: vec![], css: vec![] };
    let (mut sched, mut cut): (Vec<u64>, Option<u64>) = (vec![], None);
    let mut run = Run::default();
    let mut acts = Vec::new();
    for x in l {
        match x.first().and_then(|v| v.as_str()).unwrap_or("") {
            "page" => {
                if x.len() < 6 {
                    return hx_core::invalid();
                }
                page.root = x[1].as_str().unwrap_or("html").into();
                page.head = x[2][0] == json!(true);
                page.body = x[2][1] == json!(true);
                page.second = page.body && x[2][2] == json!(true);
                let env: BTreeMap<String, String> = strs(&x[3]).into_iter().collect();
                page.env = env.into_iter().collect();
                sched = x[4].as_array().cloned().unwrap_or_default().iter().filter_map(|v| v.as_u64()).collect();
                cut = x[5].as_u64();
            }
            "req" => match Req::read(&x) {
                Some(r) => run.reqs.push(r),
                None => return hx_core::invalid(),
            },
            "css" => {
                let p = strs(&json!([[x.get(1), x.get(2)]]));
                page.css.extend(p);
            }
            _ => acts.push(Value::Array(x)),
        }
    }
    let run = Rc::new(run);
    let page = Rc::new(page);
    tokio::clear_tasks();
    let mount = MountPathConfig::new(dir()).map_err(|_| "the mount path is not read".to_string())?;
    let state = ServerState::new(mount, None, page.env.clone()).map_err(|_| "no server state".to_string())?;
    {
        let (run, page) = (run.clone(), page.clone());
        wasmtime::set_guest(App::running(move || first_turn(&run, &page, &acts)));
    }
    vertigo::verif_hooks::set_host(|b| wasmtime::host_call(1, b));
    {
        let run = run.clone();
        reqwest::set_answerer(move |a| {
            let d = asked(a);
            run.sent.borrow_mut().push(d.clone());
            // those with an answer of their own are known by their urls
            match run.reqs.iter().find(|q| q.reply.is_some() && q.url == a.url) {
                Some(q) => q.answer(),
                None => answer(&d).map(|(status, t)| Answer { status: status as u16, content_type: Some("text/plain".into()), body: t.into_bytes() }),
            }
        });
    }
    let mut fut = Box::pin(state.request("/x"));
    let mut step = 0u64;
    let mut timer: Option<usize> = None;
    let r = loop {
        if let Poll::Ready(r) = tokio::poll_once(fut.as_mut()) {
            break r;
        }
        if timer.is_none() {
            // the first task is the one that sleeps
            let t = tokio::tasks();
            tokio::run_task(t[0]);
            if !tokio::tasks().contains(&t[0]) {
                return Err("the first task of a page is not its time limit".into());
            }
            timer = Some(t[0]);
        }
        // a few tasks go on before the page does
        let n = 1 + sched.get(step as usize % sched.len().max(1)).map_or(0, |x| x % 3);
        let mut moved = false;
        for _ in 0..n {
            if cut == Some(step) {
                tokio::time::wake_sleepers();
                run.log.borrow_mut().push(Ev::Cut);
                tokio::run_task(timer.unwrap());
                moved = true;
            }
            let t: Vec<usize> = tokio::tasks().into_iter().filter(|x| Some(*x) != timer).collect();
            if !t.is_empty() {
                let k = sched.get(step as usize % sched.len().max(1)).copied().unwrap_or(0);
                tokio::run_task(t[k as usize / 3 % t.len()]);
                moved = true;
            }
            step += 1;
        }
        if !moved {
            return Err("the page waits though no request is on its way".into());
        }
    };
    drop(fut);
    if let Some(t) = timer {
        if tokio::time::sleeps() != [std::time::Duration::from_secs(10)] {
            return Err(format!("the time limit is {:?}", tokio::time::sleeps()));
        }
        if tokio::tasks().contains(&t) {
            return Err("the time limit goes on after the page was answered".into());
        }
    }
    if let Some(w) = run.wrong.borrow().clone() {
        return Err(w);
    }
    let evs = run.log.borrow().clone();
    let ended = evs.iter().any(|e| !matches!(e, Ev::P(_) | Ev::El(..)));
    // every distinct request once
    let asks = run.asks.borrow().clone();
    let mut distinct: BTreeMap<String, String> = BTreeMap::new();
    for i in &asks {
        let q = &run.reqs[*i];
        distinct.insert(q.id(), q.out());
    }
    let mut want: Vec<String> = distinct.values().cloned().collect();
    want.sort();
    let mut sent = run.sent.borrow().clone();
    sent.sort();
    if !ended && sent != want {
        return Err(format!("requests sent {sent:?}, expected {want:?}"));
    }
    if ended {
        let mut w = want.clone();
        for s in &sent {
            match w.iter().position(|x| x == s) {
                Some(i) => { w.remove(i); }
                None => return Err(format!("request {s} is sent, or sent twice; asked for {want:?}")),
            }
        }
    }
    // every ask once, those for one request in order
    let told = run.told.borrow().clone();
    let mut last: BTreeMap<String, usize> = BTreeMap::new();
    let mut seen = vec![false; asks.len()];
    for n in &told {
        if std::mem::replace(&mut seen[*n], true) {
            return Err(format!("ask {n} is answered twice"));
        }
        let k = run.reqs[asks[*n]].id();
        if last.insert(k, *n).is_some_and(|b| b > *n) {
            return Err(format!("ask {n} is answered after a later one for the same request"));
        }
    }
    if !ended && seen.contains(&false) {
        return Err(format!("asks {:?} are not answered", seen.iter().enumerate().filter(|x| !x.1).map(|x| x.0).collect::<Vec<_>>()));
    }
    // the answer
    let order: Vec<String> = {
        let line = r.body.lines().nth(1).unwrap_or("");
        let mut o: Vec<(usize, String)> = page.env.iter().map(|(k, _)| (line.find(&format!(" data-env-{k}=")).unwrap_or(0), k.clone())).collect();
        o.sort();
        o.into_iter().map(|x| x.1).collect()
    };
    let (status, html, text) = expected(&page, &evs, &order);
    let ok = r.status == if status == 200 { axum::http::StatusCode::OK } else { axum::http::StatusCode::INTERNAL_SERVER_ERROR };
    if !ok || (r.content_type == ContentType::Html) != html {
        return Err(format!("the page is answered with another status or kind than {status}, {}; its text is {:?}", if html { "html" } else { "text" }, r.body));
    }
    if r.body != text {
        return Err(format!("the answer is {:?}, expected {text:?}", r.body));
    }
    Ok(())
}
fn gen_acts(r: &mut hx_core::Rng, nreq: u64, depth: u32, burst: u64) -> Vec<Value> {
    let n = if depth == 0 && burst > 0 { burst } else { r.below(5) };
    (0..n)
        .map(|i| match r.below(12) {
            0..=2 if nreq > 0 || r.chance(1, 2) => json!(["p", format!("t{}", r.below(1000) + i * 1000)]),
            3..=8 if nreq > 0 => json!(["fetch", r.below(nreq), if depth < 2 { gen_acts(r, nreq, depth + 1, 0) } else { vec![] }]),
            9 | 10 => json!(["later", if depth < 2 { gen_acts(r, nreq, depth + 1, 0) } else { vec![] }]),
            0..=4 | 10 => json!([
                "el",
                (0..1 + r.below(3)).map(|_| *r.pick(&["div", "script", "body", "head", "html", "section", "style", "title", "main", "x-y"])).collect::<Vec<_>>(),
                (0..r.below(3)).map(|_| json!([*r.pick(&["type", "src", "id", "data-env-e0", "data-vertigo-run-wasm", "class"]), *r.pick(&["module", "v1", "", "/b/run.js"])])).collect::<Vec<_>>()
            ]),
            11 if r.chance(1, 12) => json!(["plain", format!("plain {}", r.below(100))]),
            11 if r.chance(1, 10) => json!(["panic", if r.chance(1, 4) { Value::Null } else { json!(format!("gone {}", r.below(100))) }]),
            _ => json!(["p", "z"]),
        })
        .collect()
}
/// which inputs: all of it (C32), without requests (C33), requests with answers of all kinds (C34)
#[derive(Clone, Copy, PartialEq)]
pub enum Of {
    Sharing,
    Page,
    Requests,
}
fn gen_json(r: &mut hx_core::Rng, d: u32) -> Value {
    match r.below(if d == 0 { 7 } else { 10 }) {
        0 => json!(null),
        1 => json!(r.chance(1, 2)),
        2 => json!(r.below(5)),
        3 => json!(f64::from_bits(r.next())),
        4 => json!(r.next()),
        5 => json!(-(r.below(1 << 60) as i64)),
        6 if r.chance(1, 2) => json!(*r.pick(&["1", "-7", "0.5", "9007199254740993", "18446744073709551615", "340282366920938463463374607431768211456", "1e3", "true", "null", "NaN", "[1]", "{}", "2024-01-01", " 1", "\"q\""])),
        6 => json!(*r.pick(&["", "a", "\u{0}", "é😀", "\"\\", "</script>", "\u{7f}\u{2028}"])),
        7 => Value::Array((0..r.below(5)).map(|_| gen_json(r, d - 1)).collect()),
        _ => Value::Object((0..r.below(5)).map(|_| (r.pick(&["", "a", "b", "é", "A ", "\n"]).to_string(), gen_json(r, d - 1))).collect()),
    }
}
// a request of every method and its answer, each url its own
fn gen_requests(r: &mut hx_core::Rng, i: u64, l: &mut Vec<Value>) -> u64 {
    let types = [
        "text/plain", "text/plain; charset=utf-8", " Text/Plain ;x", "TEXT/PLAIN", "application/json", "Application/JSON;charset=utf-8", " application/json ", "application/json;",
        "text/html", "application/octet-stream", "", ";text/plain", "text/plain, application/json", "text/plain é", "application/jsonp", "text", "json", "image/png;application/json",
    ];
    let n = 1 + r.below(3);
    for k in 0..n {
        let mut h = BTreeMap::new();
        for _ in 0..r.below(5) {
            h.insert(*r.pick(&["Accept", "x-a", " X-B ", "X-C", "authorization", "é"]), r.pick(&["1", "", " a b ", "é"]).to_string());
        }
        if r.chance(1, 3) {
            h.insert(*r.pick(&["Content-Type", "content-type", "CONTENT-TYPE ", "content-type "]), r.pick(&["text/csv", "application/json", "", "x"]).to_string());
        }
        let big = i % 50 == 49;
        let long = |r: &mut hx_core::Rng| "aé".repeat(if big { 30_000 + r.below(40_000) as usize } else { r.below(5) as usize });
        let body = match r.below(8) {
            0 | 1 => Value::Null,
            2 | 3 => json!(["text", long(r)]),
            4 => json!(["bin", long(r)]),
            5 => json!(["json", ["$nan", {"a": "$inf", "b": 1}]]),
            _ => json!(["json", gen_json(r, 3)]),
        };
        let answer = match r.below(14) {
            0 => Value::Null,
            _ => {
                let text = match r.below(8) {
                    0 => long(r),
                    1 => "\u{FFFC}".into(),
                    2 => format!("a\u{FFFC}{}", long(r)),
                    3 => (*r.pick(&["{", "nul", "1e999", "[1,]", "", "{\"a\":1}x", " null ", "\"a", "{\"a\":1,\"a\":2}", "0.1", "-0", "18446744073709551615", "123456789012345678901234567890"])).into(),
                    4 if big => Value::Array((0..30_000).map(|i| json!(i)).collect()).to_string(),
                    _ => gen_json(r, 4).to_string(),
                };
                let t = match r.below(8) {
                    0 => Value::Null,
                    1 | 2 => json!("application/json"),
                    _ => json!(*r.pick(&types)),
                };
                json!([*r.pick(&[200u16, 201, 204, 301, 400, 404, 500, 599, 999]), t, text])
            }
        };
        let h: Vec<Value> = h.into_iter().map(|(k, v)| json!([k, v])).collect();
        l.push(json!(["req", METHODS[r.below(9) as usize].0, format!("http://h/{k}?é"), h, body, answer]));
    }
    n
}
pub fn main(of: Of) {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let names = ["Accept", "x-a", "x-b", "x-c", "Content-Type", "authorization", "k1", "k2", "k3"];
            let mut i = 0u64;
            loop {
                i += 1;
                let mut l: Vec<Value> = Vec::new();
                let env: Vec<Value> = (0..r.below(4)).map(|i| json!([format!("e{i}"), format!("v{}", r.below(9))])).collect();
                let big = i % 40 == 39;
                let sched: Vec<u64> = (0..1 + r.below(20)).map(|_| r.below(1000)).collect();
                let root = if r.chance(1, 14) { *r.pick(&["div", "", "body"]) } else { "html" };
                let cut = if of != Of::Requests && r.chance(1, 6) { json!(r.below(8)) } else { Value::Null };
                l.push(json!(["page", root, [r.chance(5, 6), r.chance(12, 13), r.chance(1, 6)], env, sched, cut]));
                if of == Of::Requests {
                    let n = gen_requests(&mut r, i, &mut l);
                    l.extend((0..n).map(|k| json!(["fetch", k, []])));
                    let s: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                    if !sink(s.join("\n")) {
                        break;
                    }
                    continue;
                }
                let nreq = if of == Of::Page { 0 } else { r.below(5) };
                for _ in 0..nreq {
                    let headers: Vec<Value> = {
                        let mut h = BTreeMap::new();
                        for _ in 0..r.below(if big { 9 } else { 5 }) {
                            h.insert(*r.pick(&names), format!("h{}", r.below(3)));
                        }
                        h.into_iter().map(|(k, v)| json!([k, v])).collect()
                    };
                    let body = match r.below(6) {
                        0 | 1 => Value::Null,
                        2 => json!(["text", format!("b{}", r.below(3))]),
                        3 => json!(["bin", format!("b{}", r.below(3))]),
                        4 => json!(["json", {"a": r.below(3), "b": [1, null, {"c": true, "d": "x"}], "e": "y", "f": {}}]),
                        _ => json!(["json", (0..r.below(9)).map(|k| (format!("n{k}"), json!(r.below(2)))).collect::<serde_json::Map<_, _>>()]),
                    };
                    l.push(json!(["req", *r.pick(&["GET", "POST", "GET", "POST", "PUT"]), format!("/u{}", r.below(2)), headers, body]));
                }
                for k in 0..if big { 30 } else { r.below(3) } {
                    l.push(json!(["css", format!(".c{k}"), format!("color: c{}", r.below(9))]));
                }
                let burst = if big { 150 + r.below(150) } else { 0 };
                l.extend(gen_acts(&mut r, nreq, 0, burst));
                let s: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                if !sink(s.join("\n")) {
                    break;
                }
            }
        },
        check,
    );
    drop_dir();
}
