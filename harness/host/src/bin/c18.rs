//! Every call of the client library, made by the library and answered by the server's own host function.
//! One call per line, a JSON list: name and arguments.  The first line may be ["page", url, [[name, value]..]].
use hx_host::serve::html::RequestBody as SBody;
use hx_host::serve::wasm::{FetchResponse, Message};
use hx_host::Session;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use vertigo::{get_driver, FetchMethod, JsJson, RequestBody, RequestBuilder};

fn js(v: &Value) -> JsJson {
    match v {
        Value::Null => JsJson::Null,
        Value::Bool(true) => JsJson::True,
        Value::Bool(false) => JsJson::False,
        Value::Number(n) => JsJson::Number(n.as_f64().unwrap()),
        Value::String(s) => JsJson::String(s.clone()),
        Value::Array(l) => JsJson::List(l.iter().map(js).collect()),
        Value::Object(o) => JsJson::Object(o.iter().map(|(k, v)| (k.clone(), js(v))).collect()),
    }
}
/// ["text", s] | ["json", j] | ["bin", s]
fn body(v: &Value) -> Option<RequestBody> {
    match v[0].as_str() {
        Some("text") => Some(RequestBody::Text(v[1].as_str()?.to_string())),
        Some("json") => Some(RequestBody::Json(js(&v[1]))),
        Some("bin") => Some(RequestBody::Binary(v[1].as_str()?.bytes().rev().collect())),
        _ => None,
    }
}
fn sbody(b: &RequestBody) -> SBody {
    match b {
        RequestBody::Text(t) => SBody::Text(t.clone()),
        RequestBody::Json(j) => SBody::Json(j.clone()),
        RequestBody::Binary(b) => SBody::Binary(b.clone()),
    }
}
type Got = Rc<RefCell<Option<Result<(u32, SBody), String>>>>;
fn show(m: &[Message]) -> String {
    let s = format!("{m:?}");
    s.chars().take(400).collect()
}
fn nothing(s: &mut Session, what: &str) -> hx_core::Res {
    let t = s.told();
    if t.is_empty() {
        Ok(())
    } else {
        Err(format!("{what} is taken for {}", show(&t)))
    }
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> hx_core::Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} gives {got:?}, expected {want:?}"))
    }
}
fn one(s: &mut Session, c: &Value, url: &str, env: &HashMap<String, String>) -> hx_core::Res {
    let l = c.as_array().ok_or(hx_core::INVALID)?;
    let name = l.first().and_then(|x| x.as_str()).ok_or(hx_core::INVALID)?.to_string();
    let st = |i: usize| l.get(i).and_then(|x| x.as_str()).map(String::from).ok_or(hx_core::INVALID.to_string());
    let n = |i: usize| l.get(i).and_then(|x| x.as_u64()).ok_or(hx_core::INVALID.to_string());
    let what = c.to_string();
    match name.as_str() {
        "cookie_get" => {
            let a = st(1)?;
            same(&what, s.guest(move || get_driver().cookie_get(&a)), String::new())?;
            nothing(s, &what)
        }
        "cookie_get_json" => {
            let a = st(1)?;
            same(&what, s.guest(move || get_driver().cookie_get_json(&a)), JsJson::Null)?;
            nothing(s, &what)
        }
        "cookie_set" => {
            let (a, b, e) = (st(1)?, st(2)?, n(3)?);
            s.guest(move || get_driver().cookie_set(&a, &b, e));
            nothing(s, &what)
        }
        "cookie_set_json" => {
            let (a, b, e) = (st(1)?, js(&l[2]), n(3)?);
            s.guest(move || get_driver().cookie_set_json(&a, b, e));
            nothing(s, &what)
        }
        "back" => {
            s.guest(|| get_driver().history_back());
            nothing(s, &what)
        }
        "replace" => {
            let a = st(1)?;
            s.guest(move || get_driver().history_replace(&a));
            nothing(s, &what)
        }
        "interval" => {
            let d = n(1)? as u32;
            s.guest(move || drop(get_driver().set_interval(d, || {})));
            nothing(s, &what)
        }
        "sleep" => {
            let d = n(1)? as u32;
            let fut = Rc::new(RefCell::new(s.guest(move || get_driver().sleep(d))));
            let done = |f: &Rc<RefCell<vertigo::FutureBox<()>>>| tokio::poll_once(Pin::new(&mut *f.borrow_mut())).is_ready();
            let t = s.told();
            match (&t[..], d) {
                ([Message::SetTimeoutZero { callback_id }], 0) => {
                    same("a sleep before its turn", done(&fut), false)?;
                    s.inst.as_mut().unwrap().wasm_callback(*callback_id, vertigo::JsValue::Undefined);
                    same("a sleep after its turn", done(&fut), true)
                }
                ([], d) if d > 0 => same("a sleep", done(&fut), false),
                _ => Err(format!("{what} is taken for {}", show(&t))),
            }
        }
        "now" => {
            let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64;
            let a = clock();
            let got = s.guest(|| get_driver().utc_now());
            let b = clock();
            if got < a || got > b {
                return Err(format!("the time {got} is not between {a} and {b}"));
            }
            nothing(s, &what)
        }
        "timezone" => {
            same(&what, s.guest(|| get_driver().timezone_offset()), 0)?;
            nothing(s, &what)
        }
        "random" => {
            let (a, b) = (n(1)? as u32, n(2)? as u32);
            s.guest(move || get_driver().get_random(a, b));
            nothing(s, &what)
        }
        "websocket" => {
            let a = st(1)?;
            s.guest(move || drop(get_driver().websocket(a, |_| {})));
            nothing(s, &what)
        }
        "browser" => {
            same(&what, s.guest(|| get_driver().is_browser()), false)?;
            nothing(s, &what)
        }
        "env" => {
            let a = st(1)?;
            let want = env.get(&a).cloned();
            same(&what, s.guest(move || get_driver().env(a)), want)?;
            nothing(s, &what)
        }
        "location" => {
            let router = s.guest(|| vertigo::router::Router::<String>::new_history_router());
            let r2 = router.clone();
            let got = s.guest(move || vertigo::transaction(|c| r2.route.get(c)));
            same(&what, got, url.to_string())?;
            nothing(s, &what)?;
            let at = st(1)?;
            s.guest(move || router.set(at));
            nothing(s, "a new location")
        }
        "hash" => {
            let router = s.guest(|| vertigo::router::Router::<String>::new_hash_router());
            nothing(s, &what)?;
            let at = st(1)?;
            s.guest(move || router.set(at));
            nothing(s, "a new hash")
        }
        "log" => {
            let a = st(1)?;
            let k = n(2)?;
            s.guest(move || {
                let d = get_driver().dom_access().root("window").get("console");
                d.call(["debug", "log", "info", "warn", "error"][k as usize % 5], vec![vertigo::JsValue::str(a), vertigo::JsValue::str(""), vertigo::JsValue::str(""), vertigo::JsValue::str("")]).exec()
            });
            nothing(s, &what)
        }
        "plain" => {
            let (a, b) = (st(1)?, st(2)?);
            let at = Rc::new(RefCell::new(String::new()));
            let (at2, a2, b2) = (at.clone(), a.clone(), b.clone());
            s.guest(move || {
                let mut d = get_driver();
                d.plains(move |u| {
                    *at2.borrow_mut() = u.to_string();
                    (a2 == u || a2.is_empty()).then(|| b2.clone())
                });
                d.try_get_plain();
            });
            same("the url of a plain response", at.borrow().clone(), url.to_string())?;
            let t = s.told();
            match &t[..] {
                [Message::PlainResponse(got)] if a.is_empty() || a == url => same(&what, got.clone(), b),
                [] if !a.is_empty() && a != url => Ok(()),
                _ => Err(format!("{what} is taken for {}", show(&t))),
            }
        }
        "dom" => {
            let (id, text) = (n(1)?, st(2)?);
            let t2 = text.clone();
            s.guest(move || {
                vertigo::verif_hooks::dom::create_text(vertigo::DomId::from_u64(id), &t2);
                vertigo::verif_hooks::flush_dom_changes();
            });
            let t = s.told();
            let want = js(&json!([{"type": "create_text", "id": id, "value": text}]));
            match t.into_iter().next() {
                Some(Message::DomUpdate(got)) => same(&what, got, want),
                other => Err(format!("{what} is taken for {other:?}")),
            }
        }
        "fetch" => {
            let (method, url) = (st(1)?, st(2)?);
            let m = match method.as_str() {
                "GET" => FetchMethod::GET,
                "POST" => FetchMethod::POST,
                "PUT" => FetchMethod::PUT,
                "DELETE" => FetchMethod::DELETE,
                _ => return hx_core::invalid(),
            };
            let headers: HashMap<String, String> =
                l.get(3).and_then(|x| x.as_array()).ok_or(hx_core::INVALID)?.iter().filter_map(|p| Some((p[0].as_str()?.to_string(), p[1].as_str()?.to_string()))).collect();
            let b = body(l.get(4).unwrap_or(&Value::Null));
            let (u2, h2, b2) = (url.clone(), headers.clone(), b.clone());
            let got: Got = Default::default();
            let g2 = got.clone();
            let fut: Pin<Box<dyn Future<Output = ()>>> = s.guest(move || {
                let mut rb = RequestBuilder::new(m, u2).headers(h2);
                if let Some(b) = b2 {
                    rb = rb.body(b);
                }
                let mut fut: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move {
                    let r = rb.call().await;
                    let status = r.status();
                    let r = r.into(|s, b| Some(Ok((s, sbody(&b)))));
                    if r.is_ok() != status.is_some() {
                        *g2.borrow_mut() = Some(Err("status and result disagree".into()));
                        return;
                    }
                    *g2.borrow_mut() = Some(r);
                });
                assert!(tokio::poll_once(fut.as_mut()).is_pending(), "a request is answered at once");
                fut
            });
            let mut t = s.told();
            if t.len() != 1 {
                return Err(format!("{what} is taken for {}", show(&t)));
            }
            let Message::FetchRequest { callback_id, request } = t.remove(0) else {
                return Err(format!("{what} is taken for something else"));
            };
            same("the method", request.method, method)?;
            same("the url", request.url, url)?;
            same("the headers", request.headers, headers)?;
            same("the body", request.body, b.as_ref().map(sbody))?;
            // the response
            let a = l.get(5).ok_or(hx_core::INVALID)?;
            let ok = a[0].as_bool().ok_or(hx_core::INVALID)?;
            let status = a[1].as_u64().ok_or(hx_core::INVALID)? as u32;
            let rb = body(&a[2]).ok_or(hx_core::INVALID)?;
            let mut fut = fut;
            s.inst.as_mut().unwrap().send_fetch_response(callback_id, FetchResponse { success: ok, status, body: sbody(&rb) });
            if tokio::poll_once(fut.as_mut()).is_pending() {
                return Err(format!("{what} is never answered"));
            }
            let r = got.borrow_mut().take().unwrap();
            match r {
                Ok(x) if ok => same("the response", x, (status, sbody(&rb)))?,
                Err(_) if !ok => {}
                other => return Err(format!("{what} gives {other:?}")),
            }
            nothing(s, "a response")
        }
        _ => hx_core::invalid(),
    }
}
fn check(input: &str) -> hx_core::Res {
    let mut l: Vec<Value> = match input.lines().map(serde_json::from_str::<Value>).collect() {
        Ok(l) => l,
        Err(_) => return hx_core::invalid(),
    };
    let mut url = "/".to_string();
    let mut env = Vec::new();
    if l.first().is_some_and(|x| x[0] == "page") {
        let p = l.remove(0);
        url = p[1].as_str().unwrap_or("/").to_string();
        env = p[2].as_array().cloned().unwrap_or_default().iter().filter_map(|p| Some((p[0].as_str()?.to_string(), p[1].as_str()?.to_string()))).collect();
    }
    hx_core::isolated(move || {
        let mut s = Session::new(&url, &env);
        let map: HashMap<String, String> = env.iter().cloned().collect();
        s.guest(|| {
            // an application without initial requests
            vertigo::verif_hooks::fetch_start();
            vertigo::verif_hooks::fetch_stop();
        });
        s.told();
        for c in &l {
            one(&mut s, c, &url, &map)?;
        }
        Ok(())
    })
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let words = ["", "a", "get", "add", "call", "root", "api", "isBrowser", "get_env", "plain_response", "timeout_set", "\u{e9}t\u{e9}", "/x?y=1#z", "\u{1F600} ", "null", "x-A", "long long long long"];
            let w = |r: &mut hx_core::Rng| -> String {
                if r.chance(1, 150) {
                    return ["\u{fc}x", "k"][r.below(2) as usize].repeat(*r.pick(&[43usize, 128, 256, 1100, 33_000]));
                }
                (0..1 + r.below(2)).map(|_| *r.pick(&words)).collect()
            };
            fn any(r: &mut hx_core::Rng, d: u32, w: &dyn Fn(&mut hx_core::Rng) -> String) -> Value {
                match r.below(if d == 0 { 5 } else { 7 }) {
                    0 => Value::Null,
                    1 => json!(r.chance(1, 2)),
                    2 => json!(*r.pick(&[0.0, 1.0, -1.5, 1e300, 4294967296.0, 9007199254740993.0])),
                    3 | 4 => json!(w(r)),
                    5 => Value::Array((0..r.below(3)).map(|_| any(r, d - 1, w)).collect()),
                    _ => Value::Object((0..r.below(3)).map(|_| (w(r), any(r, d - 1, w))).collect()),
                }
            }
            let body = |r: &mut hx_core::Rng| -> Value {
                match r.below(3) {
                    0 => json!(["text", w(r)]),
                    1 => json!(["bin", w(r)]),
                    _ => json!(["json", any(r, 2, &w)]),
                }
            };
            let n = if cfg.thorough { 600_000 } else { 20_000 };
            for _ in 0..n {
                let ne = if r.chance(1, 100) { *r.pick(&[20u64, 70, 300]) } else { r.below(4) };
                let env: Vec<Value> = (0..ne).map(|_| json!([w(&mut r), w(&mut r)])).collect();
                let mut l = vec![json!(["page", w(&mut r), env])];
                let num = |r: &mut hx_core::Rng| *r.pick(&[0u64, 0, 1, 2, 9, 255, 256, 65535, 4294967295]);
                for _ in 0..1 + r.below(7) {
                    l.push(match r.below(23) {
                        0 => json!(["cookie_get", w(&mut r)]),
                        1 => json!(["cookie_get_json", w(&mut r)]),
                        2 => json!(["cookie_set", w(&mut r), w(&mut r), num(&mut r)]),
                        3 => json!(["cookie_set_json", w(&mut r), any(&mut r, 2, &w), num(&mut r)]),
                        4 => json!(["back"]),
                        5 => json!(["replace", w(&mut r)]),
                        6 => json!(["interval", num(&mut r)]),
                        7 | 8 => json!(["sleep", num(&mut r)]),
                        9 => json!(["now"]),
                        10 => json!(["timezone"]),
                        11 => json!(["random", num(&mut r), num(&mut r)]),
                        12 => json!(["websocket", w(&mut r)]),
                        13 => json!(["browser"]),
                        14 | 15 => {
                            let e = l[0][2].as_array().unwrap();
                            let k = if e.is_empty() || r.chance(1, 3) { w(&mut r) } else { e[r.below(e.len() as u64) as usize][0].as_str().unwrap().into() };
                            json!(["env", k])
                        }
                        16 => json!(["location", w(&mut r)]),
                        17 => json!(["hash", w(&mut r)]),
                        18 => json!(["log", w(&mut r), r.below(5)]),
                        19 => json!(["plain", if r.chance(1, 2) { String::new() } else { w(&mut r) }, w(&mut r)]),
                        20 => json!(["dom", 1000 + r.below(9), w(&mut r)]),
                        _ => {
                            let nh = if r.chance(1, 60) { *r.pick(&[20u64, 70, 300]) } else { r.below(4) };
                            let h: Vec<Value> = (0..nh).map(|_| json!([w(&mut r), w(&mut r)])).collect();
                            let b = if r.chance(1, 4) { Value::Null } else { body(&mut r) };
                            let m = ["GET", "POST", "PUT", "DELETE"][r.below(4) as usize];
                            json!(["fetch", m, w(&mut r), h, b, [r.chance(3, 4), num(&mut r), body(&mut r)]])
                        }
                    });
                }
                let s: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                if !sink(s.join("\n")) {
                    break;
                }
            }
        },
        check,
    );
}
