import os
CLI = "crates/vertigo-cli/src/serve/"
DR = "crates/vertigo/src/driver_module/"
CO = "crates/vertigo/src/computed/"
import importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
SERVE = '''#![allow(dead_code, unused_imports)]
mod serve {
    pub mod html {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum RequestBody { Text(String), Json(vertigo::JsJson), Binary(Vec<u8>) }
    }
    pub mod wasm {
        #[path = "@REPO@/crates/vertigo-cli/src/serve/wasm/decode_commands.rs"]
        pub mod decode_commands;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/wasm/get_now.rs"]
        pub mod get_now;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/wasm/js_value_match.rs"]
        pub mod js_value_match;
        #[path = "@REPO@/crates/vertigo-cli/src/serve/wasm/message.rs"]
        pub mod message;
        pub use message::{FetchRequest, FetchResponse, Message};
    }
}
use serve::{html::RequestBody as Got, wasm::decode_commands::*};
use vertigo::*;
'''
SEEDS = [
 dict(id="mount-prefix-twice", prop="C17",
  edits=[(CLI + "mount_path.rs", """    let Some(rest) = path.strip_prefix(public_path) else {
        log::error!(
            "Incorrect path http: path={path} (public_path={public_path}, dest_dir={dest_dir})"
        );
        return Err(-1);
    };
""", """    if !path.starts_with(public_path) {
        log::error!(
            "Incorrect path http: path={path} (public_path={public_path}, dest_dir={dest_dir})"
        );
        return Err(-1);
    }

    let rest = path.trim_start_matches(public_path);
""")],
  needs="a path which repeats the public root", breaks="the root is removed as often as it is repeated, so a nested file is looked up elsewhere",
  deps='''vertigo = { path = "@REPO@/crates/vertigo" }
serde = { version = "*", features = ["derive"] }
serde_json = "*"
log = "*"''',
  main='''#![allow(dead_code)]
mod commons { pub mod models {
    #[derive(serde::Serialize, serde::Deserialize, Debug)]
    pub struct IndexModel { pub run_js: String, pub wasm: String }
} }
#[path = "@REPO@/crates/vertigo-cli/src/serve/mount_path.rs"]
mod mount_path;
fn main() {
    let d = std::env::current_dir().unwrap().join("scratch_dest");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("index.json"), r#"{"run_js":"/build/run.js","wasm":"/build/a.wasm"}"#).unwrap();
    let dest = d.to_string_lossy().to_string();
    let c = mount_path::MountPathConfig::new(dest.clone()).unwrap();
    let got = c.translate_to_fs("/build/build/x.js");
    if got != Ok(format!("{dest}/build/x.js")) { eprintln!("{got:?}"); std::process::exit(1) }
}
'''),
 dict(id="host-empty-binary-body", prop="C18",
  edits=[(CLI + "wasm/decode_commands.rs", """        JsValue::Vec(buffer) => Ok(Some(RequestBody::Binary(buffer))),
        JsValue::Undefined => Ok(None),""", """        JsValue::Vec(buffer) if !buffer.is_empty() => Ok(Some(RequestBody::Binary(buffer))),
        JsValue::Vec(_) | JsValue::Undefined => Ok(None),""")],
  needs="a request made on the server whose body is binary and empty", breaks="the server sees a request without a body",
  deps='vertigo = { path = "@REPO@/crates/vertigo" }\nlog = "*"',
  main=SERVE + '''fn main() {
    let s = |x: &str| JsValue::str(x);
    let m = JsValue::List(vec![
        JsValue::List(vec![s("api")]),
        JsValue::List(vec![s("get"), s("fetch")]),
        JsValue::List(vec![s("call"), s("fetch_send_request"), JsValue::U64(7), s("POST"), s("/x"), JsValue::Json(JsJson::Object(Default::default())), JsValue::Vec(vec![])]),
    ]);
    match match_fetch(&m) { Ok((7, r)) if r.body == Some(Got::Binary(vec![])) => {}, other => { eprintln!("{other:?}"); std::process::exit(1) } }
}
'''),
 dict(id="client-url-fragment", prop="C18",
  edits=[(DR + "api/api_import.rs", """                    JsValue::String(url),
                    JsValue::Json(headers),""", """                    JsValue::String(match url.split_once('#') {
                        // a fragment is never sent
                        Some((url, _)) => url.into(),
                        None => url,
                    }),
                    JsValue::Json(headers),""")],
  needs="a request to a URL which contains the character #", breaks="the host is asked for another URL than the one the application gave",
  main=B.HOST + '''fn main() {
    let s = host();
    let f = vertigo::RequestBuilder::get("/list?color=#mark_a");
    let mut f = Box::pin(async move { f.call().await; });
    struct N;
    impl std::task::Wake for N { fn wake(self: std::sync::Arc<Self>) {} }
    let w = std::task::Waker::from(std::sync::Arc::new(N));
    let _ = std::future::Future::poll(f.as_mut(), &mut std::task::Context::from_waker(&w));
    if marks(&s, &["#mark_a"]).len() != 1 { std::process::exit(1) }
}
'''),
 dict(id="emitter-reuses-number", prop="C24",
  edits=[(DR + "event_emitter.rs", """        let id = self.counter.get_next();
""", """        // the lowest number that is free, the counter only bounds it
        let last = self.counter.get_next();
        let id = self.list.map(|state| (1..last).find(|id| !state.contains_key(id))).unwrap_or(last);
""")],
  needs="two listeners, the first of which is released before a third one is registered", breaks="listeners are no longer called in order of registration: the third listener comes before the second",
  main='''use std::{cell::RefCell, rc::Rc};
fn main() {
    let e = vertigo::verif_hooks::EventEmitter::<u32>::default();
    let l: Rc<RefCell<Vec<&str>>> = Default::default();
    let on = |n: &'static str| { let l = l.clone(); e.add(move |_| l.borrow_mut().push(n)) };
    let a = on("a");
    let _b = on("b");
    drop(a);
    let _c = on("c");
    e.trigger(1);
    let got = l.borrow().clone();
    if got != ["b", "c"] { eprintln!("{got:?}"); std::process::exit(1) }
}
'''),
 dict(id="callback-id-wraps", prop="C25",
  edits=[(DR + "api/callbacks.rs", """            COUNTER.fetch_add(1, Ordering::Relaxed)
""", """            // the JavaScript side keeps these in a table of 65536 entries
            COUNTER.fetch_add(1, Ordering::Relaxed) & 0xffff
""")],
  needs="more than 65 536 callbacks registered during the life of an earlier one", breaks="the identifier of a live callback is given to another one, which replaces it",
  main='''use std::{cell::Cell, rc::Rc};
use vertigo::JsValue;
fn main() {
    let c = vertigo::verif_hooks::Callbacks::default();
    let hit = Rc::new(Cell::new(0));
    let h = hit.clone();
    let (id, _a) = c.register(move |_| { h.set(h.get() + 1); JsValue::Undefined });
    for _ in 0..66_000 { let (_, d) = c.register(|_| JsValue::Null); drop(d); }
    c.call(id, JsValue::Null);
    if hit.get() != 1 { std::process::exit(1) }
}
'''),
 dict(id="auto-map-error-not-kept", prop="C28",
  edits=[(CO + "auto_map.rs", """        self.values.insert(key.clone(), new_item.clone());

        new_item""", """        // values of no size hold no data, there is nothing to keep
        if std::mem::size_of_val(&new_item) > 0 {
            self.values.insert(key.clone(), new_item.clone());
        }

        new_item""")],
  needs="a map whose values are of a type without data", breaks="the creation function is called at every read",
  main='''use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let map = vertigo::AutoMap::<u32, ()>::new(move |_, _| m.set(m.get() + 1));
    map.get(&1);
    map.get(&1);
    if n.get() != 1 { std::process::exit(1) }
}
'''),
]
