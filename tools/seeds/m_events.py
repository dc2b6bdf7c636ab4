import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
DE = "crates/vertigo/src/dom/dom_element.rs"
CB = "crates/vertigo/src/dom/callback.rs"
EVENTS = B.HOST + '''
use vertigo::{inspect::{log_start, log_take}, Computed, DomElement, DropFileEvent, DriverDomCommand, KeyDownEvent, Value};
fn el() -> DomElement {
    let _ = host();
    log_start();
    DomElement::new("p")
}
// the numbers under which listeners are added, and those taken back
fn listeners() -> (Vec<u64>, Vec<u64>) {
    let (mut a, mut b) = (vec![], vec![]);
    for c in log_take() {
        match c {
            DriverDomCommand::CallbackAdd { callback_id, .. } => a.push(callback_id.as_u64()),
            DriverDomCommand::CallbackRemove { callback_id, .. } => b.push(callback_id.as_u64()),
            _ => {}
        }
    }
    log_start();
    (a, b)
}
fn s(t: &str) -> Vec<u8> { let mut o = vec![11]; o.extend((t.len() as u32).to_be_bytes()); o.extend(t.as_bytes()); o }
fn v(t: &[u8]) -> Vec<u8> { let mut o = vec![10]; o.extend((t.len() as u32).to_be_bytes()); o.extend(t); o }
fn l(x: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![12]; o.extend((x.len() as u32).to_be_bytes()); for y in x { o.extend(y); } o }
fn undef() -> Vec<u8> { vec![9] }
fn fire(id: u64, data: Vec<u8>) -> u64 { let p = h::stash(&data); vertigo::wasm_callback(id, p) }
type Log<T> = Rc<RefCell<Vec<T>>>;
'''
DEPS = 'vertigo = { path = "@REPO@/crates/vertigo" }'
SEEDS = [
 dict(id="computed-handler-resolved-once", prop="C36",
  edits=[(CB, """                let callback = Rc::new(move || -> R {
                    let callback = current.get();

                    let Some(callback) = callback else {
                        unreachable!();
                    };

                    callback()
                });
""", """                // subscribing has set it already
                let Some(callback) = current.get() else {
                    unreachable!();
                };
""")],
  needs="a handler without parameters computed from a value, and an event after the value changed", breaks="the handler for the first value keeps running",
  deps=DEPS, main=EVENTS + '''fn main() {
    let (n, log) = (Value::new(1), Log::<i32>::default());
    let log2 = log.clone();
    let handler = n.to_computed().map(move |n| { let log = log2.clone(); Rc::new(move || log.borrow_mut().push(n)) as Rc<dyn Fn()> });
    let e = el().on_click(handler);
    let id = listeners().0[0];
    fire(id, undef());
    n.set(2);
    fire(id, undef());
    n.set(3);
    fire(id, undef());
    assert_eq!(*log.borrow(), vec![1, 2, 3]);
    drop(e);
}
'''),
 dict(id="change-to-empty-not-told", prop="C36",
  edits=[(DE, """            if let JsValue::String(text) = data {
                on_change(text);
            } else {
                log::error!("Invalid data: on_change: {data:?}");
            }
""", """            match data {
                // nothing was chosen
                JsValue::String(text) if text.is_empty() => {}
                JsValue::String(text) => on_change(text),
                data => log::error!("Invalid data: on_change: {data:?}"),
            }
""")],
  needs="a field that is cleared", breaks="the handler is not told that it is empty now",
  deps=DEPS, main=EVENTS + '''fn main() {
    let log = Log::<String>::default();
    let log2 = log.clone();
    let e = el().on_change(move |t: String| log2.borrow_mut().push(t));
    let id = listeners().0[0];
    for t in ["a", "", "b"] { fire(id, s(t)); }
    assert_eq!(*log.borrow(), vec!["a", "", "b"]);
    drop(e);
}
'''),
 dict(id="hook-listener-kept", prop="C36",
  edits=[(DE, """        let drop_event = DropResource::new(move || {
            self.driver
                .inner
                .dom
                .callback_remove(self.id_dom, name, callback_id);
            drop.off();
        });
""", """        let id_dom = self.id_dom;
        let dom = self.driver.inner.dom;
        let on_node = EVENTS_OF_NODES.contains(&name);

        let drop_event = DropResource::new(move || {
            if on_node {
                dom.callback_remove(id_dom, name, callback_id);
            }
            drop.off();
        });
"""), (DE, """/// A Real DOM representative - element kind
""", """const EVENTS_OF_NODES: [&str; 11] = [
    "click",
    "mousedown",
    "mouseup",
    "mouseenter",
    "mouseleave",
    "input",
    "change",
    "blur",
    "keydown",
    "drop",
    "load",
];

/// A Real DOM representative - element kind
""")],
  needs="an element with a hook for keys which is dropped", breaks="the browser keeps listening on the document for it",
  deps=DEPS, main=EVENTS + '''fn main() {
    let e = el().on_click(|| {}).hook_key_down(|_: KeyDownEvent| false);
    let (mut added, none) = listeners();
    assert_eq!((added.len(), none.len()), (2, 0));
    drop(e);
    let (_, mut gone) = listeners();
    added.sort();
    gone.sort();
    assert_eq!(added, gone);
}
'''),
 dict(id="drop-empty-files-lost", prop="C36",
  edits=[(DE, """                Ok(DropFileEvent::new(files))
""", """                // what could not be read comes without content
                Ok(DropFileEvent::new(
                    files.into_iter().filter(|file| !file.data.is_empty()).collect(),
                ))
""")],
  needs="an empty file among those dropped", breaks="the handler does not get it",
  deps=DEPS, main=EVENTS + '''fn main() {
    let log = Log::<(String, usize)>::default();
    let log2 = log.clone();
    let e = el().on_dropfile(move |f: DropFileEvent| log2.borrow_mut().extend(f.items.iter().map(|i| (i.name.clone(), i.data.len()))));
    let id = listeners().0[0];
    fire(id, l(&[l(&[l(&[s("a"), v(&[1, 2])]), l(&[s("b"), v(&[])]), l(&[s("c"), v(&[3])])])]));
    assert_eq!(*log.borrow(), vec![("a".to_string(), 2), ("b".to_string(), 0), ("c".to_string(), 1)]);
    drop(e);
}
'''),
]
