import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
API = "crates/vertigo/src/driver_module/api/api_import.rs"
TASK = "crates/vertigo/src/driver_module/utils/futures_spawn.rs"
BOX = "crates/vertigo/src/future_box.rs"
DRIVER = "crates/vertigo/src/driver_module/driver.rs"
LATER = B.HOST + '''
use std::{future::Future, pin::Pin, task::{Context, Poll}};
use vertigo::{get_driver, router::Router, FutureBox, WebsocketMessage};
// a host that keeps timers, sockets and listeners, with the numbers to call
#[derive(Default)]
struct Js { next: i32, timers: Vec<(i32, u64)>, sockets: Vec<u64>, listeners: Vec<u64>, at: String }
type J = Rc<RefCell<Js>>;
type Log = Rc<RefCell<Vec<String>>>;
fn find(b: &[u8], x: &str) -> bool { b.windows(x.len()).any(|w| w == x.as_bytes()) }
fn s(t: &str) -> Vec<u8> { let mut o = vec![11]; o.extend((t.len() as u32).to_be_bytes()); o.extend(t.as_bytes()); o }
fn js(first: i32) -> J {
    let j: J = Default::default();
    j.borrow_mut().next = first;
    let k = j.clone();
    h::set_host(move |b| {
        let mut j = k.borrow_mut();
        let id = b[b.len() - 8..].iter().fold(0, |a, x| a << 8 | *x as u64);
        if find(b, "timeout_set") || find(b, "interval_set") {
            let n = j.next;
            j.next += 1;
            j.timers.push((n, id));
            return Some([vec![2u8], n.to_be_bytes().to_vec()].concat());
        }
        if find(b, "interval_clear") {
            let n = i32::from_be_bytes(b[b.len() - 4..].try_into().unwrap());
            j.timers.retain(|t| t.0 != n);
        } else if find(b, "websocket_register_callback") {
            j.sockets.push(id);
        } else if find(b, "websocket_unregister_callback") {
            j.sockets.retain(|x| *x != id);
        } else if find(b, "Location") || find(b, "hashRouter") {
            if find(b, "add") {
                j.listeners.push(id);
            } else if find(b, "remove") {
                j.listeners.retain(|x| *x != id);
            } else if find(b, "get") {
                return Some(s(&j.at));
            }
        }
        None
    });
    j
}
fn call(id: u64, b: &[u8]) {
    let p = h::stash(b);
    vertigo::wasm_callback(id, p);
}
// runs what is waiting, oldest first
fn run(j: &J) {
    for _ in 0..100 {
        if j.borrow().timers.is_empty() { return; }
        let t = j.borrow_mut().timers.remove(0);
        call(t.1, &[9]);
    }
}
struct Turn(bool);
impl Future for Turn {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 { return Poll::Ready(()); }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
'''
DEPS = 'vertigo = { path = "@REPO@/crates/vertigo" }'
SOCKET = '''fn socket(log: &Log) -> vertigo::DropResource {
    let log = log.clone();
    get_driver().websocket("ws://x", move |m| log.borrow_mut().push(match m {
        WebsocketMessage::Connection(_) => "up".to_string(),
        WebsocketMessage::Message(m) => format!("={m}"),
        WebsocketMessage::Close => "down".to_string(),
    }))
}
'''
SEEDS = [
 dict(id="socket-empty-message-closes", prop="C37",
  edits=[(API, """                    if let JsValue::String(message) = data {
                        callback(WebsocketMessage::Message(message));
                        return JsValue::Undefined;
                    }

                    if let JsValue::False = data {
                        callback(WebsocketMessage::Close);
""", """                    let data = match data {
                        JsValue::String(message) if !message.is_empty() => {
                            callback(WebsocketMessage::Message(message));
                            return JsValue::Undefined;
                        }
                        data => data,
                    };

                    if matches!(data, JsValue::False | JsValue::String(_)) {
                        callback(WebsocketMessage::Close);
""")],
  needs="an empty websocket message", breaks="it is taken for the end of the connection",
  deps=DEPS, main=LATER + SOCKET + '''fn main() {
    let (j, log) = (js(1), Log::default());
    let r = socket(&log);
    let id = j.borrow().sockets[0];
    call(id, &[6]);
    call(id, &s("a"));
    call(id, &s(""));
    call(id, &[7]);
    assert_eq!(*log.borrow(), ["up", "=a", "=", "down"]);
    drop(r);
    assert!(j.borrow().sockets.is_empty());
}
'''),
 dict(id="socket-reconnect-not-told", prop="C37",
  edits=[(API, """        let api = self.clone();

        let (callback_id, drop_callback) =
            self.callback_store
                .register_with_id(move |callback_id, data| {
                    if let JsValue::True = data {
                        let connection""", """        let api = self.clone();
        let connected = ValueMut::new(false);

        let (callback_id, drop_callback) =
            self.callback_store
                .register_with_id(move |callback_id, data| {
                    if let JsValue::True = data {
                        if connected.get() {
                            // it has this connection already
                            return JsValue::Undefined;
                        }
                        connected.set(true);

                        let connection""")],
  needs="a websocket that connects again after it was closed", breaks="its user is not told that it is open again",
  deps=DEPS, main=LATER + SOCKET + '''fn main() {
    let (j, log) = (js(1), Log::default());
    let _r = socket(&log);
    let id = j.borrow().sockets[0];
    for b in [6u8, 7, 6, 7] {
        call(id, &[b]);
    }
    assert_eq!(*log.borrow(), ["up", "down", "up", "down"]);
}
'''),
 dict(id="timer-negative-number-not-cleared", prop="C37",
  edits=[(API, """            0
        };

        let api = self.clone();

        DropResource::new(move || {
            api.dom_access()
                .api()
                .get("interval")
                .call("interval_clear", vec![JsValue::I32(timer_id)])
                .exec();

            drop_callback.off();
        })
    }

    pub fn timeout_set""", """            0
        };

        let api = self.clone();

        DropResource::new(move || {
            // 0 is not a timer
            if timer_id > 0 {
                api.dom_access()
                    .api()
                    .get("interval")
                    .call("interval_clear", vec![JsValue::I32(timer_id)])
                    .exec();
            }

            drop_callback.off();
        })
    }

    pub fn timeout_set""")],
  needs="an interval whose number at the host is not positive", breaks="the host is not told that it is over",
  deps=DEPS, main=LATER + '''fn main() {
    for first in [1, -5] {
        let (j, log) = (js(first), Log::default());
        let log2 = log.clone();
        let r = get_driver().set_interval(10, move || log2.borrow_mut().push("x".into()));
        let id = j.borrow().timers[0].1;
        call(id, &[9]);
        call(id, &[9]);
        assert_eq!(log.borrow().len(), 2);
        drop(r);
        assert!(j.borrow().timers.is_empty(), "the interval {first} goes on");
    }
}
'''),
 dict(id="history-last-slash-dropped", prop="C37",
  edits=[(API, """            let new_path = if let JsValue::String(new_path) = data {
                new_path
            } else {""", """            let new_path = if let JsValue::String(new_path) = data {
                match new_path.strip_suffix('/') {
                    Some(path) if !path.is_empty() => path.to_string(),
                    _ => new_path,
                }
            } else {""")],
  needs="a router observed while the location becomes one that ends with a slash", breaks="the route is made of another location than this",
  deps=DEPS, main=LATER + '''fn main() {
    let (j, log) = (js(1), Log::default());
    j.borrow_mut().at = "/start/".into();
    let router: Router<String> = Router::new_history_router();
    let log2 = log.clone();
    let r = router.route.subscribe(move |x| log2.borrow_mut().push(x));
    let id = j.borrow().listeners[0];
    for x in ["/", "/a", "/a/b/", ""] {
        call(id, &s(x));
    }
    assert_eq!(*log.borrow(), ["/start/", "/", "/a", "/a/b/", ""]);
    drop(r);
    assert!(j.borrow().listeners.is_empty());
}
'''),
 dict(id="box-first-value-stays", prop="C38",
  edits=[(BOX, """        self.inner.result.set(Some(result));
        if""", """        let waiting = self.inner.result.take();
        self.inner.result.set(waiting.or(Some(result)));
        if""")],
  needs="two values put into a box before anyone looks", breaks="whoever waits gets the old one",
  deps=DEPS, main=LATER + '''fn main() {
    let (j, log) = (js(1), Log::default());
    let (put, get) = FutureBox::<i32>::new();
    let log2 = log.clone();
    let get2 = get.clone();
    get_driver().spawn(async move {
        for _ in 0..3 {
            let x = get2.clone().await;
            log2.borrow_mut().push(x.to_string());
        }
    });
    run(&j);
    put.publish(1);
    run(&j);
    put.publish(2);
    put.publish(3);
    run(&j);
    assert_eq!(*log.borrow(), ["1", "3"]);
}
'''),
 dict(id="box-wakes-who-asked-first", prop="C38",
  edits=[(BOX, """                self.inner.waker.set(Some(cx.waker().clone()));
""", """                // the waker of a task stays the same
                let waker = self.inner.waker.take();
                self.inner
                    .waker
                    .set(waker.or_else(|| Some(cx.waker().clone())));
""")],
  needs="a box that is handed on to another task after it was waited for", breaks="the task that waits now is never woken",
  deps=DEPS, main=LATER + '''fn main() {
    let (j, log) = (js(1), Log::default());
    let (put, get) = FutureBox::<i32>::new();
    // the first task looks once and gives up
    struct Look(FutureBox<i32>);
    impl Future for Look {
        type Output = bool;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> { Poll::Ready(Pin::new(&mut self.0).poll(cx).is_ready()) }
    }
    let (log2, get2) = (log.clone(), get.clone());
    get_driver().spawn(async move {
        let there = Look(get2).await;
        log2.borrow_mut().push(there.to_string());
    });
    let log2 = log.clone();
    get_driver().spawn(async move {
        let x = get.await;
        log2.borrow_mut().push(x.to_string());
    });
    run(&j);
    put.publish(7);
    run(&j);
    assert_eq!(*log.borrow(), ["false", "7"]);
}
'''),
 dict(id="wake-up-while-running-lost", prop="C38",
  edits=[(TASK, """    inner: ValueMut<Option<Inner>>,
    api: ApiImport,
}
""", """    inner: ValueMut<Option<Inner>>,
    // it is on a timer already
    waiting: std::cell::Cell<bool>,
    api: ApiImport,
}
"""), (TASK, """            inner: ValueMut::new(None),
            api,
""", """            inner: ValueMut::new(None),
            waiting: std::cell::Cell::new(false),
            api,
"""), (TASK, """        let this_clone = this.clone();

        this.api.set_timeout_and_detach(0, move || {
            this_clone.run();
        });
""", """        if this.waiting.replace(true) {
            return;
        }

        let this_clone = this.clone();

        this.api.set_timeout_and_detach(0, move || {
            this_clone.run();
            this_clone.waiting.set(false);
        });
""")],
  needs="a task that is woken while it is being polled", breaks="it is never polled again",
  deps=DEPS, main=LATER + '''fn main() {
    let (j, log) = (js(1), Log::default());
    let log2 = log.clone();
    get_driver().spawn(async move {
        log2.borrow_mut().push("a".into());
        Turn(false).await;
        log2.borrow_mut().push("b".into());
        get_driver().sleep(5).await;
        log2.borrow_mut().push("c".into());
    });
    run(&j);
    assert_eq!(*log.borrow(), ["a", "b", "c"]);
}
'''),
 dict(id="sleep-zero-does-not-wait", prop="C38",
  edits=[(DRIVER, """        let (sender, future) = FutureBox::new();
        self.inner.api.set_timeout_and_detach(time""", """        let (sender, future) = FutureBox::new();
        if time == 0 {
            sender.publish(());
            return future;
        }
        self.inner.api.set_timeout_and_detach(time""")],
  needs="a task that sleeps 0 ms to let others go first", breaks="the others have to wait for it",
  deps=DEPS, main=LATER + '''fn main() {
    let (j, log) = (js(1), Log::default());
    for name in ["a", "b"] {
        let log = log.clone();
        get_driver().spawn(async move {
            for i in 0..2 {
                log.borrow_mut().push(format!("{name}{i}"));
                get_driver().sleep(0).await;
            }
        });
    }
    run(&j);
    assert_eq!(*log.borrow(), ["a0", "b0", "a1", "b1"]);
}
'''),
]
