import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
LC = "crates/vertigo/src/fetch/lazy_cache.rs"
DEPS = 'vertigo = { path = "@REPO@/crates/vertigo" }'
LAZY = B.HOST + '''
use std::collections::VecDeque;
use vertigo::{transaction, LazyCache, RequestBuilder, Resource};
// a host with a clock, timers and requests that wait for their answers
#[derive(Default)]
struct Js { now: i64, next: i32, timers: VecDeque<(i32, u64)>, requests: Vec<u64> }
type J = Rc<RefCell<Js>>;
fn find(b: &[u8], x: &str) -> Option<usize> { b.windows(x.len()).position(|w| w == x.as_bytes()) }
// the first u64 after the name of the function
fn id_after(b: &[u8], p: usize, tag: u8, n: usize) -> u64 {
    let mut i = p;
    while b[i] != tag { i += 1; }
    b[i + 1..i + 1 + n].iter().fold(0, |a, x| a << 8 | *x as u64)
}
fn js() -> J {
    let j: J = Default::default();
    let k = j.clone();
    h::set_host(move |b| {
        let mut j = k.borrow_mut();
        if find(b, "Date").is_some() {
            return Some([vec![4u8], j.now.to_be_bytes().to_vec()].concat());
        }
        if let Some(p) = find(b, "timeout_set") {
            // after the name: u32 duration (5 bytes), u64 callback
            let id = id_after(b, p + "timeout_set".len() + 5, 3, 8);
            j.next += 1;
            let n = j.next;
            j.timers.push_back((n, id));
            return Some([vec![2u8], n.to_be_bytes().to_vec()].concat());
        }
        if let Some(p) = find(b, "interval_clear") {
            let n = id_after(b, p + "interval_clear".len(), 2, 4) as i32;
            j.timers.retain(|t| t.0 != n);
            return None;
        }
        if let Some(p) = find(b, "fetch_send_request") {
            let id = id_after(b, p + "fetch_send_request".len(), 3, 8);
            j.requests.push(id);
        }
        None
    });
    j
}
fn call(id: u64, b: &[u8]) {
    let p = h::stash(b);
    vertigo::wasm_callback(id, p);
}
fn run(j: &J) {
    loop {
        let t = j.borrow_mut().timers.pop_front();
        match t { Some((_, id)) => call(id, &[9]), None => return }
    }
}
// answers the oldest request with a JSON number, or with a failure
fn answer(j: &J, n: Option<f64>) {
    let id = j.borrow_mut().requests.remove(0);
    let mut b = vec![12, 0, 0, 0, 3];
    match n {
        Some(n) => { b.push(6); b.extend([1, 0, 0, 0, 200, 14, 5]); b.extend(n.to_be_bytes()); }
        None => { b.push(7); b.extend([1, 0, 0, 0, 0, 11, 0, 0, 0, 1, b'x']); }
    }
    call(id, &b);
    run(j);
}
fn cache(f: impl Fn(RequestBuilder) -> RequestBuilder) -> LazyCache<i64> {
    f(RequestBuilder::get("/n")).lazy_cache(|status, body| (status == 200).then(|| body.into::<i64>()))
}
// -1: loading, -2: an error
fn read(c: &LazyCache<i64>) -> i64 {
    match transaction(|ctx| c.get(ctx)) { Resource::Ready(n) => *n, Resource::Loading => -1, Resource::Error(_) => -2 }
}
fn waiting(j: &J) -> usize { run(j); j.borrow().requests.len() }
'''
SEEDS = [
 dict(id="lazy-forget-unlocks", prop="C19",
  edits=[(LC, """        self.value.set(ApiResponse::Uninitialized);
""", """        // so that the next access refreshes it
        self.queued.set(false);
        self.value.set(ApiResponse::Uninitialized);
""")],
  needs="the result dropped while a request is in flight, and a read after that", breaks="a second request is sent while one is in flight",
  deps=DEPS, main=LAZY + '''fn main() {
    let j = js();
    let c = cache(|b| b.ttl_seconds(300));
    assert_eq!(read(&c), -1);
    assert_eq!(waiting(&j), 1);
    c.forget();
    assert_eq!(read(&c), -1);
    assert_eq!(waiting(&j), 1, "a second request");
    answer(&j, Some(4.0));
    assert_eq!(read(&c), 4);
}
'''),
 dict(id="lazy-expiry-from-sending", prop="C19",
  edits=[(LC, """                let new_value = self_clone
                    .request
                    .call()
""", """                let expiry = self_clone
                    .request
                    .get_ttl()
                    .map(|ttl| get_driver().now().add_duration(ttl));

                let new_value = self_clone
                    .request
                    .call()
"""), (LC, """                let expiry = self_clone
                    .request
                    .get_ttl()
                    .map(|ttl| get_driver().now().add_duration(ttl));

                self_clone.value.set(ApiResponse::new(new_value, expiry));
""", """                self_clone.value.set(ApiResponse::new(new_value, expiry));
""")],
  needs="an answer that takes longer than the time to live", breaks="the result has expired when it arrives: every read sends another request",
  deps=DEPS, main=LAZY + '''fn main() {
    let j = js();
    let c = cache(|b| b.ttl_seconds(2));
    assert_eq!(read(&c), -1);
    assert_eq!(waiting(&j), 1);
    j.borrow_mut().now += 3000;
    answer(&j, Some(4.0));
    assert_eq!(read(&c), 4);
    assert_eq!(waiting(&j), 0, "asked again for a new result");
    j.borrow_mut().now += 2001;
    assert_eq!(read(&c), 4);
    assert_eq!(waiting(&j), 1);
}
'''),
 dict(id="lazy-ttl-in-32-bits", prop="C19",
  edits=[("crates/vertigo/src/instant.rs", "self.instant + time.as_millis() as u64", "self.instant + u64::from(time.as_millis() as u32)")],
  needs="a time to live of 50 days or more", breaks="the time to live is cut to 32 bits of milliseconds: the result expires weeks early",
  deps=DEPS, main=LAZY + '''fn main() {
    for (days, part) in [(2u64, 1i64), (90, 60)] {
        let j = js();
        let c = cache(|b| b.ttl_days(days));
        assert_eq!(read(&c), -1);
        assert_eq!(waiting(&j), 1);
        answer(&j, Some(4.0));
        j.borrow_mut().now += part * 86_400_000;
        assert_eq!(read(&c), 4);
        assert_eq!(waiting(&j), 0, "expired early");
    }
}
'''),
 dict(id="lazy-failed-keeps-old-expiry", prop="C19",
  edits=[(LC, """                let new_value = match new_value {
                    Ok(value) => Resource::Ready(Rc::new(value)),
                    Err(message) => Resource::Error(message),
                };
""", """                let new_value = match (new_value, api_response.get_value()) {
                    (Ok(value), _) => Resource::Ready(Rc::new(value)),
                    // a result that was good is not thrown away
                    (Err(_), Resource::Ready(value)) => Resource::Ready(value),
                    (Err(message), _) => Resource::Error(message),
                };
""")],
  needs="a refresh that fails after one that succeeded", breaks="the failed request does not replace the old result, which is shown as if it were fresh",
  deps=DEPS, main=LAZY + '''fn main() {
    let j = js();
    let c = cache(|b| b.ttl_seconds(2));
    assert_eq!(read(&c), -1);
    assert_eq!(waiting(&j), 1);
    answer(&j, Some(4.0));
    assert_eq!(read(&c), 4);
    c.force_update(false);
    assert_eq!(waiting(&j), 1);
    assert_eq!(read(&c), 4);
    answer(&j, None);
    assert_eq!(read(&c), -2);
}
'''),
]
