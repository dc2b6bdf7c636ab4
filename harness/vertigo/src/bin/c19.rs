//! Lazy caches against a scripted host: clock, timers and answers are moved by the case.
//! "cache C ttl" | "read C K" | "watch C" | "unwatch C" | "force C K 0/1" | "res A B" (operations on results) | "update C K loading force" | "forget C K" |
//! "adv MS" | "step" (oldest timer) | "ok C N" | "status C S" | "text C" | "fail C"
use hx_vertigo::wire::bytes;
use hx_vertigo::{Rd, J, W};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use vertigo::{transaction, DropResource, LazyCache, RequestBody, RequestBuilder, Resource, ToComputed, Value};

#[derive(Default)]
struct Host {
    now: i64,
    next: i32,
    timers: VecDeque<(i32, u64)>,
    // callback, method, url, headers and body
    requests: Vec<(u64, String, String, Vec<W>)>,
}
type H = Rc<RefCell<Host>>;
fn strs(w: &W) -> Vec<&str> {
    match w {
        W::List(l) => l.iter().filter_map(|x| if let W::Str(s) = x { Some(s.as_str()) } else { None }).collect(),
        _ => vec![],
    }
}
fn host() -> H {
    let h: H = Default::default();
    let g = h.clone();
    vertigo::verif_hooks::set_host(move |b| {
        let W::List(steps) = (Rd { b, p: 0 }).w()? else { return None };
        let W::List(last) = steps.last()? else { return None };
        let name = strs(steps.last()?).get(1).copied().unwrap_or("").to_string();
        let mut h = g.borrow_mut();
        let id = last.iter().find_map(|x| if let W::U64(n) = x { Some(*n) } else { None });
        match name.as_str() {
            "now" => Some(bytes(&W::I64(h.now))),
            "timeout_set" => {
                h.next += 1;
                let n = h.next;
                h.timers.push_back((n, id?));
                Some(bytes(&W::I32(n)))
            }
            "interval_clear" => {
                let n = last.iter().find_map(|x| if let W::I32(n) = x { Some(*n) } else { None })?;
                h.timers.retain(|t| t.0 != n);
                None
            }
            "fetch_send_request" => {
                let s = strs(steps.last()?);
                h.requests.push((id?, s.get(2)?.to_string(), s.get(3)?.to_string(), last[last.len().saturating_sub(2)..].to_vec()));
                None
            }
            _ => None,
        }
    });
    h
}
// the request of cache c: method, headers, body
fn built(c: u64) -> (&'static str, Vec<W>) {
    let obj = |l: &[(&str, &str)]| W::Json(J::Obj(l.iter().map(|(k, v)| (k.to_string(), J::Str(v.to_string()))).collect()));
    if c % 2 == 0 {
        ("GET", vec![obj(&[("X-One", "b"), ("x-two", "ü"), ("Authorization", &format!("Bearer tok {c}"))]), W::Undef])
    } else {
        ("POST", vec![obj(&[("K", "v"), ("L", "w")]), W::Json(J::List(vec![J::Num(1f64.to_bits()), J::Num((c as f64).to_bits())]))])
    }
}
fn res(s: &str) -> Option<Resource<i64>> {
    Some(match s.get(..1)? {
        "L" => Resource::Loading,
        "R" => Resource::Ready(s[1..].parse().ok()?),
        "E" => Resource::Error(s[1..].to_string()),
        _ => return None,
    })
}
// the operations on results
fn results(a: &Resource<i64>, b: &Resource<i64>) -> hx_core::Res {
    let plain = |r: &Resource<i64>| match r {
        Resource::Loading => (0, 0, String::new()),
        Resource::Ready(n) => (1, *n, String::new()),
        Resource::Error(e) => (2, 0, e.clone()),
    };
    let want = |r: &Resource<i64>| match plain(r) {
        (1, n, e) => (1, n + 1, e),
        x => x,
    };
    fn next(r: Resource<i64>) -> Resource<i64> {
        let n = r?;
        Resource::Ready(n + 1)
    }
    if (a == b) != (plain(a) == plain(b)) {
        return Err(format!("{a:?} == {b:?} is {}", a == b));
    }
    for r in [a, b] {
        for (name, got) in [("map", r.clone().map(|n| n + 1)), ("ref_map", r.ref_map(|n| n + 1)), ("?", next(r.ref_clone()))] {
            if plain(&got) != want(r) {
                return Err(format!("{r:?}: {name} gives {got:?}"));
            }
        }
        let c = r.to_computed();
        let v = Value::new(r.clone()).to_computed();
        let d = ToComputed::<Resource<Rc<i64>>>::to_computed(&v);
        for got in [transaction(|ctx| c.get(ctx)), transaction(|ctx| d.get(ctx))] {
            if plain(&got.ref_map(|n| **n)) != plain(r) {
                return Err(format!("{r:?}: to_computed gives {got:?}"));
            }
        }
    }
    Ok(())
}
fn call(id: u64, w: &W) {
    let p = vertigo::verif_hooks::stash(&bytes(w));
    vertigo::wasm_callback(id, p);
}
#[derive(Clone, Debug, PartialEq)]
enum Shown {
    Loading,
    Ready(i64),
    Error(String),
}
fn shown(r: &Resource<Rc<i64>>) -> Shown {
    match r {
        Resource::Loading => Shown::Loading,
        Resource::Ready(n) => Shown::Ready(**n),
        Resource::Error(e) => Shown::Error(if e.contains("nojson") { "nojson".into() } else if e.contains("offline") { "offline".into() } else { e.clone() }),
    }
}
// what the statement says, run
#[derive(Clone, PartialEq)]
enum Phase {
    Idle,
    Scheduled(bool, bool),
    Flight,
    Answered(Shown),
}
struct Model {
    ttl: Option<u64>,
    // None: no result
    value: Option<(Shown, Option<u64>)>,
    phase: Phase,
    sent: usize,
    watched: bool,
    last: Option<Shown>,
    told: Vec<Shown>,
}
impl Model {
    fn shown(&self) -> Shown {
        self.value.as_ref().map(|v| v.0.clone()).unwrap_or(Shown::Loading)
    }
    fn stale(&self, now: u64) -> bool {
        match &self.value {
            None => true,
            Some((_, e)) => e.is_some_and(|e| now > e),
        }
    }
    // gives whether an update was scheduled
    fn update(&mut self, loading: bool, force: bool) -> bool {
        if self.phase != Phase::Idle {
            return false;
        }
        self.phase = Phase::Scheduled(loading, force);
        true
    }
    fn read(&mut self, now: u64) -> bool {
        self.stale(now) && self.update(false, false)
    }
    // a watcher reads again whenever the result is replaced
    fn set(&mut self, v: Option<(Shown, Option<u64>)>, now: u64) -> bool {
        self.value = v;
        if !self.watched {
            return false;
        }
        let s = self.shown();
        if self.last.as_ref() != Some(&s) {
            self.last = Some(s.clone());
            self.told.push(s);
        }
        self.read(now)
    }
}
struct Real {
    clones: Vec<LazyCache<i64>>,
    told: Rc<RefCell<Vec<Shown>>>,
    watch: Option<DropResource>,
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let h = host();
        h.borrow_mut().now = 1_700_000_000_000;
        let mut real: BTreeMap<u64, Real> = BTreeMap::new();
        let mut models: BTreeMap<u64, Model> = BTreeMap::new();
        // caches whose tasks are to be run, oldest first
        let mut tasks: VecDeque<u64> = VecDeque::new();
        for l in input.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| p.get(i).and_then(|s| s.parse::<u64>().ok());
            let now = h.borrow().now as u64;
            if p[0] == "res" {
                let (Some(a), Some(b)) = (p.get(1).and_then(|x| res(x)), p.get(2).and_then(|x| res(x))) else { return hx_core::invalid() };
                results(&a, &b).map_err(|e| format!("at `{l}` {e}"))?;
                continue;
            }
            if p[0] == "adv" {
                let Some(d) = n(1) else { return hx_core::invalid() };
                h.borrow_mut().now += d as i64;
                continue;
            }
            if p[0] == "step" {
                let t = h.borrow_mut().timers.pop_front();
                if t.is_some() != !tasks.is_empty() {
                    return Err(format!("at `{l}` {} task is waiting, expected {}", if t.is_some() { "a" } else { "no" }, tasks.len()));
                }
                let (Some((_, id)), Some(c)) = (t, tasks.pop_front()) else { continue };
                call(id, &W::Undef);
                let Some(m) = models.get_mut(&c) else { return hx_core::invalid() };
                match m.phase.clone() {
                    Phase::Scheduled(loading, force) => {
                        if force || m.stale(now) {
                            if loading {
                                m.set(Some((Shown::Loading, None)), now);
                            }
                            m.phase = Phase::Flight;
                            m.sent += 1;
                        } else {
                            m.phase = Phase::Idle;
                        }
                    }
                    Phase::Answered(s) => {
                        let e = m.ttl.map(|t| now + t * 1000);
                        m.set(Some((s, e)), now);
                        m.phase = Phase::Idle;
                    }
                    _ => return Err("the model is wrong: nothing to run".into()),
                }
            } else {
                let Some(c) = n(1) else { return hx_core::invalid() };
                if p[0] == "cache" {
                    if real.contains_key(&c) {
                        return hx_core::invalid();
                    }
                    let ttl = n(2);
                    let url = format!("/c{c}");
                    let mut r = if c % 2 == 0 {
                        RequestBuilder::get(url).set_header("X-One", "a").set_header("x-two", "ü").set_header("X-One", "b").bearer_auth(format!("tok {c}"))
                    } else {
                        let text = RequestBody::Text("old".into());
                        RequestBuilder::post(url).set_header("Gone", "1").headers([("K".to_string(), "v".to_string())].into()).set_header("L", "w").body(text).body_json(vec![1i64, c as i64])
                    };
                    if let Some(t) = ttl {
                        r = match t {
                            _ if t % 86_400 == 0 && t > 0 => r.ttl_days(t / 86_400),
                            _ if t % 3_600 == 0 && t > 0 => r.ttl_hours(t / 3_600),
                            _ if t % 60 == 0 && t > 0 => r.ttl_minutes(t / 60),
                            _ => r.ttl_seconds(t),
                        };
                    }
                    let cache: LazyCache<i64> = r.lazy_cache(|status, body: RequestBody| match status {
                        200 => Some(match body {
                            RequestBody::Text(_) => Err("nojson".into()),
                            b => b.into::<i64>(),
                        }),
                        500..=599 => Some(Err(format!("boom {status}"))),
                        _ => None,
                    });
                    if real.values().any(|r| r.clones[0] == cache) || cache.clone() != cache {
                        return Err("a cache and its clone are equal, two caches are not".into());
                    }
                    let clones = vec![cache.clone(), cache.clone(), cache];
                    real.insert(c, Real { clones, told: Default::default(), watch: None });
                    models.insert(c, Model { ttl, value: None, phase: Phase::Idle, sent: 0, watched: false, last: None, told: vec![] });
                    continue;
                }
                let (Some(m), Some(r)) = (models.get_mut(&c), real.get_mut(&c)) else { return hx_core::invalid() };
                let cache = r.clones[n(2).unwrap_or(0) as usize % 3].clone();
                let mut scheduled = false;
                match p[0] {
                    "read" => {
                        let got = shown(&transaction(|ctx| cache.get(ctx)));
                        let want = m.shown();
                        scheduled = m.read(now);
                        if got != want {
                            return Err(format!("at `{l}` the cache shows {got:?}, expected {want:?}"));
                        }
                    }
                    "watch" => {
                        if m.watched {
                            continue;
                        }
                        m.watched = true;
                        m.last = Some(m.shown());
                        m.told.push(m.shown());
                        scheduled = m.read(now);
                        let told = r.told.clone();
                        r.watch = Some(cache.to_computed().subscribe(move |v| told.borrow_mut().push(shown(&v))));
                    }
                    "unwatch" => {
                        m.watched = false;
                        r.watch = None;
                    }
                    "force" => {
                        let loading = n(3) == Some(1);
                        scheduled = m.update(loading, true);
                        cache.force_update(loading);
                    }
                    "update" => {
                        let (loading, force) = (n(3) == Some(1), n(4) == Some(1));
                        scheduled = m.update(loading, force);
                        cache.update(loading, force);
                    }
                    "forget" => {
                        scheduled = m.set(None, now);
                        cache.forget();
                    }
                    "ok" | "status" | "text" | "fail" => {
                        if m.phase != Phase::Flight {
                            continue;
                        }
                        let (good, status, body, s) = match p[0] {
                            "ok" => {
                                let Some(v) = n(2) else { return hx_core::invalid() };
                                (W::True, 200, W::Json(J::Num((v as f64).to_bits())), Shown::Ready(v as i64))
                            }
                            "status" => {
                                let Some(st) = n(2) else { return hx_core::invalid() };
                                let e = if (500..600).contains(&st) { format!("boom {st}") } else { format!("Unhandled response code {st}") };
                                if st == 200 {
                                    return hx_core::invalid();
                                }
                                (W::True, st as u32, W::Json(J::Null), Shown::Error(e))
                            }
                            "text" => (W::True, 200, W::Str("plain".into()), Shown::Error("nojson".into())),
                            _ => (W::False, 0, W::Str("offline".into()), Shown::Error("offline".into())),
                        };
                        let url = format!("/c{c}");
                        let id = h.borrow().requests.iter().rev().find(|x| x.2 == url).map(|x| x.0);
                        let Some(id) = id else { return Err(format!("at `{l}` no request of cache {c} is to be seen")) };
                        m.phase = Phase::Answered(s);
                        scheduled = true;
                        call(id, &W::List(vec![good, W::U32(status), body]));
                    }
                    _ => return hx_core::invalid(),
                }
                if scheduled {
                    tasks.push_back(c);
                }
            }
            for (c, m) in models.iter_mut() {
                let sent = h.borrow().requests.iter().filter(|x| x.2 == format!("/c{c}")).count();
                let (method, with) = built(*c);
                if let Some(x) = h.borrow().requests.iter().find(|x| x.2 == format!("/c{c}") && (x.1 != method || x.3 != with)) {
                    return Err(format!("after `{l}` cache {c} has sent {x:?}, built was {method} {with:?}"));
                }
                if sent != m.sent {
                    return Err(format!("after `{l}` cache {c} has sent {sent} requests, expected {}", m.sent));
                }
                let got = std::mem::take(&mut *real[c].told.borrow_mut());
                let want = std::mem::take(&mut m.told);
                if got != want {
                    return Err(format!("at `{l}` the watcher of cache {c} was told {got:?}, expected {want:?}"));
                }
            }
        }
        Ok(())
    })
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut all = vec![];
            for a in ["L", "R0", "R1", "R-5", "E", "Ex", "Eloading", "E1"] {
                for b in ["L", "R0", "R1", "E", "Ex", "Ey"] {
                    all.push(format!("res {a} {b}"));
                }
            }
            if !sink(all.join("\n")) {
                return;
            }
            let fixed = [
                "cache 0 300\nread 0 0\nread 0 1\nstep\nread 0 2\nok 0 7\nread 0 0\nstep\nread 0 1\nadv 300000\nread 0 0\nadv 1\nread 0 0\nread 0 1\nstep\nread 0 1\nok 0 8\nstep\nread 0 2\nstep",
                "cache 0 0\nwatch 0\nstep\nok 0 1\nstep\nread 0 0\nadv 1\nread 0 0\nstep\nfail 0\nstep\nread 0 1\nadv 1\nread 0 1\nstep\nok 0 4\nstep",
                "cache 0\nwatch 0\nstep\nstatus 0 404\nstep\nadv 900000000\nread 0 0\nforce 0 1 1\nforce 0 0 0\nstep\nread 0 0\nok 0 3\nstep\nforget 0 2\nstep\nok 0 5\nstep",
            ];
            for s in fixed {
                if !sink(s.into()) {
                    return;
                }
            }
            for ttl in [1u64, 59, 60, 61, 3599, 3600, 7200, 86400, 172800, 90061, 4_000_000_000, 864_000_000] {
                let ms = ttl * 1000;
                let s = format!("cache 0 {ttl}\nread 0 0\nstep\nadv 5000\nok 0 1\nadv 7\nstep\nadv {}\nread 0 0\nadv 1\nread 0 0\nstep\nadv 1\nread 0 0\nstep\nok 0 2\nstep\nread 0 0", ms - 1);
                if !sink(s) {
                    return;
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 200_000 } else { 5_000 };
            for _ in 0..n {
                let mut s = vec![];
                let caches = 1 + r.below(2);
                for c in 0..caches {
                    s.push(match r.below(4) {
                        0 => format!("cache {c}"),
                        1 => format!("cache {c} 0"),
                        2 => format!("cache {c} {}", 1 + r.below(5)),
                        _ => format!("cache {c} 60"),
                    });
                }
                let long = if r.chance(1, 20) { 150 } else { 40 };
                for _ in 0..6 + r.below(long) {
                    let (c, k) = (r.below(caches), r.below(3));
                    s.push(match r.below(20) {
                        0..=3 => format!("read {c} {k}"),
                        4..=8 => "step".into(),
                        9 => format!("watch {c}"),
                        10 => {
                            if r.chance(1, 3) {
                                format!("unwatch {c}")
                            } else {
                                format!("forget {c} {k}")
                            }
                        }
                        11 => format!("force {c} {k} {}", r.below(2)),
                        12 => format!("update {c} {k} {} {}", r.below(2), r.below(2)),
                        13 | 14 => format!("adv {}", *r.pick(&[1, 999, 1000, 1001, 2000, 5000, 59_999, 60_000, 60_001])),
                        15..=17 => format!("ok {c} {}", r.below(6)),
                        18 => format!("status {c} {}", *r.pick(&[204, 404, 500, 503])),
                        _ => format!("{} {c}", *r.pick(&["text", "fail"])),
                    });
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
