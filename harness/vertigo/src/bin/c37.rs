//! Timers, websockets and the location against a scripted host, which keeps what it was asked for and calls back.
//!   every K MS N   an interval; it lets go of itself at its Nth run (0: never)     off K      it is dropped
//!   sleep K MS     a task is started that sleeps twice                            tick I     timer I (modulo) of the host is due
//!   ws K HOST      a websocket is opened                                          wsoff K    it is dropped
//!   wsup K | wsmsg K TEXT | wsdown K | wsodd K N    what the host reports of it    say K TEXT | say2 K TEXT  something is sent on the (first) connection
//!   self K         the websocket lets go of itself at the next message
//!   route K h|p    a router is made and watched      unroute K | reroute K        nobody | somebody watches it
//!   go h|p TEXT    the location changes              to K TEXT | add K TEXT       the router is asked to go there (after where it is)
//!   odd K N        the host reports something else to timer, socket K or router
//!   late N         the host calls a number again which was let go of
use hx_core::Rng;
use hx_vertigo::wire::bytes;
use hx_vertigo::{Rd, W};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vertigo::router::Router;
use vertigo::{get_driver, transaction, DropResource, Value, WebsocketConnection, WebsocketMessage};

#[derive(Default)]
struct Host {
    next: i32,
    // number, repeating, milliseconds, callback
    timers: Vec<(i32, bool, u32, u64)>,
    sockets: BTreeMap<u64, String>,
    sent: Vec<(u64, String)>,
    listen: [Vec<u64>; 2],
    pushed: Vec<(usize, String)>,
    at: [String; 2],
    wrong: Option<String>,
    seen: BTreeSet<u64>,
}
type H = Rc<RefCell<Host>>;
fn text(w: Option<&W>) -> Option<&str> {
    match w {
        Some(W::Str(s)) => Some(s),
        _ => None,
    }
}
impl Host {
    fn fresh(&mut self, id: u64) {
        if !self.seen.insert(id) {
            self.wrong = Some(format!("the number {id} was used before"));
        }
    }
    fn ask(&mut self, last: &[W], path: &[&str]) -> Option<Option<W>> {
        let name = text(last.get(1))?;
        let args = &last[2..];
        let place = if path.contains(&"hashRouter") { 0 } else { 1 };
        Some(match (name, args) {
            ("isBrowser", []) => Some(W::True),
            ("interval_set" | "timeout_set", [W::U32(ms), W::U64(id)]) => {
                self.next += 1;
                // the host numbers as it likes
                let n = self.next * 7 - 30;
                self.timers.push((n, name == "interval_set", *ms, *id));
                self.fresh(*id);
                Some(W::I32(n))
            }
            ("interval_clear", [W::I32(n)]) => {
                self.timers.retain(|t| t.0 != *n);
                None
            }
            ("websocket_register_callback", [W::Str(host), W::U64(id)]) => {
                self.fresh(*id);
                self.sockets.insert(*id, host.clone());
                None
            }
            ("websocket_unregister_callback", [W::U64(id)]) => {
                if self.sockets.remove(id).is_none() {
                    self.wrong = Some(format!("there is no socket {id}"));
                }
                None
            }
            ("websocket_send_message", [W::U64(id), W::Str(s)]) => {
                self.sent.push((*id, s.clone()));
                None
            }
            ("add", [W::U64(id)]) => {
                self.fresh(*id);
                self.listen[place].push(*id);
                None
            }
            ("remove", [W::U64(id)]) => {
                let before = self.listen[place].len();
                self.listen[place].retain(|x| x != id);
                if before != self.listen[place].len() + 1 {
                    self.wrong = Some(format!("nobody listens as {id}"));
                }
                None
            }
            ("get", []) => Some(W::Str(self.at[place].clone())),
            ("push", [W::Str(s)]) => {
                self.pushed.push((place, s.clone()));
                None
            }
            _ => return None,
        })
    }
}
fn host() -> H {
    let h: H = Default::default();
    let g = h.clone();
    vertigo::verif_hooks::set_host(move |b| {
        let mut h = g.borrow_mut();
        let got = (Rd { b, p: 0 }).w();
        let Some(W::List(steps)) = &got else {
            h.wrong = Some(format!("unreadable message {b:?}"));
            return None;
        };
        let path: Vec<&str> = steps
            .iter()
            .filter_map(|s| if let W::List(l) = s { text(l.get(1)) } else { None })
            .collect();
        let Some(W::List(last)) = steps.last() else { return None };
        match h.ask(last, &path) {
            Some(r) => r.map(|r| bytes(&r)),
            None => {
                h.wrong = Some(format!("a message the host does not know: {got:?}"));
                None
            }
        }
    });
    h
}
fn call(id: u64, w: &W) -> u64 {
    let p = vertigo::verif_hooks::stash(&bytes(w));
    vertigo::wasm_callback(id, p)
}
#[derive(Clone, PartialEq, Debug)]
struct Place(String);
impl From<String> for Place {
    fn from(s: String) -> Place {
        Place(s)
    }
}
impl std::fmt::Display for Place {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
type Slot = Rc<RefCell<Option<DropResource>>>;
type Log = Rc<RefCell<Vec<String>>>;
#[derive(Clone, PartialEq)]
enum What {
    Every { k: u64, left: Option<u64> },
    Sleep { k: u64, ms: u32, second: bool },
    Run { k: u64, stage: u8, ms: u32 },
}
// a timer of the host as it is to be
struct Due {
    repeat: bool,
    ms: u32,
    what: What,
}
struct Socket {
    host: String,
    slot: Slot,
    open: bool,
    leave: Rc<RefCell<bool>>,
    connections: Rc<RefCell<Vec<WebsocketConnection>>>,
    id: u64,
}
struct Route {
    kind: usize,
    router: Router<Place>,
    watch: Option<DropResource>,
    known: String,
    id: Option<u64>,
    round: u64,
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || run(&input))
}
fn odd(n: u64) -> W {
    match n % 8 {
        0 => W::Undef,
        1 => W::Null,
        2 => W::I32(1),
        3 => W::U64(1),
        4 => W::List(vec![W::True]),
        5 => W::Vec(b"message".to_vec()),
        6 => W::F64(1.0f64.to_bits()),
        _ => W::List(vec![W::Str("message".into())]),
    }
}
fn run(input: &str) -> hx_core::Res {
    let h = host();
    let log: Log = Default::default();
    let (a, b) = (Value::new(0i64), Value::new(0i64));
    let sum = {
        let (a, b) = (a.to_computed(), b.to_computed());
        vertigo::Computed::from(move |c| a.get(c) + b.get(c))
    };
    let l2 = log.clone();
    let first = std::cell::Cell::new(true);
    let _sum = sum.subscribe(move |n| {
        if !first.replace(false) {
            l2.borrow_mut().push(format!("sum {n}"))
        }
    });
    let mut events = 0i64;
    // both values are changed, by different amounts
    let poke = move || {
        a.change(|x| *x += 1);
        b.change(|x| *x += 2);
    };
    let mut every: BTreeMap<u64, Slot> = BTreeMap::new();
    let mut socks: BTreeMap<u64, Socket> = BTreeMap::new();
    let mut routes: BTreeMap<u64, Route> = BTreeMap::new();
    let mut due: Vec<Due> = vec![];
    let mut gone: Vec<u64> = vec![];
    for (at, l) in input.lines().enumerate() {
        let p: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| p.get(i).and_then(|s| s.parse::<u64>().ok());
        let s = |i: usize| p.get(i).map(|s| s.replace('_', " ")).unwrap_or_default();
        let mut want: Vec<String> = vec![];
        let mut sent: Vec<(u64, String)> = vec![];
        let mut pushed: Vec<(usize, String)> = vec![];
        let k = n(1).unwrap_or(0);
        let poke2 = poke.clone();
        let l2 = log.clone();
        match p[0] {
            "every" => {
                let (Some(_), Some(ms), Some(stop)) = (n(1), n(2), n(3)) else { return hx_core::invalid() };
                if every.contains_key(&k) || due.len() > 60 {
                    return hx_core::invalid();
                }
                let slot: Slot = Default::default();
                let own = slot.clone();
                let runs = std::cell::Cell::new(0u64);
                let r = get_driver().set_interval(ms as u32, move || {
                    poke2();
                    runs.set(runs.get() + 1);
                    l2.borrow_mut().push(format!("every {k} {}", runs.get()));
                    if runs.get() == stop {
                        let r = own.borrow_mut().take();
                        drop(r);
                    }
                });
                *slot.borrow_mut() = Some(r);
                every.insert(k, slot);
                due.push(Due { repeat: true, ms: ms as u32, what: What::Every { k, left: (stop > 0).then_some(stop) } });
            }
            "off" => {
                let Some(slot) = every.get(&k) else { return hx_core::invalid() };
                if let Some(i) = due.iter().position(|d| matches!(&d.what, What::Every { k: x, .. } if *x == k)) {
                    gone.push(h.borrow().timers[i].3);
                    due.remove(i);
                }
                let r = slot.borrow_mut().take();
                drop(r);
            }
            "sleep" => {
                let (Some(_), Some(ms)) = (n(1), n(2)) else { return hx_core::invalid() };
                if due.len() > 60 {
                    return hx_core::invalid();
                }
                let ms = ms as u32;
                get_driver().spawn(async move {
                    l2.borrow_mut().push(format!("asleep {k}"));
                    get_driver().sleep(ms).await;
                    poke2();
                    l2.borrow_mut().push(format!("awake {k}"));
                    get_driver().sleep(ms / 2).await;
                    l2.borrow_mut().push(format!("over {k}"));
                });
                due.push(Due { repeat: false, ms: 0, what: What::Run { k, stage: 0, ms } });
            }
            "tick" => {
                if due.is_empty() {
                    continue;
                }
                let i = k as usize % due.len();
                let t = h.borrow().timers[i];
                if !t.1 {
                    h.borrow_mut().timers.remove(i);
                    gone.push(t.3);
                }
                let mut over = !due[i].repeat;
                let mut then = None;
                match &mut due[i].what {
                    What::Every { k, left } => {
                        events += 3;
                        let k = *k;
                        want.push(format!("every {k} "));
                        if let Some(n) = left {
                            *n -= 1;
                            over = *n == 0;
                            if over {
                                gone.push(t.3);
                            }
                        }
                        want.push(format!("sum {events}"));
                    }
                    What::Sleep { k, ms, second } => then = Some(Due { repeat: false, ms: 0, what: What::Run { k: *k, stage: if *second { 2 } else { 1 }, ms: *ms } }),
                    What::Run { k, stage: 0, ms } => {
                        want.push(format!("asleep {k}"));
                        then = Some(Due { repeat: false, ms: *ms, what: What::Sleep { k: *k, ms: *ms, second: false } });
                    }
                    What::Run { k, stage: 1, ms } => {
                        events += 3;
                        want.push(format!("awake {k}"));
                        want.push(format!("sum {events}"));
                        then = Some(Due { repeat: false, ms: *ms / 2, what: What::Sleep { k: *k, ms: *ms, second: true } });
                    }
                    What::Run { k, .. } => want.push(format!("over {k}")),
                }
                if over {
                    due.remove(i);
                }
                due.extend(then);
                let r = call(t.3, &odd(n(2).unwrap_or(0)));
                if r != 0 {
                    return Err(format!("line {}: the timer got an answer", at + 1));
                }
            }
            "ws" => {
                if n(1).is_none() || socks.contains_key(&k) || socks.len() > 30 {
                    return hx_core::invalid();
                }
                let slot: Slot = Default::default();
                let leave: Rc<RefCell<bool>> = Default::default();
                let connections: Rc<RefCell<Vec<WebsocketConnection>>> = Default::default();
                let (own, c2, leave2) = (slot.clone(), connections.clone(), leave.clone());
                let before = h.borrow().seen.clone();
                let r = get_driver().websocket(s(2), move |m| {
                    poke2();
                    l2.borrow_mut().push(match m {
                        WebsocketMessage::Connection(c) => {
                            c2.borrow_mut().push(c);
                            format!("up {k}")
                        }
                        WebsocketMessage::Message(m) => format!("message {k} {m}"),
                        WebsocketMessage::Close => format!("down {k}"),
                    });
                    if *leave2.borrow() {
                        let r = own.borrow_mut().take();
                        drop(r);
                    }
                });
                *slot.borrow_mut() = Some(r);
                let Some(id) = h.borrow().seen.difference(&before).next().copied() else { return Err(format!("line {}: the host was not asked for a socket", at + 1)) };
                socks.insert(k, Socket { host: s(2), slot, open: true, leave, connections, id });
            }
            "wsoff" => {
                let Some(x) = socks.get_mut(&k) else { return hx_core::invalid() };
                let r = x.slot.borrow_mut().take();
                drop(r);
                if x.open {
                    gone.push(x.id);
                }
                x.open = false;
            }
            "self" => {
                let Some(x) = socks.get(&k) else { return hx_core::invalid() };
                *x.leave.borrow_mut() = true;
            }
            "wsup" | "wsmsg" | "wsdown" | "wsodd" => {
                let Some(x) = socks.get_mut(&k) else { return hx_core::invalid() };
                // (the host reports nothing any more of what was let go of)
                if !x.open {
                    continue;
                }
                let w = match p[0] {
                    "wsup" => {
                        want.push(format!("up {k}"));
                        W::True
                    }
                    "wsmsg" => {
                        want.push(format!("message {k} {}", s(2)));
                        W::Str(s(2))
                    }
                    "wsdown" => {
                        want.push(format!("down {k}"));
                        W::False
                    }
                    _ => odd(n(2).unwrap_or(0)),
                };
                if !want.is_empty() {
                    events += 3;
                    want.push(format!("sum {events}"));
                    if *x.leave.borrow() {
                        x.open = false;
                        gone.push(x.id);
                    }
                }
                let id = x.id;
                if call(id, &w) != 0 {
                    return Err(format!("line {}: the socket got an answer", at + 1));
                }
            }
            "say" | "say2" => {
                let Some(x) = socks.get(&k) else { return hx_core::invalid() };
                let c = x.connections.borrow();
                let c = if p[0] == "say" { c.first() } else { c.last() };
                if let Some(c) = c {
                    c.clone().send(s(2));
                    sent.push((x.id, s(2)));
                }
            }
            "route" => {
                let kind = match p.get(2) {
                    Some(&"h") => 0,
                    Some(&"p") => 1,
                    _ => return hx_core::invalid(),
                };
                if n(1).is_none() || routes.contains_key(&k) || routes.len() > 20 {
                    return hx_core::invalid();
                }
                let router: Router<Place> = match (kind, k % 3) {
                    (0, _) => Router::new_hash_router(),
                    (_, 0) => Router::default(),
                    _ => Router::new_history_router(),
                };
                let known = h.borrow().at[kind].clone();
                routes.insert(k, Route { kind, router, watch: None, known, id: None, round: 0 });
            }
            "unroute" => {
                let Some(r) = routes.get_mut(&k) else { return hx_core::invalid() };
                r.watch = None;
                gone.extend(r.id.take());
            }
            "reroute" => {}
            "go" => {
                let kind = match p.get(1) {
                    Some(&"h") => 0,
                    Some(&"p") => 1,
                    _ => return hx_core::invalid(),
                };
                h.borrow_mut().at[kind] = s(2);
                let ids = h.borrow().listen[kind].clone();
                for id in ids {
                    if call(id, &W::Str(s(2))) != 0 {
                        return Err(format!("line {}: the listener got an answer", at + 1));
                    }
                }
                let mut by: Vec<(u64, String)> = vec![];
                for (k, r) in routes.iter_mut().filter(|(_, r)| r.kind == kind && r.id.is_some()) {
                    if r.known != s(2) {
                        r.known = s(2);
                        by.push((r.id.unwrap_or(0), format!("route {k} {} {}", r.round, s(2))));
                    }
                }
                by.sort();
                want.extend(by.into_iter().map(|x| x.1));
            }
            "to" => {
                let Some(r) = routes.get(&k) else { return hx_core::invalid() };
                r.router.set(Place(s(2)));
                pushed.push((r.kind, s(2)));
            }
            "add" => {
                use vertigo::Reactive;
                let Some(r) = routes.get(&k) else { return hx_core::invalid() };
                if r.id.is_none() {
                    continue;
                }
                r.router.change(|x| x.0.push_str(&s(2)));
                pushed.push((r.kind, format!("{}{}", r.known, s(2))));
            }
            "late" => {
                if gone.is_empty() {
                    continue;
                }
                let id = gone[k as usize % gone.len()];
                for w in [W::Undef, W::True, W::Str("late".into()), W::False] {
                    if call(id, &w) != 0 {
                        return Err(format!("line {}: what is not there any more gave an answer", at + 1));
                    }
                }
            }
            _ => return hx_core::invalid(),
        }
        if p[0] == "route" || p[0] == "reroute" {
            let Some(r) = routes.get_mut(&k) else { return hx_core::invalid() };
            if r.id.is_none() && r.known == h.borrow().at[r.kind] {
                r.round += 1;
                let round = r.round;
                let l2 = log.clone();
                let before = h.borrow().seen.clone();
                r.watch = Some(r.router.route.clone().subscribe(move |x| l2.borrow_mut().push(format!("route {k} {round} {x}"))));
                want.push(format!("route {k} {round} {}", r.known));
                r.id = h.borrow().seen.difference(&before).next().copied();
                if r.id.is_none() {
                    return Err(format!("line {}: the host was not asked to tell of changes", at + 1));
                }
            }
        }
        let fail = |m: String| Err(format!("line {} ({l}): {m}", at + 1));
        let got: Vec<String> = log.borrow_mut().drain(..).collect();
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| if w.ends_with(' ') { g.starts_with(w.as_str()) } else { g == w });
        if !ok {
            return fail(format!("what ran is {got:?}, expected {want:?}"));
        }
        let mut h = h.borrow_mut();
        if let Some(w) = h.wrong.take() {
            return fail(w);
        }
        let have: Vec<(bool, u32)> = h.timers.iter().map(|t| (t.1, t.2)).collect();
        let need: Vec<(bool, u32)> = due.iter().map(|d| (d.repeat, d.ms)).collect();
        if have != need {
            return fail(format!("the timers (repeating, milliseconds) are {have:?}, expected {need:?}"));
        }
        let need: BTreeMap<u64, String> = socks.values().filter(|x| x.open).map(|x| (x.id, x.host.clone())).collect();
        if h.sockets != need {
            return fail(format!("the sockets are {:?}, expected {need:?}", h.sockets));
        }
        if h.sent != sent || h.pushed != pushed {
            return fail(format!("sent {:?} and went to {:?}, expected {sent:?} and {pushed:?}", h.sent, h.pushed));
        }
        h.sent.clear();
        h.pushed.clear();
        for kind in 0..2 {
            let mut need: Vec<u64> = routes.values().filter(|r| r.kind == kind).filter_map(|r| r.id).collect();
            need.sort();
            let mut have = h.listen[kind].clone();
            have.sort();
            if have != need {
                return fail(format!("the location is listened to as {have:?}, expected {need:?}"));
            }
        }
        drop(h);
        for (k, r) in &routes {
            if r.id.is_some() {
                let now = transaction(|c| r.router.route.get(c));
                if now.0 != r.known {
                    return fail(format!("router {k} is at {now}, expected {}", r.known));
                }
            }
        }
    }
    Ok(())
}
fn word(r: &mut Rng) -> String {
    let n = r.below(6);
    if r.below(40) == 0 {
        return "long_".repeat(20 + r.below(200) as usize);
    }
    (0..n).map(|_| ["a", "/", "ż", "_", "?x=", "#", "😀", "0", "\""][r.below(9) as usize]).collect()
}
fn history(r: &mut Rng, thorough: bool) -> String {
    let mut out: Vec<String> = vec![];
    let (mut e, mut w, mut ro) = (0u64, 0u64, 0u64);
    for _ in 0..(4 + r.below(if thorough { 90 } else { 40 })) {
        let ms = |r: &mut Rng| match r.below(8) {
            0 => 0,
            1 => u32::MAX as u64,
            _ => r.below(5000),
        };
        let pick = |r: &mut Rng, n: u64| r.below(n.max(1));
        let l = match r.below(24) {
            0 | 1 => {
                e += 1;
                format!("every {} {} {}", e - 1, ms(r), r.below(4))
            }
            2 if e > 0 => format!("off {}", pick(r, e)),
            3 => format!("sleep {} {}", r.below(9), ms(r)),
            4 | 5 => {
                w += 1;
                format!("ws {} {}", w - 1, word(r))
            }
            6 if w > 0 => format!("wsoff {}", pick(r, w)),
            7 if w > 0 => format!("self {}", pick(r, w)),
            8 | 9 if w > 0 => format!("wsup {}", pick(r, w)),
            10 | 11 if w > 0 => format!("wsmsg {} {}", pick(r, w), word(r)),
            12 if w > 0 => format!("wsdown {}", pick(r, w)),
            13 if w > 0 => format!("wsodd {} {}", pick(r, w), r.below(8)),
            14 if w > 0 => format!("{} {} {}", if r.below(2) == 0 { "say" } else { "say2" }, pick(r, w), word(r)),
            15 => {
                ro += 1;
                format!("route {} {}", ro - 1, if r.below(2) == 0 { 'h' } else { 'p' })
            }
            16 if ro > 0 => format!("unroute {}", pick(r, ro)),
            17 if ro > 0 => format!("reroute {}", pick(r, ro)),
            18 | 19 => format!("go {} {}", if r.below(2) == 0 { 'h' } else { 'p' }, word(r)),
            20 if ro > 0 => format!("{} {} {}", if r.below(3) == 0 { "add" } else { "to" }, pick(r, ro), word(r)),
            21 => format!("late {}", r.below(20)),
            _ => format!("tick {} {}", r.below(30), r.below(8)),
        };
        out.push(l);
    }
    out.join("\n")
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let fixed = [
                "every 0 5 0\ntick 0\ntick 0\noff 0\nlate 0".to_string(),
                "every 0 5 2\ntick 0\ntick 0\nlate 0\nlate 1\noff 0".to_string(),
                "sleep 0 7\ntick 0\ntick 0\ntick 0\ntick 0\ntick 0\nlate 0\nlate 1\nlate 2\nlate 3\nlate 4".to_string(),
                "ws 0 x\nsay 0 a\nwsup 0\nsay 0 a\nwsmsg 0 b\nwsup 0\nsay2 0 _\nself 0\nwsdown 0\nlate 0\nsay 0 late\nwsoff 0".to_string(),
                "route 0 h\nroute 1 p\ngo h a\ngo p a\ngo h a\nunroute 0\nlate 0\ngo p b\nto 0 c\nto 1 c\nunroute 1\nreroute 0\nreroute 1\ngo p \ngo h c".to_string(),
                (0..50).map(|i| format!("every {i} {i} {}\nsleep {i} {i}\n", i % 3)).take(28).collect::<String>() + &(0..200).map(|i| format!("tick {}\n", i * 7)).collect::<String>() + "late 3",
                "ws 0 h\n".to_string() + &(0..300).map(|i| format!("wsmsg 0 m{i}\n")).collect::<String>() + "wsoff 0\nlate 0",
                "route 0 h\n".to_string() + &(0..300).map(|i| format!("go h m{i}\n")).collect::<String>() + "unroute 0\nlate 0",
            ];
            for f in fixed {
                if !sink(f.trim_end_matches('\n').to_string()) {
                    return;
                }
            }
            let mut r = Rng::new(cfg.seed);
            for _ in 0..(if cfg.thorough { 80_000 } else { 6_000 }) {
                if !sink(history(&mut r, cfg.thorough)) {
                    return;
                }
            }
        },
        check,
    )
}
