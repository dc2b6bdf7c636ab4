//! Events on elements. One operation per line; K an element, EVT an event, H a function (1000..: see bind), W a value (all 0 at first).
//!   new K              an element is made
//!   on K EVT H         function H is registered for the event
//!   bind K EVT W       the function registered is computed from the value: function 1000 * (W + 1) + the value
//!   set W N            the value is changed
//!   fire K EVT DATA    the event happens, with what the browser hands over (lines of a value, separated by ;)
//!   drop K             the element is dropped
//! The bool functions answer whether they were told something new: the first time true, then false, true, ...
use hx_core::Rng;
use hx_vertigo::{host, wire, Rd, J, W};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vertigo::{verif_hooks as h, Callback, Callback1, Computed, DomElement, DropFileEvent, KeyDownEvent, Value};

const EVENTS: [(&str, &str); 12] = [
    ("click", "click"),
    ("mousedown", "mousedown"),
    ("mouseup", "mouseup"),
    ("mouseenter", "mouseenter"),
    ("mouseleave", "mouseleave"),
    ("input", "input"),
    ("change", "change"),
    ("blur", "blur"),
    ("keydown", "keydown"),
    ("drop", "drop"),
    ("hook_keydown", "hook_keydown"),
    ("load", "load"),
];
const VALUES: usize = 4;

#[derive(Clone, Debug, PartialEq)]
enum Told {
    Nothing,
    Text(String),
    Key(String, String, [bool; 4]),
    Files(Vec<(String, Vec<u8>)>),
}
#[derive(Default)]
struct Log {
    ran: Vec<(u64, Told)>,
    counts: BTreeMap<u64, u64>,
}
impl Log {
    fn run(&mut self, who: u64, t: Told) -> bool {
        self.ran.push((who, t));
        let n = self.counts.entry(who).or_default();
        *n += 1;
        *n % 2 == 1
    }
}
type L = Rc<RefCell<Log>>;
fn key(e: KeyDownEvent) -> Told {
    Told::Key(e.key, e.code, [e.alt_key, e.ctrl_key, e.shift_key, e.meta_key])
}
fn files(e: DropFileEvent) -> Told {
    Told::Files(e.items.into_iter().map(|f| (f.name, f.data.as_ref().clone())).collect())
}
trait Hand: 'static {
    type R: 'static;
    fn said(b: bool) -> Self::R;
}
struct Plain;
struct Bool;
impl Hand for Plain {
    type R = ();
    fn said(_: bool) {}
}
impl Hand for Bool {
    type R = bool;
    fn said(b: bool) -> bool {
        b
    }
}
fn c0<X: Hand>(l: &L, who: Result<u64, (u64, &Value<i64>)>) -> Callback<X::R> {
    let l = l.clone();
    match who {
        Ok(who) => Callback::from(move || X::said(l.borrow_mut().run(who, Told::Nothing))),
        Err((w, v)) => Callback::from(v.to_computed().map(move |n| -> Rc<dyn Fn() -> X::R> {
            let l = l.clone();
            Rc::new(move || X::said(l.borrow_mut().run(1000 * (w + 1) + n as u64, Told::Nothing)))
        })),
    }
}
fn c1<T: 'static, X: Hand>(l: &L, who: Result<u64, (u64, &Value<i64>)>, f: fn(T) -> Told) -> Callback1<T, X::R> {
    let l = l.clone();
    match who {
        // a function, or a shared one
        Ok(who) if who % 2 == 0 => Callback1::from(Rc::new(move |t: T| X::said(l.borrow_mut().run(who, f(t)))) as Rc<dyn Fn(T) -> X::R>),
        Ok(who) => Callback1::from(move |t: T| X::said(l.borrow_mut().run(who, f(t)))),
        Err((w, v)) => {
            let c: Computed<Rc<dyn Fn(T) -> X::R>> = v.to_computed().map(move |n| -> Rc<dyn Fn(T) -> X::R> {
                let l = l.clone();
                Rc::new(move |t: T| X::said(l.borrow_mut().run(1000 * (w + 1) + n as u64, f(t))))
            });
            Callback1::from(c)
        }
    }
}
fn register(el: DomElement, evt: &str, l: &L, who: Result<u64, (u64, &Value<i64>)>) -> DomElement {
    match evt {
        "click" => el.on_click(c0::<Plain>(l, who)),
        "mousedown" => el.on_mouse_down(c0::<Bool>(l, who)),
        "mouseup" => el.on_mouse_up(c0::<Bool>(l, who)),
        "mouseenter" => el.on_mouse_enter(c0::<Plain>(l, who)),
        "mouseleave" => el.on_mouse_leave(c0::<Plain>(l, who)),
        "input" => el.on_input(c1::<String, Plain>(l, who, Told::Text)),
        "change" => el.on_change(c1::<String, Plain>(l, who, Told::Text)),
        "blur" => el.on_blur(c0::<Plain>(l, who)),
        "keydown" => el.on_key_down(c1::<KeyDownEvent, Bool>(l, who, key)),
        "drop" => el.on_dropfile(c1::<DropFileEvent, Plain>(l, who, files)),
        "hook_keydown" => el.hook_key_down(c1::<KeyDownEvent, Bool>(l, who, key)),
        _ => el.on_load(c0::<Plain>(l, who)),
    }
}
// what the function is told, if the data is what comes with such an event
fn decoded(evt: &str, d: &W) -> Option<Told> {
    let flag = |w: &W| match w {
        W::True => Some(true),
        W::False => Some(false),
        _ => None,
    };
    match evt {
        "input" | "change" => match d {
            W::Str(s) => Some(Told::Text(s.clone())),
            _ => None,
        },
        "keydown" | "hook_keydown" => match d {
            W::List(l) => match &l[..] {
                [W::Str(k), W::Str(c), a, b, s, m] => Some(Told::Key(k.clone(), c.clone(), [flag(a)?, flag(b)?, flag(s)?, flag(m)?])),
                _ => None,
            },
            _ => None,
        },
        "drop" => match d {
            W::List(l) => match l.first() {
                Some(W::List(l)) => l
                    .iter()
                    .map(|f| match f {
                        W::List(l) => match &l[..] {
                            [W::Str(n), W::Vec(b), ..] => Some((n.clone(), b.clone())),
                            _ => None,
                        },
                        _ => None,
                    })
                    .collect::<Option<Vec<_>>>()
                    .map(Told::Files),
                _ => None,
            },
            _ => None,
        },
        _ => Some(Told::Nothing),
    }
}
fn prevents(evt: &str) -> bool {
    ["mousedown", "mouseup", "keydown", "hook_keydown"].contains(&evt)
}
fn call(id: u64, w: &W) -> Result<W, String> {
    let p = h::stash(&wire::bytes(w));
    let r = hx_core::caught(|| vertigo::wasm_callback(id, p))?;
    if r == 0 {
        return Ok(W::Undef);
    }
    // Safety: the block stays where it is until the library hands over the next one
    let b = unsafe { std::slice::from_raw_parts((r >> 32) as usize as *const u8, (r & 0xffff_ffff) as usize) };
    let mut rd = Rd { b, p: 0 };
    let v = rd.w().ok_or("the answer cannot be read")?;
    if rd.p == b.len() {
        Ok(v)
    } else {
        Err("there is something after the answer".into())
    }
}
fn listeners(batch: Vec<J>, live: &mut Vec<(u64, String, u64)>, seen: &mut BTreeSet<u64>) -> Result<(), String> {
    for c in batch {
        let J::Obj(o) = &c else { return Err(format!("not a command: {c:?}")) };
        let num = |k: &str| match o.get(k) {
            Some(J::Num(b)) => Ok(f64::from_bits(*b) as u64),
            x => Err(format!("{k} of {c:?}: {x:?}")),
        };
        let text = |k: &str| match o.get(k) {
            Some(J::Str(s)) => Ok(s.clone()),
            x => Err(format!("{k} of {c:?}: {x:?}")),
        };
        match text("type")?.as_str() {
            "callback_add" => {
                let x = (num("id")?, text("event_name")?, num("callback_id")?);
                if !seen.insert(x.2) {
                    return Err(format!("callback number {} is given a second time", x.2));
                }
                live.push(x);
            }
            "callback_remove" => {
                let x = (num("id")?, text("event_name")?, num("callback_id")?);
                let Some(i) = live.iter().position(|y| *y == x) else { return Err(format!("a listener that is not there is removed: {x:?}")) };
                live.remove(i);
            }
            _ => {}
        }
    }
    Ok(())
}
struct El {
    el: DomElement,
    id: u64,
    // event, function or value
    on: Vec<(&'static str, Result<u64, usize>)>,
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || run(&input))
}
fn run(input: &str) -> hx_core::Res {
    let got = host::record();
    h::fetch_start();
    h::fetch_stop();
    let log: L = Default::default();
    let mut counts: BTreeMap<u64, u64> = BTreeMap::new();
    let values: Vec<Value<i64>> = (0..VALUES).map(|_| Value::new(0)).collect();
    let mut now = [0i64; VALUES];
    let mut els: BTreeMap<u64, El> = BTreeMap::new();
    let mut live: Vec<(u64, String, u64)> = vec![];
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut gone: Vec<(u64, String)> = vec![];
    for (at, l) in input.lines().enumerate() {
        let t: Vec<&str> = l.splitn(4, ' ').collect();
        let n = |i: usize| t.get(i).and_then(|x: &&str| x.parse::<u64>().ok());
        let fail = |m: String| Err(format!("line {at} ({}): {m}", l.chars().take(120).collect::<String>()));
        let Some(k) = n(1) else { return hx_core::invalid() };
        match t[0] {
            "new" => {
                if els.contains_key(&k) || els.len() > 40 {
                    return hx_core::invalid();
                }
                let el = DomElement::new(format!("e{}", k % 3));
                let id = el.id_dom().to_u64();
                els.insert(k, El { el, id, on: vec![] });
            }
            "on" | "bind" => {
                let Some(mut e) = els.remove(&k) else { return hx_core::invalid() };
                let Some(evt) = t.get(2).and_then(|x| EVENTS.iter().find(|e| e.0 == *x)).map(|e| e.0) else { return hx_core::invalid() };
                let Some(who) = n(3) else { return hx_core::invalid() };
                if e.on.len() > 300 {
                    return hx_core::invalid();
                }
                if t[0] == "on" {
                    if who >= 1000 {
                        return hx_core::invalid();
                    }
                    e.el = register(e.el, evt, &log, Ok(who));
                    e.on.push((evt, Ok(who)));
                } else {
                    if who as usize >= VALUES {
                        return hx_core::invalid();
                    }
                    e.el = register(e.el, evt, &log, Err((who, &values[who as usize])));
                    e.on.push((evt, Err(who as usize)));
                }
                els.insert(k, e);
            }
            "set" => {
                let Some(v) = n(2) else { return hx_core::invalid() };
                if k as usize >= VALUES || v > 500 {
                    return hx_core::invalid();
                }
                values[k as usize].set(v as i64);
                now[k as usize] = v as i64;
            }
            "fire" => {
                let (Some(e), Some(evt), Some(d)) = (els.get(&k), t.get(2), t.get(3)) else { return hx_core::invalid() };
                if !EVENTS.iter().any(|e| e.0 == *evt) {
                    return hx_core::invalid();
                }
                let text = d.replace(';', "\n");
                let mut p = wire::P::new(&text);
                let d = p.value();
                if !p.done() {
                    return hx_core::invalid();
                }
                let ids: Vec<u64> = live.iter().filter(|x| x.0 == e.id && x.1 == *evt).map(|x| x.2).collect();
                let on: Vec<u64> = e.on.iter().filter(|x| x.0 == *evt).map(|x| match x.1 { Ok(h) => h, Err(w) => 1000 * (w as u64 + 1) + now[w] as u64 }).collect();
                if ids.len() != on.len() {
                    return fail(format!("the browser is told of {} listeners for {evt}, {} are registered", ids.len(), on.len()));
                }
                for (id, who) in ids.iter().zip(&on) {
                    let got = match call(*id, &d) {
                        Ok(x) => x,
                        Err(m) => return fail(m),
                    };
                    let ran = std::mem::take(&mut log.borrow_mut().ran);
                    let (want, answer) = match decoded(evt, &d) {
                        Some(t) => {
                            let n = counts.entry(*who).or_default();
                            *n += 1;
                            (vec![(*who, t)], if !prevents(evt) { W::Undef } else if *n % 2 == 1 { W::True } else { W::False })
                        }
                        None => (vec![], if prevents(evt) { W::False } else { W::Undef }),
                    };
                    if ran != want {
                        return fail(format!("ran {:.300}, should run {:.300}", format!("{ran:?}"), format!("{want:?}")));
                    }
                    if got != answer {
                        return fail(format!("answered {got:?}, should answer {answer:?}"));
                    }
                }
            }
            "drop" => {
                let Some(e) = els.remove(&k) else { return hx_core::invalid() };
                gone.extend(live.iter().filter(|x| x.0 == e.id).map(|x| (x.2, x.1.clone())));
                drop(e);
            }
            _ => return hx_core::invalid(),
        }
        h::flush_dom_changes();
        if let Err(m) = listeners(host::take(&got), &mut live, &mut seen) {
            return fail(m);
        }
        // the listeners are those of the elements there are
        let mut a: Vec<(u64, &str)> = live.iter().map(|x| (x.0, x.1.as_str())).collect();
        let mut b: Vec<(u64, &str)> = els.values().flat_map(|e| e.on.iter().map(|o| (e.id, EVENTS.iter().find(|x| x.0 == o.0).map_or("", |x| x.1)))).collect();
        a.sort();
        b.sort();
        if a != b {
            return fail(format!("the browser listens for {a:?}, it should for {b:?}"));
        }
        // nothing runs for an element that is no longer there
        for (id, evt) in &gone {
            let d = match evt.as_str() {
                "input" | "change" => W::Str("x".into()),
                "keydown" | "hook_keydown" => W::List(vec![W::Str("k".into()), W::Str("c".into()), W::True, W::False, W::True, W::False]),
                "drop" => W::List(vec![W::List(vec![])]),
                _ => W::Undef,
            };
            match call(*id, &d) {
                Ok(W::Undef) => {}
                x => return fail(format!("{evt} of an element that is gone is answered: {x:?}")),
            }
            let ran = std::mem::take(&mut log.borrow_mut().ran);
            if !ran.is_empty() {
                return fail(format!("{evt} of an element that is gone runs {ran:?}"));
            }
        }
        if gone.len() > 30 {
            gone.clear();
        }
        let ran = std::mem::take(&mut log.borrow_mut().ran);
        if !ran.is_empty() {
            return fail(format!("runs without an event: {ran:?}"));
        }
    }
    Ok(())
}

fn hexed(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn flag(r: &mut Rng) -> String {
    r.pick(&["true", "false"]).to_string()
}
fn keys(r: &mut Rng) -> Vec<String> {
    let mut l = vec![format!("str {}", hexed(*r.pick(&["Enter", "a", "", "ż", "🦀", "Dead"]))), format!("str {}", hexed(*r.pick(&["KeyA", "", "Enter", "Digit1"])))];
    l.extend((0..4).map(|_| flag(r)));
    l
}
fn file(r: &mut Rng) -> Vec<String> {
    let bytes: String = (0..r.below(12)).map(|_| format!("{:02x}", r.below(256))).collect();
    let bytes = if r.chance(1, 20) { format!("*{}", r.pick(&[255u64, 256, 65536, 70001])) } else { bytes };
    let mut l = vec![format!("str {}", hexed(*r.pick(&["a.txt", "", "ł.png", "a b"]))), format!("vec {bytes}")];
    if r.chance(1, 8) {
        l.push("null".into());
    }
    l
}
// a value with a part of it changed
fn odd(r: &mut Rng, mut l: Vec<String>) -> Vec<String> {
    let other = ["undef", "null", "true", "str 61", "u32 7", "vec 0102", "f64 0", "i64 -1", "list 0"];
    match r.below(4) {
        0 if !l.is_empty() => {
            let i = r.below(l.len() as u64) as usize;
            l.remove(i);
        }
        1 => l.push(r.pick(&other).to_string()),
        2 if l.len() > 1 => {
            let i = r.below(l.len() as u64) as usize;
            let j = r.below(l.len() as u64) as usize;
            l.swap(i, j);
        }
        _ if !l.is_empty() => {
            let i = r.below(l.len() as u64) as usize;
            l[i] = r.pick(&other).to_string();
        }
        _ => {}
    }
    l
}
fn data(r: &mut Rng, evt: &str) -> String {
    let strange = r.chance(1, 4);
    let list = |l: Vec<String>| format!("list {};{}", l.len(), l.join(";")).trim_end_matches(';').to_string();
    let any = |r: &mut Rng| {
        let mut o = vec![];
        wire::gen_value(r, 2, &mut o, false);
        o.join(";")
    };
    if r.chance(1, 12) {
        return any(r);
    }
    match evt {
        "input" | "change" => {
            if strange {
                any(r)
            } else if r.chance(1, 15) {
                format!("str *{}", r.pick(&[255u64, 256, 65535, 65536, 70000]))
            } else {
                format!("str {}", hexed(*r.pick(&["", "a", "zażółć", "🦀", "a b\n", "<x>"])))
            }
        }
        "keydown" | "hook_keydown" => {
            let mut l = keys(r);
            if strange {
                l = odd(r, l);
            }
            list(l)
        }
        "drop" => {
            let n = if r.chance(1, 15) { 70 } else { r.below(4) };
            let spoilt = if strange && n > 0 { r.below(n) } else { n };
            let fs: Vec<String> = (0..n)
                .map(|i| {
                    let f = file(r);
                    list(if i == spoilt { odd(r, f) } else { f })
                })
                .collect();
            let mut top = vec![list(fs)];
            if strange && r.chance(1, 3) {
                top = odd(r, top);
            }
            list(top)
        }
        _ => if strange { any(r) } else { "undef".into() },
    }
}
fn history(r: &mut Rng, big: bool) -> String {
    let mut o = vec![];
    let mut els: Vec<(u64, Vec<&str>)> = vec![];
    let mut next = 1;
    for _ in 0..2 + r.below(if big { 45 } else { 22 }) {
        let c = r.below(20);
        if els.is_empty() || c == 0 {
            o.push(format!("new {next}"));
            els.push((next, vec![]));
            next += 1;
            continue;
        }
        let i = r.below(els.len() as u64) as usize;
        match c {
            1..=5 => {
                let e = r.pick(&EVENTS).0;
                if r.chance(2, 5) {
                    o.push(format!("bind {} {e} {}", els[i].0, r.below(VALUES as u64)));
                } else {
                    o.push(format!("on {} {e} {}", els[i].0, r.below(30)));
                }
                els[i].1.push(e);
            }
            6..=8 => o.push(format!("set {} {}", r.below(VALUES as u64), r.below(5))),
            9 => {
                o.push(format!("drop {}", els[i].0));
                els.remove(i);
            }
            _ => {
                let e = if els[i].1.is_empty() { EVENTS[0].0 } else { *r.pick(&els[i].1) };
                let d = data(r, e);
                o.push(format!("fire {} {e} {d}", els[i].0));
            }
        }
    }
    o.join("\n")
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = Rng::new(cfg.seed);
            // every event: all sorts of data, for a fixed and a computed function, before and after the value changes, and after the drop
            for (e, _) in EVENTS {
                let mut o = vec!["new 1".to_string(), "new 2".into(), format!("on 1 {e} 4"), format!("on 1 {e} 5"), format!("bind 1 {e} 2"), format!("on 2 {e} 6")];
                for i in 0..40 {
                    let d = data(&mut r, e);
                    o.push(format!("fire 1 {e} {d}"));
                    o.push(format!("set 2 {}", i / 2));
                }
                for i in 0..100 {
                    o.push(format!("on 2 {e} {}", i + 7));
                }
                let d = data(&mut r, e);
                o.push(format!("fire 2 {e} {d}"));
                o.push("drop 2".into());
                let d = data(&mut r, e);
                o.push(format!("fire 1 {e} {d}"));
                o.push("drop 1".into());
                o.push("set 2 3".into());
                if !sink(o.join("\n")) {
                    return;
                }
            }
            for _ in 0..(if cfg.thorough { 120_000 } else { 6_000 }) {
                if !sink(history(&mut r, cfg.thorough)) {
                    return;
                }
            }
        },
        check,
    )
}
