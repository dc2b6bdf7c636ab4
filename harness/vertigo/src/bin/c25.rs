//! Callbacks: histories of registering (plain, with identifier, once), calling and releasing, also from inside callbacks.
//! "reg|regid|once L act" registers callback L; act, done when it is called: "-", "drop M", "reg M", "call M", "self".
use hx_vertigo::host;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use vertigo::verif_hooks::Callbacks;
use vertigo::{DropResource, JsValue};

#[derive(Clone, PartialEq)]
enum Act {
    None,
    Reg(u32),
    Drop(u32),
    Call(u32),
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Plain,
    WithId,
    Once,
}
type Calls = Vec<(u32, String)>;
#[derive(Default)]
struct World {
    ids: BTreeMap<u32, u64>,
    handles: BTreeMap<u32, DropResource>,
    seen_ids: HashSet<u64>,
    calls: Calls,
    depth: u32,
    bad: Option<String>,
}
type Wo = Rc<RefCell<World>>;
fn text(v: &JsValue) -> String {
    format!("{v:?}")
}
// what the callback returns
fn answer(l: u32) -> JsValue {
    match l % 5 {
        1 => JsValue::Undefined,
        3 => JsValue::Null,
        4 => JsValue::False,
        _ => JsValue::U32(l),
    }
}
fn reg(c: &Rc<Callbacks>, w: &Wo, l: u32, kind: Kind, act: Act) {
    if w.borrow().ids.contains_key(&l) {
        return;
    }
    w.borrow_mut().ids.insert(l, u64::MAX);
    let (c2, w2) = (Rc::downgrade(c), Rc::downgrade(w));
    let body = move |v: JsValue| -> JsValue {
        let (Some(c), Some(w)) = (c2.upgrade(), w2.upgrade()) else { return JsValue::Null };
        w.borrow_mut().calls.push((l, text(&v)));
        if w.borrow().depth < 4 {
            w.borrow_mut().depth += 1;
            match act {
                Act::None => {}
                Act::Reg(m) => reg(&c, &w, m, Kind::Plain, Act::None),
                Act::Drop(m) => {
                    let h = w.borrow_mut().handles.remove(&m);
                    drop(h);
                }
                Act::Call(m) => {
                    let id = w.borrow().ids.get(&m).copied();
                    if let Some(id) = id {
                        c.call(id, JsValue::U32(777));
                    }
                }
            }
            w.borrow_mut().depth -= 1;
        }
        answer(l)
    };
    let (id, h) = match kind {
        Kind::Plain => {
            let (a, b) = c.register(body);
            (a, Some(b))
        }
        Kind::WithId => {
            let w2 = Rc::downgrade(w);
            let (a, b) = c.register_with_id(move |id, v| {
                if let Some(w) = w2.upgrade() {
                    if w.borrow().ids.get(&l) != Some(&id) {
                        w.borrow_mut().bad = Some(format!("callback {l} was told that its identifier is {id}"));
                    }
                }
                body(v)
            });
            (a, Some(b))
        }
        Kind::Once => (c.register_once(body), None),
    };
    let mut w = w.borrow_mut();
    if w.seen_ids.contains(&id) {
        w.bad = Some(format!("identifier {id} was given out twice"));
    }
    w.seen_ids.insert(id);
    w.ids.insert(l, id);
    if let Some(h) = h {
        w.handles.insert(l, h);
    }
}
#[derive(Default)]
struct Model {
    known: Vec<u32>,
    live: BTreeMap<u32, (Kind, Act)>,
    calls: Calls,
    depth: u32,
}
impl Model {
    fn reg(&mut self, l: u32, k: Kind, a: Act) {
        if !self.known.contains(&l) {
            self.known.push(l);
            self.live.insert(l, (k, a));
        }
    }
    fn drop(&mut self, l: u32) {
        if matches!(self.live.get(&l), Some((Kind::Plain | Kind::WithId, _))) {
            self.live.remove(&l);
        }
    }
    // what the call returns, as text
    fn call(&mut self, l: u32, v: &JsValue) -> String {
        let Some((k, a)) = self.live.get(&l).cloned() else { return text(&JsValue::Undefined) };
        self.calls.push((l, text(v)));
        if self.depth < 4 {
            self.depth += 1;
            match a {
                Act::None => {}
                Act::Reg(m) => self.reg(m, Kind::Plain, Act::None),
                Act::Drop(m) => self.drop(m),
                Act::Call(m) => {
                    if self.known.contains(&m) {
                        self.call(m, &JsValue::U32(777));
                    }
                }
            }
            self.depth -= 1;
        }
        if k == Kind::Once {
            self.live.remove(&l);
        }
        text(&answer(l))
    }
}
fn value(n: u32) -> JsValue {
    match n % 5 {
        0 => JsValue::U32(n),
        1 => JsValue::String(format!("v{n}")),
        2 => JsValue::Undefined,
        3 => JsValue::List(vec![JsValue::True, JsValue::U64(n as u64)]),
        _ => JsValue::Null,
    }
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let _host = host::record();
        let c = Rc::new(Callbacks::default());
        let other = Callbacks::default();
        let w: Wo = Default::default();
        let mut m = Model::default();
        for l in input.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| p.get(i).and_then(|s| s.parse::<u32>().ok());
            let Some(k) = n(1) else { return hx_core::invalid() };
            match p[0] {
                "reg" | "regid" | "once" => {
                    let kind = match p[0] {
                        "reg" => Kind::Plain,
                        "regid" => Kind::WithId,
                        _ => Kind::Once,
                    };
                    let act = match (p.get(2).copied(), n(3)) {
                        (Some("reg"), Some(x)) => Act::Reg(x),
                        (Some("drop"), Some(x)) => Act::Drop(x),
                        (Some("call"), Some(x)) => Act::Call(x),
                        (Some("self"), _) => Act::Drop(k),
                        _ => Act::None,
                    };
                    reg(&c, &w, k, kind, act.clone());
                    m.reg(k, kind, act);
                }
                "other" => {
                    // another store draws from the same identifiers
                    let (id, _h) = other.register(|v| v);
                    if w.borrow().seen_ids.contains(&id) {
                        return Err(format!("identifier {id} was given out twice"));
                    }
                    w.borrow_mut().seen_ids.insert(id);
                }
                "fill" => {
                    // many short-lived callbacks
                    for i in 0..k {
                        let (id, h) = c.register(|v| v);
                        if i % 64 != 0 {
                            drop(h);
                        }
                        if !w.borrow_mut().seen_ids.insert(id) {
                            return Err(format!("identifier {id} was given out twice"));
                        }
                    }
                }
                "drop" => {
                    let h = w.borrow_mut().handles.remove(&k);
                    drop(h);
                    m.drop(k);
                }
                "call" => {
                    let v = value(n(2).unwrap_or(0));
                    let id = w.borrow().ids.get(&k).copied().unwrap_or(u64::MAX - 5);
                    let got = text(&c.call(id, v.clone()));
                    let want = m.call(k, &v);
                    if got != want {
                        return Err(format!("`{l}` returned {got}, expected {want}"));
                    }
                }
                _ => return hx_core::invalid(),
            }
            if let Some(b) = &w.borrow().bad {
                return Err(format!("at `{l}`: {b}"));
            }
            let got = std::mem::take(&mut w.borrow_mut().calls);
            let want = std::mem::take(&mut m.calls);
            if got != want {
                return Err(format!("at `{l}` the callbacks were called {got:?}, expected {want:?}"));
            }
        }
        Ok(())
    })
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            for n in [70, 300, 2000] {
                let kinds = ["reg", "regid", "once"];
                let s: Vec<String> = (0..n).map(|i| format!("{} {i} -", kinds[i % 3])).collect();
                let d: Vec<String> = (0..n).filter(|i| i % 5 == 1).map(|i| format!("drop {i}")).collect();
                let q: Vec<String> = (0..n).map(|i| format!("call {i} {i}\nother 0")).collect();
                if !sink(format!("{}\n{}\n{}\n{}\nreg 9000\ncall 9000 1", s.join("\n"), d.join("\n"), q.join("\n"), q.join("\n"))) {
                    return;
                }
            }
            for n in [300, 5_000, 70_000, 200_000] {
                if !sink(format!("reg 0 -\nregid 1 -\nonce 2 -\nfill {n}\ncall 0 1\ncall 1 1\ncall 2 1\ncall 2 1\nreg 3 -\ncall 3 1\ncall 0 1")) {
                    return;
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 200_000 } else { 4_000 };
            for _ in 0..n {
                let mut s = vec![];
                let mut next = 0;
                for _ in 0..4 + r.below(30) {
                    match r.below(9) {
                        0..=3 => {
                            let act = match r.below(9) {
                                0 => format!("reg {}", 100 + r.below(10)),
                                1 => format!("drop {}", r.below(next + 3)),
                                2 | 3 => format!("call {}", r.below(next + 2)),
                                4 => "self".into(),
                                _ => "-".into(),
                            };
                            s.push(format!("{} {next} {act}", ["reg", "regid", "once"][r.below(3) as usize]));
                            next += 1;
                        }
                        4 => s.push(format!("drop {}", r.below(next + 1))),
                        5 => s.push("other 0".into()),
                        _ => s.push(format!("call {} {}", if r.chance(1, 6) { 100 + r.below(10) } else { r.below(next + 1) }, r.below(50))),
                    }
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
