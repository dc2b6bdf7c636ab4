//! Elements with a suspense callback. Numbers are nodes; 0 is the page.
//!   node n | pend n       a node, or an unfinished node, is created
//!   el n                  an element of the library is created
//!   put n p | putb n p c  n is inserted into p (before c)
//!   del n                 n is removed, then all that is inside it
//!   watch n | unwatch n   a callback of its own for the node n
//!   sus e k | sus e -     the element gets the suspense callback k, or none
//!   css e k               a style
//!   class e v | noclass e the class attribute
//!   attr e name v | noattr e name
//!   grid n w              n nodes with callbacks in a chain from node 100000 on, w unfinished ones in each
use hx_vertigo::{host, J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::{verif_hooks as h, Css, DomElement, DomId, DropResource, Value};

const STYLES: [&str; 4] = ["color: red", "color: green", "margin: 1px", "border: none"];
fn style(k: usize) -> Css {
    Css::str(STYLES[k])
}
fn f0(b: bool) -> Css {
    style(b as usize)
}
fn f1(b: bool) -> Css {
    style(2 + b as usize)
}
fn f2(_: bool) -> Css {
    style(3)
}
// the style (by number) for a callback
fn style_of(k: usize, b: bool) -> usize {
    match k {
        0 => b as usize,
        1 => 2 + b as usize,
        _ => 3,
    }
}
const FNS: [fn(bool) -> Css; 3] = [f0, f1, f2];

#[derive(Default)]
struct El {
    class: Option<String>,
    css: Option<usize>,
    sus: Option<(usize, bool)>, // the callback and what it was told last
    sus_off: Option<usize>,     // the style left by a callback that is gone
    sent: Option<String>,       // the class sent last
}
enum Part {
    Text(String),
    Style(usize),
}
impl El {
    fn parts(&self) -> Vec<Part> {
        let mut out = vec![];
        if let Some(c) = &self.class {
            out.push(Part::Text(c.clone()));
        }
        if let Some(c) = self.css {
            out.push(Part::Style(c));
        }
        if let Some((k, b)) = self.sus {
            out.push(Part::Style(style_of(k, b)));
        } else if let Some(c) = self.sus_off {
            out.push(Part::Style(c));
        }
        out
    }
}
#[derive(Default)]
struct Model {
    parent: BTreeMap<u64, u64>,
    pending: Vec<u64>,
    alive: Vec<u64>,
}
impl Model {
    fn inside(&self, x: u64, y: u64) -> bool {
        let (mut x, mut n) = (x, 0);
        loop {
            if x == y {
                return true;
            }
            match self.parent.get(&x) {
                Some(p) if n < 1000 => x = *p,
                _ => return false,
            }
            n += 1;
        }
    }
    fn loading(&self, y: u64) -> bool {
        self.pending.iter().any(|k| self.inside(*k, y))
    }
    fn depth(&self, x: u64) -> usize {
        self.alive.iter().map(|a| (self.inside(*a, x), *a)).filter(|(i, _)| *i).map(|(_, a)| self.up(a)).max().unwrap_or(0)
    }
    fn up(&self, mut x: u64) -> usize {
        let mut n = 0;
        while let Some(p) = self.parent.get(&x) {
            x = *p;
            n += 1;
            if n > 1000 {
                break;
            }
        }
        n
    }
}
type Told = Rc<RefCell<Vec<bool>>>;
fn changes(l: &[J]) -> Vec<(u64, String, Option<String>)> {
    l.iter()
        .filter_map(|j| match j {
            J::Obj(o) => {
                let s = |k: &str| match o.get(k) {
                    Some(J::Str(s)) => Some(s.clone()),
                    _ => None,
                };
                let id = match o.get("id") {
                    Some(J::Num(b)) => f64::from_bits(*b) as u64,
                    _ => return None,
                };
                match s("type")?.as_str() {
                    "set_attr" => Some((id, s("name")?, Some(s("value")?))),
                    "remove_attr" => Some((id, s("name")?, None)),
                    _ => None,
                }
            }
            _ => None,
        })
        .collect()
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || run(&input))
}
fn run(input: &str) -> hx_core::Res {
    let got = host::record();
    h::fetch_start();
    h::fetch_stop();
    let mut m = Model::default();
    let mut watch: BTreeMap<u64, (Told, usize, Option<DropResource>)> = BTreeMap::new();
    let mut els: BTreeMap<u64, (DomElement, El)> = BTreeMap::new();
    let mut attrs: BTreeMap<(u64, String), Value<Option<String>>> = BTreeMap::new();
    let mut ids: BTreeMap<u64, DomId> = BTreeMap::new();
    let mut names: BTreeMap<usize, String> = BTreeMap::new();
    let page = DomId::from_u64(900_000_000);
    for l in input.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let num = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok()).filter(|n| *n < 1_000_000);
        let id = |ids: &BTreeMap<u64, DomId>, n: u64| if n == 0 { page } else { ids.get(&n).copied().unwrap_or(page) };
        let Some(n) = num(1) else { return hx_core::invalid() };
        let op = p[0];
        let mut want_attr: Vec<(u64, String, Option<String>)> = vec![];
        let new = matches!(op, "node" | "pend" | "el" | "grid");
        if new == (m.alive.contains(&n) || n == 0) {
            return hx_core::invalid();
        }
        match op {
            "node" | "pend" => {
                ids.insert(n, DomId::from_u64(800_000_000 + n));
                m.alive.push(n);
                if op == "pend" {
                    m.pending.push(n);
                }
                h::dom::create_node(id(&ids, n), if op == "pend" { "vertigo-suspense" } else { ["div", "vertigo-suspense-x", "span", "x-vertigo-suspense", "vertigo"][n as usize % 5] });
            }
            "grid" => {
                let Some(w) = num(2) else { return hx_core::invalid() };
                if n > 400 || w > 20 || m.alive.contains(&100_000) {
                    return hx_core::invalid();
                }
                let mut up = 0;
                for i in 0..n {
                    let a = 100_000 + i * 100;
                    ids.insert(a, DomId::from_u64(800_000_000 + a));
                    m.alive.push(a);
                    h::dom::create_node(id(&ids, a), "div");
                    h::dom::insert_before(id(&ids, up), id(&ids, a), None);
                    m.parent.insert(a, up);
                    if i % 7 == 0 {
                        let told: Told = Default::default();
                        let t = told.clone();
                        let d = h::suspense::set_layer_callback(id(&ids, a), move |b| t.borrow_mut().push(b));
                        watch.insert(a, (told, 0, Some(d)));
                    }
                    for k in 0..w {
                        let b = a + 1 + k;
                        ids.insert(b, DomId::from_u64(800_000_000 + b));
                        m.alive.push(b);
                        m.pending.push(b);
                        h::dom::create_node(id(&ids, b), "vertigo-suspense");
                        h::dom::insert_before(id(&ids, a), id(&ids, b), None);
                        m.parent.insert(b, a);
                    }
                    up = a;
                }
            }
            "el" => {
                let e = DomElement::new("div");
                ids.insert(n, e.id_dom());
                m.alive.push(n);
                els.insert(n, (e, El::default()));
            }
            "put" | "putb" => {
                let Some(q) = num(2) else { return hx_core::invalid() };
                if q != 0 && !m.alive.contains(&q) || m.inside(q, n) || m.up(q) + m.depth(n) + 2 >= 500 {
                    return hx_core::invalid();
                }
                let before = if op == "putb" {
                    match num(3) {
                        Some(c) if c != n && m.parent.get(&c) == Some(&q) => Some(id(&ids, c)),
                        _ => return hx_core::invalid(),
                    }
                } else {
                    None
                };
                h::dom::insert_before(id(&ids, q), id(&ids, n), before);
                m.parent.insert(n, q);
            }
            "del" => {
                let mut todo = vec![n];
                let mut i = 0;
                while i < todo.len() {
                    let x = todo[i];
                    if els.contains_key(&x) {
                        return hx_core::invalid();
                    }
                    todo.extend(m.alive.iter().filter(|k| m.parent.get(k) == Some(&x)));
                    i += 1;
                }
                for (i, x) in todo.iter().enumerate() {
                    match (x + i as u64) % 3 {
                        0 if *x != n => h::dom::remove_text(id(&ids, *x)),
                        1 if *x != n => h::dom::remove_comment(id(&ids, *x)),
                        _ => h::dom::remove_node(id(&ids, *x)),
                    }
                }
                m.alive.retain(|x| !todo.contains(x));
                m.pending.retain(|x| !todo.contains(x));
                m.parent.retain(|x, _| !todo.contains(x));
                watch.retain(|x, _| !todo.contains(x));
            }
            "watch" => {
                if watch.contains_key(&n) || els.get(&n).map(|e| e.1.sus.is_some()).unwrap_or(false) {
                    return hx_core::invalid();
                }
                let told: Told = Default::default();
                let t = told.clone();
                let d = h::suspense::set_layer_callback(id(&ids, n), move |b| t.borrow_mut().push(b));
                watch.insert(n, (told, 0, Some(d)));
            }
            "unwatch" => {
                if watch.remove(&n).is_none() {
                    return hx_core::invalid();
                }
            }
            _ => {
                let (Some((e, s)), Some(v)) = (els.get_mut(&n), p.get(2)) else { return hx_core::invalid() };
                match op {
                    "sus" if !watch.contains_key(&n) => {
                        if *v == "-" {
                            if let Some((k, b)) = s.sus.take() {
                                s.sus_off = Some(style_of(k, b));
                            }
                            *e = std::mem::replace(e, DomElement::new("x")).suspense(None);
                        } else {
                            let Some(k) = num(2).filter(|k| *k < 3) else { return hx_core::invalid() };
                            s.sus = Some((k as usize, false));
                            *e = std::mem::replace(e, DomElement::new("x")).suspense(Some(FNS[k as usize]));
                            // not in the page: told whether it is itself around an unfinished one
                            s.sus = Some((k as usize, m.loading(m.parent.get(&n).copied().unwrap_or(n))));
                        }
                    }
                    "css" => {
                        let Some(k) = num(2).filter(|k| *k < 4) else { return hx_core::invalid() };
                        s.css = Some(k as usize);
                        *e = std::mem::replace(e, DomElement::new("x")).css(style(k as usize));
                    }
                    "class" | "attr" => {
                        let name = if op == "class" { "class" } else { *v };
                        let Some(value) = (if op == "class" { Some(v) } else { p.get(3) }) else { return hx_core::invalid() };
                        if op == "attr" && name == "class" {
                            return hx_core::invalid();
                        }
                        let new = Some(value.to_string());
                        let way = (n as usize + name.len()) % 7;
                        match attrs.get(&(n, name.to_string())) {
                            Some(a) => {
                                let is = vertigo::transaction(|c| a.get(c));
                                a.set(new.clone());
                                if op == "attr" && is != new {
                                    want_attr.push((n, name.to_string(), new.clone()));
                                }
                            }
                            None => {
                                let a = Value::new(new.clone());
                                // the ways to give something to follow
                                match way {
                                    0 => e.add_attr(name.to_string(), a.clone()),
                                    1 => e.add_attr(name.to_string(), &a),
                                    2 => e.add_attr(name.to_string(), a.to_computed()),
                                    3 => e.add_attr(name.to_string(), &a.to_computed()),
                                    4 => *e = std::mem::replace(e, DomElement::new("x")).attrs(vec![(name.to_string(), &a)]),
                                    5 => *e = std::mem::replace(e, DomElement::new("x")).attr(name.to_string(), a.clone()),
                                    _ => e.add_attr(name.to_string(), a.map(Option::unwrap_or_default)),
                                }
                                attrs.insert((n, name.to_string()), a);
                                if op == "attr" {
                                    want_attr.push((n, name.to_string(), new.clone()));
                                }
                            }
                        }
                        if op == "class" {
                            s.class = new;
                        }
                    }
                    "noclass" | "noattr" => {
                        let name = if op == "noclass" { "class" } else { *v };
                        let Some(a) = attrs.get(&(n, name.to_string())) else { return hx_core::invalid() };
                        if op == "noattr" && name == "class" {
                            return hx_core::invalid();
                        }
                        let is = vertigo::transaction(|c| a.get(c));
                        let had = is.is_some();
                        a.set(None);
                        // a value of texts shows an empty one instead
                        let gone = ((n as usize + name.len()) % 7 == 6).then(String::new);
                        if op == "noclass" {
                            s.class = gone;
                        } else if is.unwrap_or_default() != "" || gone.is_none() && had {
                            want_attr.push((n, name.to_string(), gone));
                        }
                    }
                    _ => return hx_core::invalid(),
                }
            }
        }
        h::flush_dom_changes();
        // the callbacks of nodes
        for (x, (told, seen, _)) in watch.iter_mut() {
            let told = told.borrow();
            if told.is_empty() {
                return Err(format!("after `{l}` the callback of {x} was never told anything"));
            }
            if told.windows(2).any(|w| w[0] == w[1]) {
                return Err(format!("after `{l}` the callback of {x} was told the same twice in a row: {told:?}"));
            }
            if *seen > 0 && told.len() > *seen + 1 && op != "del" {
                return Err(format!("after `{l}` the callback of {x} was told {:?} at once", &told[*seen..]));
            }
            *seen = told.len();
            if let Some(q) = m.parent.get(x) {
                let want = m.loading(*q);
                if *told.last().unwrap() != want {
                    return Err(format!("after `{l}` the callback of {x} in {q} was last told {}, expected {want}", told.last().unwrap()));
                }
            }
        }
        // what is sent
        let sent = changes(&host::take(&got));
        let other: Vec<_> = sent.iter().filter(|c| c.1 != "class").cloned().collect();
        let want: Vec<_> = want_attr.into_iter().map(|(n, a, v)| (id(&ids, n).to_u64(), a, v)).collect();
        if other != want {
            return Err(format!("after `{l}` the changes of attributes {other:?} were sent, expected {want:?}"));
        }
        for (x, (e, s)) in els.iter_mut() {
            if let (Some((_, b)), Some(q)) = (s.sus.as_mut(), m.parent.get(x)) {
                *b = m.loading(*q);
            }
            let mine: Vec<_> = sent.iter().filter(|c| c.0 == e.id_dom().to_u64() && c.1 == "class").collect();
            let before = s.sent.clone();
            for c in mine {
                let Some(v) = &c.2 else { return Err(format!("after `{l}` the class of {x} is removed")) };
                if s.sent.as_deref().unwrap_or("") == v && !v.is_empty() {
                    return Err(format!("after `{l}` the class {v:?} of {x} is sent again"));
                }
                s.sent = Some(v.clone());
            }
            let have = s.sent.clone().unwrap_or_default();
            // the parts from the end: styles are single words
            let mut rest = have.as_str();
            let parts = s.parts();
            for (i, part) in parts.iter().enumerate().rev() {
                let word = if i == 0 {
                    let w = rest;
                    rest = "";
                    w
                } else {
                    let Some((a, b)) = rest.rsplit_once(' ') else {
                        return Err(format!("after `{l}` the class of {x} is {have:?}, with fewer parts than expected (before: {before:?})"));
                    };
                    rest = a;
                    b
                };
                match part {
                    Part::Text(t) => {
                        if t != word {
                            return Err(format!("after `{l}` the class of {x} is {have:?}, expected {t:?} at its start"));
                        }
                    }
                    Part::Style(k) => match names.get(k) {
                        Some(n) if n == word => {}
                        Some(n) => return Err(format!("after `{l}` the class of {x} is {have:?}, expected {n:?} as its part {i}")),
                        None => {
                            if names.values().any(|n| n == word) || !word.starts_with("autocss_") || word.contains(' ') {
                                return Err(format!("after `{l}` the class of {x} is {have:?}, with {word:?} for a new style"));
                            }
                            names.insert(*k, word.to_string());
                        }
                    },
                }
            }
            if parts.is_empty() && !have.is_empty() {
                return Err(format!("after `{l}` the class of {x} is {have:?}, expected none"));
            }
        }
    }
    // what is left is checked no further
    std::mem::forget(els);
    Ok(())
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let fixed = [
                "node 1\nput 1 0\nnode 2\nput 2 1\nwatch 2\npend 3\nput 3 1\ndel 3\nunwatch 2",
                "node 1\nnode 2\nwatch 2\nput 2 1\npend 3\nput 3 1\nnode 4\nput 4 0\nput 3 4\nput 4 1\nput 1 0\nput 4 0\ndel 4",
                "node 1\nput 1 0\nnode 2\nput 2 1\nwatch 2\nnode 5\nput 5 1\nnode 6\nput 6 5\npend 3\nput 3 6\npend 7\nput 7 5\ndel 6\ndel 7\npend 8\nput 8 5\ndel 5",
                "node 1\nput 1 0\nel 2\nput 2 1\nsus 2 0\npend 3\nput 3 1\nclass 2 a\ncss 2 3\nnoclass 2 x\ndel 3\nsus 2 -\npend 4\nput 4 1\nclass 2 b",
                "node 1\nput 1 0\nel 2\nsus 2 0\nput 2 1\nattr 2 title x\nclass 2 p\nclass 2 q\nattr 2 title y\nnoattr 2 title\nnoclass 2 x\nclass 2 r\nsus 2 1\npend 3\nput 3 1",
                "node 1\nput 1 0\nel 2\nput 2 1\nsus 2 0\nsus 2 1\npend 3\nput 3 1\ndel 3",
                "node 1\nput 1 0\nnode 2\nput 2 1\nwatch 2\nunwatch 2\nwatch 2\npend 3\nput 3 2\nunwatch 2\nwatch 2\ndel 3",
                "grid 60 3\nnode 1\nput 1 0\npend 2\nput 2 1\ndel 100000",
                "grid 120 1\ndel 111900\ndel 110000\nnode 5\nput 5 100200\nput 5 0\ndel 100000",
                "grid 240 0\npend 1\nput 1 123900\nput 1 112000\nput 1 100000\ndel 1",
                "grid 400 0\npend 1\nput 1 139900\nput 1 120000\nput 1 139900\ndel 1",
            ];
            for f in fixed {
                if !sink(f.to_string()) {
                    return;
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 200_000 } else { 8_000 };
            for i in 0..n {
                let size = if i % 40 == 39 { 200 } else { 4 + r.below(30) };
                let nodes = if i % 40 == 39 { 40 } else { 3 + r.below(7) };
                let mut m = Model::default();
                let mut els = vec![];
                let mut watched: Vec<u64> = vec![];
                let mut s = vec![];
                for x in 1..=nodes {
                    match r.below(10) {
                        0..=4 => s.push(format!("node {x}")),
                        5..=7 => s.push(format!("pend {x}")),
                        _ => {
                            s.push(format!("el {x}"));
                            els.push(x)
                        }
                    }
                    m.alive.push(x);
                }
                let mut next = nodes;
                for _ in 0..size {
                    if m.alive.is_empty() {
                        break;
                    }
                    let x = *r.pick(&m.alive);
                    match r.below(20) {
                        0..=8 => {
                            let q = if r.chance(1, 4) { 0 } else { *r.pick(&m.alive) };
                            if m.inside(q, x) {
                                continue;
                            }
                            let sibs: Vec<u64> = m.alive.iter().copied().filter(|k| *k != x && m.parent.get(k) == Some(&q)).collect();
                            if !sibs.is_empty() && r.chance(1, 2) {
                                s.push(format!("putb {x} {q} {}", r.pick(&sibs)));
                            } else {
                                s.push(format!("put {x} {q}"));
                            }
                            m.parent.insert(x, q);
                        }
                        9..=10 => {
                            let gone: Vec<u64> = m.alive.iter().copied().filter(|k| m.inside(*k, x)).collect();
                            if gone.iter().any(|g| els.contains(g)) {
                                continue;
                            }
                            s.push(format!("del {x}"));
                            m.alive.retain(|k| !gone.contains(k));
                            m.parent.retain(|k, _| !gone.contains(k));
                            watched.retain(|k| !gone.contains(k));
                        }
                        11..=13 => {
                            if els.contains(&x) {
                                continue;
                            }
                            if watched.contains(&x) {
                                watched.retain(|k| *k != x);
                                s.push(format!("unwatch {x}"));
                            } else {
                                watched.push(x);
                                s.push(format!("watch {x}"));
                            }
                        }
                        14 => {
                            next += 1;
                            m.alive.push(next);
                            s.push(format!("{} {next}", if r.chance(1, 2) { "pend" } else { "node" }));
                        }
                        k if !els.is_empty() => {
                            let e = *r.pick(&els);
                            match k {
                                15 => s.push(format!("css {e} {}", r.below(4))),
                                16 => s.push(format!("class {e} {}", r.pick(&["a", "b", "autocss_1", "ą"]))),
                                17 => s.push(if s.iter().any(|l| l.starts_with(&format!("class {e} "))) { format!("noclass {e} x") } else { format!("class {e} z") }),
                                18 => s.push(format!("attr {e} {} {}", r.pick(&["title", "Class", "class2"]), r.below(3))),
                                _ => s.push(if r.chance(1, 5) { format!("sus {e} -") } else { format!("sus {e} {}", r.below(3)) }),
                            }
                        }
                        _ => {}
                    }
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    );
}
