//! Rendered lists. First line "kinds <letters>": the item with key k is rendered as kinds[k % len]: e element, t text,
//! f two elements side by side, v a value, l a list, m all of these side by side. Every other line is a new list:
//! items "key.version" separated by blanks.
use hx_vertigo::{dom_model::Dom, host};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vertigo::{verif_hooks as h, DomComment, DomElement, DomNode, Value};

type Item = (u32, u32);
fn el(name: &'static str, text: &str) -> DomNode {
    let e = DomElement::new(name);
    e.add_child_text(text);
    DomNode::from(e)
}
fn make(kind: u8, label: &str) -> DomNode {
    match kind {
        b't' => DomNode::from(label.to_string()),
        b'f' => DomNode::from(DomComment::dom_fragment(vec![el("dt", label), el("dd", label)])),
        b'v' => Value::new(label.to_string()).to_computed().render_value(|x| el("b", &x)),
        b'l' => Value::new(vec![format!("{label}x"), format!("{label}y"), format!("{label}z")]).to_computed().render_list(|x| x.clone(), |x| el("i", x)),
        b'm' => DomNode::from(DomComment::dom_fragment([b't', b'v', b'l', b'f', b'e', b'v'].map(|k| make(k, label)).into_iter().collect())),
        _ => el("li", label),
    }
}
fn expected(kind: u8, label: &str) -> Vec<String> {
    match kind {
        b't' => vec![format!(":{label}")],
        b'f' => vec![format!("dt:{label}"), format!("dd:{label}")],
        b'v' => vec![format!("b:{label}")],
        b'l' => ["x", "y", "z"].iter().map(|s| format!("i:{label}{s}")).collect(),
        b'm' => [b't', b'v', b'l', b'f', b'e', b'v'].iter().flat_map(|k| expected(*k, label)).collect(),
        _ => vec![format!("li:{label}")],
    }
}
fn parse(l: &str) -> Option<Vec<Item>> {
    l.split_whitespace()
        .map(|p| {
            let (k, v) = p.split_once('.')?;
            Some((k.parse().ok()?, v.parse().ok()?))
        })
        .collect()
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let mut lines = input.lines();
        let Some(kinds) = lines.next().and_then(|l| l.strip_prefix("kinds ")).map(|k| k.as_bytes().to_vec()) else { return hx_core::invalid() };
        if kinds.is_empty() || !kinds.iter().all(|k| b"etfvlm".contains(k)) {
            return hx_core::invalid();
        }
        let lists: Option<Vec<Vec<Item>>> = lines.map(parse).collect();
        let Some(lists) = lists else { return hx_core::invalid() };
        if lists.is_empty() {
            return hx_core::invalid();
        }
        let got = host::record();
        h::fetch_start();
        h::fetch_stop();
        let renders: Rc<RefCell<Vec<u32>>> = Default::default();
        let value = Value::new(lists[0].clone());
        let parent = DomElement::new("ul");
        parent.add_child_text("before");
        let list = value.to_computed().render_list(|i: &Item| i.0, {
            let (renders, kinds) = (renders.clone(), kinds.clone());
            move |i: &Item| {
                let serial = renders.borrow().len();
                renders.borrow_mut().push(i.0);
                make(kinds[i.0 as usize % kinds.len()], &format!("k{}r{serial}_", i.0))
            }
        });
        parent.add_child(list);
        parent.add_child_text("after");
        let id = parent.id_dom().to_u64();
        let mut dom = Dom::default();
        let mut old: Vec<Item> = vec![];
        let mut done = 0;
        for (n, new) in lists.iter().enumerate() {
            if n > 0 {
                value.set(new.clone());
            }
            h::flush_dom_changes();
            for c in host::take(&got) {
                dom.apply(&c)?;
            }
            let at = |e: String| format!("list {n}: {}", e.chars().take(600).collect::<String>());
            let all = dom.seen(id);
            let mut rest = match all.as_slice() {
                [a, m @ .., b] if a == ":before" && b == ":after" => m,
                _ => return Err(at(format!("the siblings are not around the list: {all:?}"))),
            };
            let rendered = renders.borrow().clone();
            let mut used = std::collections::BTreeSet::new();
            for i in new {
                let wrong = || at(format!("item {} of {new:?} is not at its place in {all:?}", i.0));
                let serial = rest.first().and_then(|s| s.split_once('r')).and_then(|s| s.1.split('_').next()).and_then(|s| s.parse::<usize>().ok()).ok_or_else(wrong)?;
                if rendered.get(serial) != Some(&i.0) || !used.insert(serial) {
                    return Err(wrong());
                }
                let want = expected(kinds[i.0 as usize % kinds.len()], &format!("k{}r{serial}_", i.0));
                if rest.len() < want.len() || rest[..want.len()] != want[..] {
                    return Err(wrong());
                }
                rest = &rest[want.len()..];
            }
            if !rest.is_empty() {
                return Err(at(format!("left over for {new:?}: {rest:?}")));
            }
            // as few new nodes as possible
            let count = |l: &[Item]| l.iter().fold(BTreeMap::<u32, usize>::new(), |mut m, i| (*m.entry(i.0).or_default() += 1, m).1);
            let (was, is) = (count(&old), count(new));
            let want: BTreeMap<u32, usize> = is.iter().map(|(k, n)| (*k, n.saturating_sub(was.get(k).copied().unwrap_or(0)))).filter(|x| x.1 > 0).collect();
            let new_renders = rendered[done..].iter().fold(BTreeMap::<u32, usize>::new(), |mut m, k| (*m.entry(*k).or_default() += 1, m).1);
            if new_renders != want {
                return Err(at(format!("new nodes by key {new_renders:?} instead of {want:?}, {old:?} => {new:?}")));
            }
            done = rendered.len();
            old = new.clone();
        }
        Ok(())
    })
}

fn line(l: &[Item]) -> String {
    l.iter().map(|(k, v)| format!("{k}.{v}")).collect::<Vec<_>>().join(" ")
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            // every pair of lists of up to three items with three keys, in two kinds
            let mut all: Vec<Vec<Item>> = vec![vec![]];
            for n in 1..=3u32 {
                for code in 0..3u32.pow(n) {
                    all.push((0..n).map(|i| (code / 3u32.pow(i) % 3, 0)).collect());
                }
            }
            for kinds in ["e", "f", "v", "etf"] {
                for a in &all {
                    for b in &all {
                        if !sink(format!("kinds {kinds}\n{}\n{}", line(a), line(b))) {
                            return;
                        }
                    }
                }
            }
            for n in [20u32, 70, 300, 1500] {
                let up: Vec<Item> = (0..n).map(|i| (i, 0)).collect();
                let down: Vec<Item> = (0..n).rev().map(|i| (i, 0)).collect();
                let odd: Vec<Item> = (0..n).filter(|i| i % 2 == 1).map(|i| (i, 0)).collect();
                let same: Vec<Item> = (0..n).map(|i| (i % 3, i)).collect();
                for kinds in ["e", "ef"] {
                    if !sink(format!("kinds {kinds}\n{}\n{}\n{}\n{}\n\n{}", line(&up), line(&down), line(&odd), line(&same), line(&up))) {
                        return;
                    }
                }
            }
            // many markers before an element, and then something new in front of them
            for n in (5..40).chain([65, 130, 260]) {
                for m in ["v", "f", "vfl"] {
                    let kinds: String = m.chars().cycle().take(n as usize).chain(['e']).collect();
                    let old: Vec<Item> = (0..=n).map(|i| (i, 0)).collect();
                    let with = |at: u32, k: u32| -> Vec<Item> { old.iter().take(at as usize).copied().chain([(n + 1 + k, 0)]).chain(old.iter().skip(at as usize).copied()).collect() };
                    if !sink(format!("kinds {kinds}\n{}\n{}\n{}\n{}\n{}", line(&old), line(&with(0, n)), line(&with(0, 0)), line(&with(n / 2, n)), line(&old))) {
                        return;
                    }
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            for _ in 0..(if cfg.thorough { 60_000 } else { 2_500 }) {
                let kinds: String = (0..1 + r.below(4)).map(|_| *r.pick(&['e', 'e', 't', 'f', 'v', 'l', 'm'])).collect();
                let mut s = vec![format!("kinds {kinds}")];
                let keys = 1 + r.below(12);
                let mut cur: Vec<Item> = vec![];
                for _ in 0..2 + r.below(8) {
                    for _ in 0..r.below(6) {
                        let at = r.below(cur.len() as u64 + 1) as usize;
                        match r.below(5) {
                            0 if at < cur.len() => {
                                cur.remove(at);
                            }
                            1 if at < cur.len() => {
                                let x = cur.remove(at);
                                let to = r.below(cur.len() as u64 + 1) as usize;
                                cur.insert(to, x);
                            }
                            2 if at < cur.len() => cur[at].1 = r.below(3) as u32,
                            _ => cur.insert(at, (r.below(keys) as u32, r.below(3) as u32)),
                        }
                    }
                    if r.chance(1, 12) {
                        cur.clear();
                    }
                    if r.chance(1, 8) {
                        cur.reverse();
                    }
                    s.push(line(&cur));
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
