//! What components put on the page. One operation per line; W is the number of a value, all values are 0 at first.
//! "ids N": N ids are given out. Otherwise:
//!   root K COMP     an element is made with the component as its child, and put on the page under the number K
//!   add K COMP      a child is added to it
//!   addt K TEXT     a text is added to it
//!   set W N         a value is changed
//!   tx W N W N ...  several values are changed in one transaction
//!   drop K          the element is dropped
//! Components, in prefix notation:
//!   e NAME ( COMP* )      element                 t TEXT     text          c TEXT   comment
//!   m K W                 the value embedded as such (K: four ways), or an element with embedded texts
//!   b W                   text bound to the value  n W       an element with the value as its text, made anew for every value
//!   r W ( COMP ) ( COMP ) rendered value: the first if the value is even, the second otherwise
//!   o W ( COMP )          rendered only if the value is odd; made anew when the oddness changes
//!   f ( COMP* )           fragment
//!   x W                   text bound to the value, empty for every third one
//!   q W ( COMP ) ( COMP ) list of some numbers below 5 in some order, of which the even ones are the first and the odd ones the second
//!   l W ( COMP )          list of (value modulo 4) items, rendered as an element with the item and the component
use hx_core::Rng;
use hx_vertigo::{dom_model::Dom, dom_model::Kind, host};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vertigo::{transaction, verif_hooks as h, Computed, DomComment, DomElement, DomId, DomNode, DomText, EmbedDom, Value};

enum Comp {
    El(String, Vec<Comp>),
    Text(String),
    Note(String),
    Bound(usize),
    Num(usize),
    Embed(usize, usize),
    Render(usize, Rc<Comp>, Rc<Comp>),
    Opt(usize, Rc<Comp>),
    Frag(Vec<Comp>),
    List(usize, Rc<Comp>),
    Often(usize),
    Moved(usize, Rc<Comp>, Rc<Comp>),
}
use Comp::*;
const VALUES: usize = 6;
struct P<'a> {
    t: Vec<&'a str>,
    p: usize,
    left: usize,
}
impl P<'_> {
    fn tok(&mut self) -> Option<&str> {
        self.p += 1;
        self.t.get(self.p - 1).copied()
    }
    fn open(&mut self) -> Option<()> {
        (self.tok()? == "(").then_some(())
    }
    fn many(&mut self, depth: u32) -> Option<Vec<Comp>> {
        self.open()?;
        let mut out = vec![];
        while *self.t.get(self.p)? != ")" {
            out.push(self.comp(depth)?);
        }
        self.p += 1;
        Some(out)
    }
    fn one(&mut self, depth: u32) -> Option<Rc<Comp>> {
        let mut l = self.many(depth)?;
        (l.len() == 1).then(|| Rc::new(l.remove(0)))
    }
    fn value(&mut self) -> Option<usize> {
        self.tok()?.parse::<usize>().ok().filter(|v| *v < VALUES)
    }
    fn comp(&mut self, depth: u32) -> Option<Comp> {
        self.left = self.left.checked_sub(1)?;
        if depth > 60 {
            return None;
        }
        let d = depth + 1;
        Some(match self.tok()? {
            "e" => {
                let n = self.tok()?.to_string();
                El(n, self.many(d)?)
            }
            "t" => Text(self.tok()?.to_string()),
            "c" => Note(self.tok()?.to_string()),
            "b" => Bound(self.value()?),
            "n" => Num(self.value()?),
            "m" => Embed(self.tok()?.parse::<usize>().ok().filter(|k| *k < 5)?, self.value()?),
            "r" => Render(self.value()?, self.one(d)?, self.one(d)?),
            "o" => Opt(self.value()?, self.one(d)?),
            "f" => Frag(self.many(d)?),
            "l" => List(self.value()?, self.one(d)?),
            "x" => Often(self.value()?),
            "q" => Moved(self.value()?, self.one(d)?, self.one(d)?),
            _ => return None,
        })
    }
}
fn comp(t: &[&str]) -> Option<Rc<Comp>> {
    let mut p = P { t: t.to_vec(), p: 0, left: 400 };
    let c = p.comp(0)?;
    (p.p == t.len() && weight(&c) < 20_000).then(|| Rc::new(c))
}
// an upper bound for the nodes
fn weight(c: &Comp) -> usize {
    match c {
        El(_, l) | Frag(l) => 1 + l.iter().map(weight).sum::<usize>(),
        Render(_, a, b) => 1 + weight(a).max(weight(b)),
        Opt(_, a) => 1 + weight(a),
        List(_, a) => 1 + 4 * (1 + weight(a)),
        Moved(_, a, b) => 1 + 3 * (1 + weight(a) + weight(b)),
        _ => 2,
    }
}
fn shown_text(n: i64) -> String {
    format!("[{n}]")
}
fn named(n: &str) -> DomElement {
    DomElement::new(n.to_string())
}
fn build(c: &Comp, v: &Rc<Vec<Value<i64>>>) -> DomNode {
    match c {
        El(n, l) => {
            let e = named(n);
            // one by one or all at once
            if n.len() % 2 == 0 {
                return DomNode::from(e.children(l.iter().map(|c| build(c, v)).collect::<Vec<DomNode>>()));
            }
            DomNode::from(l.iter().fold(e, |e, c| e.child(build(c, v))))
        }
        Text(t) => DomNode::from(t.as_str()),
        Note(t) => DomNode::from(DomComment::new(t.as_str())),
        Bound(w) => DomNode::from(DomText::new_computed(v[*w].to_computed().map(shown_text))),
        Num(w) => v[*w].to_computed().render_value(|x| DomNode::from(named("num").child_text(shown_text(x)))),
        Embed(k, w) => match k {
            0 => v[*w].clone().embed(),
            1 => (&v[*w]).embed(),
            2 => v[*w].to_computed().embed(),
            3 => (&v[*w].to_computed()).embed(),
            _ => named("i").child("k").child(4_i64.embed()).embed(),
        },
        Render(w, a, b) => {
            let (a, b, v2) = (a.clone(), b.clone(), v.clone());
            v[*w].to_computed().render_value(move |x| build(if even(x) { &a } else { &b }, &v2))
        }
        Opt(w, a) => {
            let (a, v2) = (a.clone(), v.clone());
            v[*w].to_computed().map(|x| !even(x)).render_value_option(move |x| x.then(|| build(&a, &v2)))
        }
        List(w, a) => {
            let (a, v2) = (a.clone(), v.clone());
            let items: Computed<Vec<i64>> = v[*w].to_computed().map(items);
            items.render_list(|x| *x, move |x| DomNode::from(named("item").child_text(shown_text(*x)).child(build(&a, &v2))))
        }
        Often(w) => DomNode::from(DomText::new_computed(v[*w].to_computed().map(often))),
        Moved(w, a, b) => {
            let (a, b, v2) = (a.clone(), b.clone(), v.clone());
            let items: Computed<Vec<i64>> = v[*w].to_computed().map(order);
            items.render_list(|x| *x, move |x| build(if even(*x) { &a } else { &b }, &v2))
        }
        Frag(l) => DomNode::from(DomComment::dom_fragment(l.iter().map(|c| build(c, v)).collect())),
    }
}
fn even(x: i64) -> bool {
    x % 2 == 0
}
fn often(x: i64) -> String {
    if x % 3 == 0 { String::new() } else { shown_text(x) }
}
// some of 0..5, turned and perhaps reversed
fn order(x: i64) -> Vec<i64> {
    let mut l: Vec<i64> = (0..5).filter(|i| (x >> 3) >> i & 1 == 0).collect();
    if !l.is_empty() {
        let n = l.len();
        l.rotate_left((x & 3) as usize % n);
    }
    if x & 4 != 0 {
        l.reverse();
    }
    l
}
fn items(x: i64) -> Vec<i64> {
    (0..x.rem_euclid(4)).rev().collect()
}
// what is to be seen; "new" nodes are made anew when the values in changed change
#[derive(PartialEq, Debug)]
struct See {
    what: String,
    below: Vec<See>,
    new: bool,
}
type Now = [i64; VALUES];
fn see(c: &Comp, v: &Now, old: &Now, new: bool, out: &mut Vec<See>) {
    let el = |n: &str, below, new| See { what: n.to_string(), below, new };
    let many = |l: &[Comp]| {
        let mut b = vec![];
        l.iter().for_each(|c| see(c, v, old, new, &mut b));
        b
    };
    let text = |s: &str, new| See { what: format!(":{s}"), below: vec![], new };
    match c {
        El(n, l) => out.push(el(n, many(l), new)),
        Text(t) => out.push(text(t, new)),
        Note(_) => {}
        Bound(w) => out.push(text(&shown_text(v[*w]), new)),
        Num(w) => {
            let new = new || v[*w] != old[*w];
            out.push(el("num", vec![text(&shown_text(v[*w]), new)], new))
        }
        Embed(4, _) => out.push(el("i", vec![text("k", new), text("4", new)], new)),
        Embed(_, w) => out.push(text(&v[*w].to_string(), new || v[*w] != old[*w])),
        Render(w, a, b) => see(if even(v[*w]) { a } else { b }, v, old, new || v[*w] != old[*w], out),
        Opt(w, a) => {
            if !even(v[*w]) {
                see(a, v, old, new || even(v[*w]) != even(old[*w]), out)
            }
        }
        Frag(l) => out.extend(many(l)),
        Often(w) => out.push(text(&often(v[*w]), new)),
        Moved(w, a, b) => order(v[*w]).into_iter().for_each(|i| see(if even(i) { a } else { b }, v, old, new || v[*w] != old[*w], out)),
        List(w, a) => {
            for i in items(v[*w]) {
                let new = new || v[*w] != old[*w];
                let mut below = vec![text(&shown_text(i), new)];
                see(a, v, old, new, &mut below);
                out.push(el("item", below, new));
            }
        }
    }
}
fn strip(l: &[See], out: &mut String) {
    for s in l {
        out.push_str(&s.what);
        out.push('(');
        strip(&s.below, out);
        out.push(')');
    }
}
fn actual(d: &Dom, id: u64, out: &mut String) {
    for c in d.nodes.get(&id).map(|n| n.children.clone()).unwrap_or_default() {
        match d.nodes.get(&c).map(|n| &n.kind) {
            Some(Kind::Element(n)) => out.push_str(n),
            Some(Kind::Text(t)) => {
                out.push(':');
                out.push_str(t);
            }
            _ => continue,
        }
        out.push('(');
        actual(d, c, out);
        out.push(')');
    }
}
fn visible(d: &Dom, id: u64, out: &mut Vec<u64>) {
    for c in d.nodes.get(&id).map(|n| n.children.clone()).unwrap_or_default() {
        if !matches!(d.nodes.get(&c).map(|n| &n.kind), Some(Kind::Comment)) {
            out.push(c);
            visible(d, c, out);
        }
    }
}
fn flags(l: &[See], out: &mut Vec<bool>) {
    for s in l {
        out.push(s.new);
        flags(&s.below, out);
    }
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || match input.strip_prefix("ids ").map(|n| n.parse::<u64>()) {
        Some(Ok(n)) => ids(n.min(300_000)),
        Some(Err(_)) => hx_core::invalid(),
        None => run(&input),
    })
}
/// every node has an id of its own, and the page's fixed ones stay theirs
fn ids(n: u64) -> hx_core::Res {
    let mut seen: std::collections::HashSet<u64> = [("html", 1u64), ("head", 2), ("body", 3)].iter().map(|(s, _)| DomId::from_name(s).to_u64()).collect();
    if seen != [1, 2, 3].into() || DomId::root_id().to_u64() != 1 {
        return Err(format!("html, head and body are {seen:?}"));
    }
    for i in 0..n {
        let id = match i % 2 {
            0 => DomId::default(),
            _ => DomId::from_name("div"),
        };
        if !seen.insert(id.to_u64()) || DomId::from_u64(id.to_u64()) != id {
            return Err(format!("{id:?}, the {i}th, is given out twice"));
        }
    }
    Ok(())
}
const PAGE: u64 = 900_000_000;
struct Root {
    el: DomElement,
    id: u64,
    parts: Vec<Rc<Comp>>,
}
fn run(input: &str) -> hx_core::Res {
    let got = host::record();
    h::fetch_start();
    h::fetch_stop();
    let page = DomId::from_u64(PAGE);
    h::dom::create_node(page, "page");
    let values: Rc<Vec<Value<i64>>> = Rc::new((0..VALUES).map(|_| Value::new(0)).collect());
    let mut now: Now = [0; VALUES];
    let mut roots: BTreeMap<u64, Root> = BTreeMap::new();
    let mut dom = Dom::default();
    for (at, l) in input.lines().enumerate() {
        let t: Vec<&str> = l.split_whitespace().collect();
        let k = t.get(1).and_then(|x| x.parse::<u64>().ok());
        let old = now;
        let mut fresh: BTreeSet<u64> = Default::default(); // elements with a part added
        match (t.first().copied(), k) {
            (Some("root"), Some(k)) => {
                let Some(c) = comp(&t[2..]) else { return hx_core::invalid() };
                if roots.contains_key(&k) || roots.len() > 20 {
                    return hx_core::invalid();
                }
                let el = named("root").child(build(&c, &values));
                h::dom::insert_before(page, el.id_dom(), None);
                let id = el.id_dom().to_u64();
                roots.insert(k, Root { el, id, parts: vec![c] });
                fresh.insert(k);
            }
            (Some("add"), Some(k)) => {
                let Some(c) = comp(&t[2..]) else { return hx_core::invalid() };
                let Some(r) = roots.get_mut(&k) else { return hx_core::invalid() };
                if r.parts.len() > 40 {
                    return hx_core::invalid();
                }
                r.el.add_child(build(&c, &values));
                r.parts.push(c);
                fresh.insert(k);
            }
            (Some("addt"), Some(k)) => {
                let (Some(r), Some(s)) = (roots.get_mut(&k), t.get(2)) else { return hx_core::invalid() };
                if r.parts.len() > 40 {
                    return hx_core::invalid();
                }
                r.el.add_child_text(*s);
                r.parts.push(Rc::new(Text(s.to_string())));
                fresh.insert(k);
            }
            (Some("set"), Some(w)) | (Some("tx"), Some(w)) => {
                let n: Option<Vec<i64>> = t[1..].iter().map(|x| x.parse().ok()).collect();
                let Some(n) = n else { return hx_core::invalid() };
                if n.len() < 2 || n.len() % 2 != 0 || n.chunks(2).any(|c| c[0] < 0 || c[0] as usize >= VALUES) || (t[0] == "set" && n.len() != 2) {
                    return hx_core::invalid();
                }
                for c in n.chunks(2) {
                    now[c[0] as usize] = c[1];
                }
                if t[0] == "set" {
                    values[w as usize].set(n[1]);
                } else {
                    transaction(|_| n.chunks(2).for_each(|c| values[c[0] as usize].set(c[1])));
                }
            }
            (Some("drop"), Some(k)) => {
                let Some(r) = roots.remove(&k) else { return hx_core::invalid() };
                drop(r);
            }
            _ => return hx_core::invalid(),
        }
        let before: BTreeMap<u64, Vec<u64>> = roots
            .iter()
            .map(|(k, r)| {
                let mut o = vec![];
                visible(&dom, r.id, &mut o);
                (*k, o)
            })
            .collect();
        h::flush_dom_changes();
        for c in host::take(&got) {
            dom.apply(&c).map_err(|e| format!("line {}: {e}", at + 1))?;
        }
        let shown: Vec<u64> = dom.nodes[&PAGE].children.clone();
        // roots are put at the end of the page
        if shown.iter().collect::<BTreeSet<_>>() != roots.values().map(|r| &r.id).collect::<BTreeSet<_>>() || shown.len() != roots.len() {
            return Err(format!("line {}: the page has the elements {shown:?}, expected {:?}", at + 1, roots.values().map(|r| r.id).collect::<Vec<_>>()));
        }
        for (k, r) in &roots {
            let (mut want, mut have) = (String::new(), String::new());
            let mut s = vec![];
            r.parts.iter().for_each(|c| see(c, &now, &old, false, &mut s));
            strip(&s, &mut want);
            actual(&dom, r.id, &mut have);
            if want != have {
                return Err(format!("line {}: the element {k} shows {have}, expected {want}", at + 1));
            }
            if !fresh.contains(k) {
                let (mut was, mut f) = (vec![], vec![]);
                r.parts.iter().for_each(|c| see(c, &old, &now, false, &mut was));
                flags(&was, &mut f);
                let kept: Vec<u64> = before[k].iter().zip(&f).filter(|(_, n)| !**n).map(|(i, _)| *i).collect();
                let (mut ids, mut f) = (vec![], vec![]);
                visible(&dom, r.id, &mut ids);
                flags(&s, &mut f);
                let same: Vec<u64> = ids.iter().zip(&f).filter(|(_, n)| !**n).map(|(i, _)| *i).collect();
                if kept != same {
                    return Err(format!("line {}: nodes that do not depend on what changed were replaced: {kept:?} became {same:?}", at + 1));
                }
            }
        }
    }
    drop(roots);
    h::flush_dom_changes();
    for c in host::take(&got) {
        dom.apply(&c).map_err(|e| format!("at the end: {e}"))?;
    }
    if dom.nodes.len() != 1 {
        return Err(format!("{} nodes are left although all components were dropped: {:?}", dom.nodes.len() - 1, dom.nodes));
    }
    // nothing that was bound runs any more
    for (i, v) in values.iter().enumerate() {
        v.set(now[i] + 1);
    }
    h::flush_dom_changes();
    let late = host::take(&got);
    if !late.is_empty() {
        return Err(format!("changes after all components were dropped: {late:?}"));
    }
    Ok(())
}
const NAMES: [&str; 6] = ["p", "ul", "div", "section", "b", "h1"];
fn random(r: &mut Rng, depth: u32, out: &mut String) {
    let w = r.below(VALUES as u64);
    let leaf = depth == 0 || r.below(5) == 0;
    let many = |r: &mut Rng, out: &mut String| {
        out.push_str("( ");
        for _ in 0..r.below(4) {
            random(r, depth - 1, out);
        }
        out.push_str(") ");
    };
    let one = |r: &mut Rng, out: &mut String| {
        out.push_str("( ");
        random(r, depth - 1, out);
        out.push_str(") ");
    };
    if leaf {
        match r.below(6) {
            0 => out.push_str("c note "),
            1 => out.push_str(&format!("t x{} ", r.below(9))),
            2 => out.push_str(&format!("{} {w} ", if r.below(3) == 0 { 'x' } else { 'b' })),
            3 => out.push_str(&format!("m {} {w} ", r.below(5))),
            _ => out.push_str(&format!("n {w} ")),
        }
        return;
    }
    match r.below(10) {
        9 => {
            out.push_str(&format!("q {w} "));
            one(r, out);
            one(r, out);
        }
        0..=2 => {
            out.push_str(&format!("e {} ", NAMES[r.below(6) as usize]));
            many(r, out);
        }
        3 | 4 => {
            out.push_str(&format!("r {w} "));
            one(r, out);
            one(r, out);
        }
        5 | 6 => {
            out.push_str(&format!("o {w} "));
            one(r, out);
        }
        7 => {
            out.push_str("f ");
            many(r, out);
        }
        _ => {
            out.push_str(&format!("l {w} "));
            one(r, out);
        }
    }
}
fn history(r: &mut Rng, thorough: bool) -> String {
    let mut out = String::new();
    let mut up: Vec<u64> = vec![];
    let depth = 1 + r.below(if thorough { 6 } else { 5 }) as u32;
    for i in 0..(4 + r.below(if thorough { 40 } else { 16 })) {
        let c = |r: &mut Rng| {
            let mut s = String::new();
            random(r, depth, &mut s);
            s
        };
        let n = |r: &mut Rng| match r.below(12) {
            0 => i64::from(r.below(u32::MAX as u64) as u32) - (1 << 31),
            1..=3 => r.below(256) as i64,
            _ => r.below(8) as i64,
        };
        match r.below(12) {
            0 | 1 => {
                out.push_str(&format!("root {i} {}\n", c(r)));
                up.push(i);
            }
            2 if !up.is_empty() => out.push_str(&format!("add {} {}\n", up[r.below(up.len() as u64) as usize], c(r))),
            3 if !up.is_empty() => out.push_str(&format!("addt {} y{}\n", up[r.below(up.len() as u64) as usize], r.below(9))),
            4 if up.len() > 1 => {
                let k = up.remove(r.below(up.len() as u64) as usize);
                out.push_str(&format!("drop {k}\n"));
            }
            5 | 6 => {
                out.push_str("tx");
                for _ in 0..(1 + r.below(4)) {
                    out.push_str(&format!(" {} {}", r.below(VALUES as u64), n(r)));
                }
                out.push('\n');
            }
            _ if up.is_empty() => {
                out.push_str(&format!("root {i} {}\n", c(r)));
                up.push(i);
            }
            _ => out.push_str(&format!("set {} {}\n", r.below(VALUES as u64), n(r))),
        }
    }
    out
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let fixed = [
                "ids 140000".to_string(),
                "root 1 f ( )\nroot 2 e p ( )\nset 0 1\ndrop 1".to_string(),
                "root 1 r 0 ( f ( t a b 1 t c ) ) ( o 1 ( f ( n 1 n 2 ) ) )\nset 0 1\nset 1 1\nset 2 5\nset 0 2\nset 1 2\nset 0 3\nset 1 3".to_string(),
                "root 1 o 0 ( r 1 ( r 2 ( n 3 ) ( b 3 ) ) ( t z ) )\nset 0 1\nset 2 1\nset 3 9\ntx 0 2 1 1 2 2 3 4\ntx 0 3 1 2\nset 3 1".to_string(),
                "root 1 q 0 ( r 1 ( b 2 ) ( x 2 ) ) ( o 1 ( n 2 ) )\nset 1 1\nset 0 1\nset 2 5\nset 0 7\nset 1 2\nset 0 80\nset 2 3\nset 0 5\nset 1 1\nset 0 248\nset 0 2\nset 2 4".to_string(),
                "root 1 l 0 ( r 1 ( b 2 ) ( f ( t a n 2 ) ) )\nset 0 3\nset 1 1\nset 2 1\nset 0 2\nset 0 7\ntx 0 1 1 2".to_string(),
                format!("root 1 e ul ( {})\nset 0 1\nset 0 2", "e li ( b 0 ) ".repeat(150)),
                format!("root 1 {}b 0{}\nset 0 1\nset 0 2", "e div ( ".repeat(50), " )".repeat(50)),
                format!("root 1 {}n 0{}\nset 0 1\nset 1 1\nset 0 2\nset 2 1\ntx 1 2 2 2 0 3", "o 3 ( r 1 ( f ( ".repeat(12), " ) ) ( n 2 ) )".repeat(12)) + "\nset 3 1\nset 0 4\nset 2 3\nset 3 2",
                format!("root 1 n 0{}", (1..150).map(|i| format!("\nset 0 {i}")).collect::<String>()),
                format!("root 1 e p ( ){}\nset 0 1\nset 1 1", "\nadd 1 f ( b 0 n 1 )\naddt 1 q".repeat(18)),
            ];
            for f in fixed {
                if !sink(f) {
                    return;
                }
            }
            let mut r = Rng::new(cfg.seed);
            for _ in 0..(if cfg.thorough { 60_000 } else { 4_000 }) {
                if !sink(history(&mut r, cfg.thorough).trim_end().to_string()) {
                    return;
                }
            }
        },
        check,
    )
}
