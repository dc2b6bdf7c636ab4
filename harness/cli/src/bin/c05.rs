//! The server's document after random histories of DOM commands against a model of the browser's DOM.
//! One JSON command per line; a line "--" ends a batch (AllElements::feed is called once per batch).
use hx_cli::gen::{commands, Dom, N};
use hx_cli::html::{element::AllElements, DomCommand, HtmlNode};
use std::collections::BTreeMap;

fn same(d: &Dom, id: u64, h: &HtmlNode, with_id: bool) -> Result<(), String> {
    match (d.nodes.get(&id), h) {
        (Some(N::T(a)), HtmlNode::Text(b)) if a == b => Ok(()),
        (Some(N::C(a)), HtmlNode::Comment(b)) if a == b => Ok(()),
        (Some(N::E(name, attr, ch)), HtmlNode::Element(e)) => {
            let got: Vec<(String, String)> = e.attr.get_iter();
            let mut want = attr.clone();
            if with_id {
                want.insert("data-id".into(), id.to_string());
            }
            if &e.name != name || got.len() != want.len() || got.into_iter().collect::<BTreeMap<_, _>>() != want {
                return Err(format!("node {id}: <{} {:?}> instead of <{name} {want:?}>", e.name, e.attr.get_iter()));
            }
            if e.children.len() != ch.len() {
                return Err(format!("node {id} has {} children instead of {}", e.children.len(), ch.len()));
            }
            ch.iter().zip(e.children.iter()).try_for_each(|(c, x)| same(d, *c, x, with_id))
        }
        (w, _) => Err(format!("node {id} should be {w:?}")),
    }
}

fn check(input: &str) -> hx_core::Res {
    let mut all = AllElements::new();
    let mut d = Dom::default();
    let mut batch: Vec<DomCommand> = vec![];
    let mut lines: Vec<&str> = input.lines().collect();
    lines.push("--");
    for l in lines {
        if l != "--" {
            let Ok(c) = serde_json::from_str::<DomCommand>(l) else { return hx_core::invalid() };
            if !d.apply(&c) || !d.nodes.contains_key(&1) {
                return hx_core::invalid();
            }
            batch.push(c);
            continue;
        }
        all.feed(std::mem::take(&mut batch));
        if !d.nodes.contains_key(&1) {
            continue;
        }
        for with_id in [false, true] {
            let (root, css) = all.get_response(with_id);
            same(&d, 1, &root, with_id)?;
            let ok = css.len() == d.css.len()
                && css.iter().zip(&d.css).all(|(h, (s, v))| match h {
                    HtmlNode::Element(e) => {
                        let mut text = String::new();
                        for c in &e.children {
                            match c {
                                HtmlNode::Text(t) => text.push_str(t),
                                _ => return false,
                            }
                        }
                        let squash = |x: &str| x.split_whitespace().collect::<Vec<_>>().join(" ");
                        e.name == "style" && squash(&text) == squash(&format!("{s} {{ {v} }}"))
                    }
                    _ => false,
                });
            if !ok {
                return Err(format!("the style rules differ from {:?}", d.css));
            }
        }
    }
    Ok(())
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let n = if cfg.thorough { 400_000 } else { 12_000 };
            // many children, attributes and levels, moved and removed
            for k in [17u64, 65, 130, 300] {
                let el = |id: u64| DomCommand::CreateNode { id, name: "div".into() };
                let ins = |parent: u64, child: u64, ref_id: Option<u64>| DomCommand::InsertBefore { parent, child, ref_id };
                let show = |v: Vec<DomCommand>, cut: usize| -> String {
                    let mut out = vec![];
                    for (i, c) in v.iter().enumerate() {
                        out.push(serde_json::to_string(c).unwrap_or_default());
                        if i % cut == cut - 1 {
                            out.push("--".into());
                        }
                    }
                    out.join("\n")
                };
                // wide
                let mut a = vec![el(1), el(2), el(3), ins(1, 2, None), ins(1, 3, None)];
                for i in 0..k {
                    let id = 10 + i;
                    a.push(match i % 3 {
                        0 => el(id),
                        1 => DomCommand::CreateText { id, value: format!("t{i}") },
                        _ => DomCommand::CreateComment { id, value: format!("c{i}") },
                    });
                    a.push(ins(2, id, None));
                }
                a.extend([ins(2, 10, None), ins(2, 9 + k, Some(11)), ins(2, 10 + k / 2, Some(9 + k)), ins(3, 12, None), ins(3, 14, Some(12)), ins(2, 14, None)]);
                a.extend((0..k).filter(|i| i % 3 == 0 && i % 2 == 0).map(|i| ins(3, 10 + i, Some(12))));
                a.extend((0..k).filter(|i| i % 3 == 1).map(|i| DomCommand::RemoveText { id: 10 + i }));
                a.push(DomCommand::RemoveNode { id: 2 });
                a.push(ins(1, 12, Some(3)));
                // deep, and a part of it moved and removed
                let mut b = vec![el(1)];
                for i in 0..k {
                    b.push(el(10 + i));
                    b.push(ins(if i == 0 { 1 } else { 9 + i }, 10 + i, None));
                    b.push(DomCommand::SetAttr { id: 10 + i, name: "id".into(), value: i.to_string() });
                }
                b.extend([ins(1, 10 + k / 2, Some(10)), ins(9 + k, 10, None), DomCommand::RemoveNode { id: 10 + k / 2 }]);
                // many attributes and styles
                let mut c = vec![el(1)];
                c.extend((0..k).map(|i| DomCommand::SetAttr { id: 1, name: format!("a{i}"), value: "v".repeat(i as usize) }));
                c.extend((0..k).filter(|i| i % 4 == 1).map(|i| DomCommand::SetAttr { id: 1, name: format!("a{i}"), value: "w".into() }));
                c.extend((0..k).filter(|i| i % 3 == 1).map(|i| DomCommand::RemoveAttr { id: 1, name: format!("a{i}") }));
                c.extend((0..k).map(|i| DomCommand::InsertCss { selector: format!(".s{}", i % 90), value: format!("width: {i}px") }));
                for x in [a, b, c] {
                    let n = x.len();
                    if !sink(show(x.clone(), n)) || !sink(show(x, (n / 5).max(1))) {
                        return;
                    }
                }
            }
            for _ in 0..n {
                let len = 3 + r.below(60);
                let mut s: Vec<String> = vec![];
                for c in commands(&mut r, len) {
                    s.push(serde_json::to_string(&c).unwrap_or_default());
                    if r.chance(1, 6) {
                        s.push("--".into());
                    }
                }
                if !sink(s.join("\n")) {
                    return;
                }
            }
        },
        check,
    )
}
