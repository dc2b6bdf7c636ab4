//! Documents served as text, indented and not, read back by an HTML parser of its own.
//! The input is a tree in JSON: {"n": name, "a": [[name, value]..], "c": [children]}, {"t": text}, {"m": comment}.
use hx_cli::html::html_element::{HtmlDocument, HtmlElement};
use hx_cli::html::HtmlNode;
use serde_json::{json, Value};

const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

#[derive(Clone, Debug, PartialEq)]
enum T {
    E(String, Vec<(String, String)>, Vec<T>),
    X(String),
}

fn str_of(v: &Value) -> Option<String> {
    v.as_str().map(String::from)
}
fn node(v: &Value) -> Option<HtmlNode> {
    if let Some(t) = v.get("t") {
        return Some(HtmlNode::Text(str_of(t)?));
    }
    if let Some(t) = v.get("m") {
        return Some(HtmlNode::Comment(str_of(t)?));
    }
    let mut e = HtmlElement::new(str_of(v.get("n")?)?);
    for a in v.get("a")?.as_array()? {
        e = e.attr(str_of(a.get(0)?)?, str_of(a.get(1)?)?);
    }
    for c in v.get("c")?.as_array()? {
        e = e.child(node(c)?);
    }
    Some(HtmlNode::Element(e))
}
fn push(out: &mut Vec<T>, t: T) {
    match (out.last_mut(), t) {
        (Some(T::X(a)), T::X(b)) => a.push_str(&b),
        (_, t) => out.push(t),
    }
}
fn raw(name: &str) -> bool {
    let n = name.to_lowercase();
    n == "script" || n == "style"
}
/// the tree a parser is meant to find; None: outside the domain
fn expect(v: &Value, top: bool) -> Option<Vec<T>> {
    if let Some(t) = v.get("t") {
        return (!top).then_some(vec![T::X(str_of(t)?)]);
    }
    if v.get("m").is_some() {
        return (!top).then_some(vec![]);
    }
    let name = str_of(v.get("n")?)?;
    let ok = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_' || c == ':');
    if !ok(&name) || !name.starts_with(|c: char| c.is_ascii_alphabetic()) {
        return None;
    }
    let mut attrs: Vec<(String, String)> = vec![];
    for a in v.get("a")?.as_array()? {
        let (k, x) = (str_of(a.get(0)?)?, str_of(a.get(1)?)?);
        if !ok(&k) {
            return None;
        }
        attrs.retain(|(o, _)| *o != k);
        attrs.push((k, x));
    }
    let mut kids = vec![];
    for c in v.get("c")?.as_array()? {
        for t in expect(c, false)? {
            push(&mut kids, t);
        }
    }
    if VOID.contains(&name.as_str()) && !kids.is_empty() {
        return None;
    }
    if raw(&name) && kids.iter().any(|k| !matches!(k, T::X(t) if !t.contains('<'))) {
        return None;
    }
    Some(vec![T::E(name, attrs, kids)])
}
/// the tree without white space at the ends of its texts (and without empty texts)
fn norm(ts: Vec<T>, trim: bool) -> Vec<T> {
    let mut out = vec![];
    for t in ts {
        match t {
            T::X(x) => {
                let x = if trim { x.trim_matches([' ', '\n']).to_string() } else { x };
                if !x.is_empty() {
                    out.push(T::X(x));
                }
            }
            T::E(n, a, k) => out.push(T::E(n, a, norm(k, trim))),
        }
    }
    out
}
fn decode(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let hit = rest.find(';').and_then(|e| {
            let c = match &rest[1..e] {
                "amp" => Some('&'),
                "lt" => Some('<'),
                "gt" => Some('>'),
                "quot" => Some('"'),
                "apos" => Some('\''),
                "nbsp" => Some('\u{a0}'),
                n => {
                    let n = n.strip_prefix('#')?;
                    let v = match n.strip_prefix(['x', 'X']) {
                        Some(h) => u32::from_str_radix(h, 16).ok()?,
                        None => n.parse().ok()?,
                    };
                    char::from_u32(v)
                }
            };
            c.map(|c| (c, e + 1))
        });
        match hit {
            Some((c, n)) => {
                out.push(c);
                rest = &rest[n..];
            }
            None => {
                out.push('&');
                rest = &rest[1..];
            }
        }
    }
    out.push_str(rest);
    out
}
/// an HTML parser: tokens and a stack of open elements
fn parse(text: &str) -> Result<Vec<T>, String> {
    let mut rest = text.trim_start();
    let Some(r) = rest.get(..15).filter(|d| d.eq_ignore_ascii_case("<!doctype html>")) else { return Err("no document type".into()) };
    rest = &rest[r.len()..];
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<T>)> = vec![(String::new(), vec![], vec![])];
    while !rest.is_empty() {
        let top = stack.len() - 1;
        if top > 0 && raw(&stack[top].0) {
            // raw text: up to the end tag
            let Some(e) = rest.find("</") else { return Err("raw text without an end".into()) };
            if e > 0 {
                push(&mut stack[top].2, T::X(rest[..e].to_string()));
            }
            rest = &rest[e..];
        }
        if let Some(r) = rest.strip_prefix("<!--") {
            let Some(e) = r.find("-->") else { return Err("a comment without an end".into()) };
            rest = &r[e + 3..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let Some(e) = r.find('>') else { return Err("an end tag without an end".into()) };
            let name = r[..e].trim_end();
            let Some((n, a, k)) = stack.pop().filter(|x| x.0 == name && !stack.is_empty()) else { return Err(format!("</{name}> ends another element")) };
            let at = stack.len() - 1;
            push(&mut stack[at].2, T::E(n, a, k));
            rest = &r[e + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let n = r.find(|c: char| c.is_whitespace() || c == '>' || c == '/').ok_or("a tag without an end")?;
            let name = &r[..n];
            if !name.starts_with(|c: char| c.is_ascii_alphabetic()) {
                return Err(format!("a tag <{name}"));
            }
            let mut r = &r[n..];
            let mut attrs: Vec<(String, String)> = vec![];
            let mut closed = false;
            loop {
                r = r.trim_start();
                if let Some(x) = r.strip_prefix("/>") {
                    closed = true;
                    r = x;
                    break;
                }
                if let Some(x) = r.strip_prefix('>') {
                    r = x;
                    break;
                }
                let n = r.find(|c: char| c.is_whitespace() || c == '=' || c == '>' || c == '/').ok_or("an attribute without an end")?;
                if n == 0 {
                    return Err(format!("an attribute in <{name} without a name"));
                }
                let key = r[..n].to_string();
                r = &r[n..];
                let mut value = String::new();
                if let Some(x) = r.strip_prefix('=') {
                    let q = x.chars().next().unwrap_or('>');
                    if q == '"' || q == '\'' {
                        let e = x[1..].find(q).ok_or("an attribute value without an end")?;
                        value = decode(&x[1..1 + e]);
                        r = &x[e + 2..];
                    } else {
                        let e = x.find(|c: char| c.is_whitespace() || c == '>').ok_or("an attribute value without an end")?;
                        value = decode(&x[..e]);
                        r = &x[e..];
                    }
                }
                attrs.push((key, value));
            }
            rest = r;
            if VOID.contains(&name) {
                let at = stack.len() - 1;
                push(&mut stack[at].2, T::E(name.to_string(), attrs, vec![]));
            } else if closed {
                return Err(format!("<{name} /> does not close itself in HTML"));
            } else {
                stack.push((name.to_string(), attrs, vec![]));
            }
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            push(&mut stack[top].2, T::X(decode(&rest[..e])));
            rest = &rest[e..];
        }
    }
    match (stack.len(), stack.pop()) {
        (1, Some((_, _, k))) => Ok(k),
        _ => Err("an element is not closed".into()),
    }
}
fn short(t: &impl std::fmt::Debug) -> String {
    format!("{t:?}").chars().take(400).collect()
}
fn check(input: &str) -> hx_core::Res {
    let Ok(v) = serde_json::from_str::<Value>(input) else { return hx_core::invalid() };
    let (Some(root), Some(want)) = (node(&v), expect(&v, true)) else { return hx_core::invalid() };
    for format in [false, true] {
        let text = hx_core::caught(|| HtmlDocument::new(root.clone()).convert_to_string(format))?;
        let got = parse(&text).map_err(|e| format!("{e} in {}", short(&text)))?;
        let (got, want) = (norm(got, format), norm(want.clone(), format));
        if got != want {
            return Err(format!("{} is read as {} instead of {}", short(&text), short(&got), short(&want)));
        }
    }
    Ok(())
}

const BITS: [&str; 36] = [
    "<", ">", "&", "\"", "'", "/", "=", " ", "\n", "-", "-->", "<!--", "</div>", "<b>", "&amp;", "&lt;", "&#x27;", "&#39;", "&amp", "&;", "&#", ";", "a", "b", "zażółć", "日本", "\u{1f600}", "]]>", "<![CDATA[",
    "</script>", "\t", "`", "\\", "\u{a0}", "\u{0}", "x=\"y\"",
];
fn text(r: &mut hx_core::Rng) -> String {
    let n = match r.below(12) {
        0 => 0,
        1 => 400,
        2 => 40,
        _ => 1 + r.below(6),
    };
    let mut s = String::new();
    for _ in 0..n {
        match r.below(4) {
            0 => s.push(char::from_u32(r.below(0x250) as u32).unwrap_or('?')),
            1 => s.push(char::from_u32((b' ' as u64 + r.below(95)) as u32).unwrap_or('?')),
            _ => s.push_str(*r.pick(&BITS[..])),
        }
    }
    s
}
const NAMES: [&str; 34] = [
    "div", "span", "p", "a", "ul", "li", "b", "my-element", "h1", "Div", "script", "style", "SCRIPT", "Style", "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr",
    "textarea", "title", "svg:path", "pre", "table", "button",
];
const KEYS: [&str; 8] = ["class", "id", "data-id", "href", "style", "on_x", "xlink:href", "value"];
fn tree(r: &mut hx_core::Rng, depth: u64, budget: &mut u64) -> Value {
    let mut name = *r.pick(&NAMES[..]);
    if r.chance(1, 2) {
        name = *r.pick(&NAMES[..8]);
    }
    let attrs: Vec<Value> = (0..r.below(4)).map(|_| json!([*r.pick(&KEYS[..]), text(r)])).collect();
    let mut kids = vec![];
    if raw(name) {
        for _ in 0..r.below(4) {
            kids.push(if r.chance(1, 4) { json!({"m": text(r)}) } else { json!({"t": text(r).replace('<', "")}) });
        }
    } else if VOID.contains(&name) {
        for _ in 0..r.below(8) / 7 {
            kids.push(json!({"m": text(r)}));
        }
    } else {
        let n = if r.chance(1, 30) { 60 } else { r.below(6) };
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            *budget -= 1;
            kids.push(match r.below(10) {
                0 => json!({"m": text(r)}),
                1..=4 => json!({"t": text(r)}),
                _ if depth > 0 => tree(r, depth - 1, budget),
                _ => json!({"t": text(r)}),
            });
        }
    }
    json!({"n": name, "a": attrs, "c": kids})
}
fn el(name: &str, attrs: Value, kids: Vec<Value>) -> Value {
    json!({"n": name, "a": attrs, "c": kids})
}
fn fixed() -> Vec<Value> {
    let mut out = vec![];
    for c in (0..0x3100).filter_map(char::from_u32) {
        let s = format!("a{c}b{c}");
        out.push(el("div", json!([["k", s]]), vec![json!({"t": s}), el("b", json!([]), vec![json!({"t": c})]), json!({"t": c})]));
    }
    for a in BITS {
        for b in BITS {
            let s = format!("{a}{b}");
            out.push(el("div", json!([["k", s], ["m", b]]), vec![json!({"t": s}), json!({"m": s}), json!({"t": a}), el("hr", json!([["k", s]]), vec![]), json!({"t": b})]));
        }
    }
    for n in NAMES {
        out.push(el("div", json!([]), vec![el(n, json!([["k", "v"]]), vec![]), json!({"t": "x"})]));
        out.push(el(n, json!([]), vec![json!({"t": "x"}), json!({"t": " y "})]));
        out.push(el("p", json!([]), vec![el(n, json!([]), vec![json!({"t": "x & y"})])]));
        out.push(el("p", json!([]), vec![el(n, json!([]), vec![json!({"t": "x & y"}), el("i", json!([]), vec![]), json!({"t": "\"z\" &"})])]));
    }
    for n in [300u64, 3000, 70_000] {
        let kids: Vec<Value> = (0..n).map(|i| if i % 3 == 0 { json!({"t": "<&>\"'"}) } else { el(if i % 3 == 1 { "b" } else { "br" }, json!([["i", i.to_string()]]), vec![]) }).collect();
        out.push(el("div", json!([]), kids));
        out.push(el("div", json!([["k", "&\"<".repeat(n as usize)]]), vec![json!({"t": "</div>".repeat(n as usize)})]));
        let attrs: Vec<Value> = (0..n.min(3000)).map(|i| json!([format!("k{i}"), format!("\"{i}")])).collect();
        out.push(el("div", json!(attrs), vec![]));
    }
    let mut deep = json!({"t": "<x>"});
    for i in 0..50 {
        deep = el("div", json!([["d", i.to_string()]]), vec![json!({"t": "<"}), deep, json!({"t": ">"})]);
    }
    out.push(deep);
    out
}

fn main() {
    hx_core::main(
        |cfg, sink| {
            for v in fixed() {
                if !sink(v.to_string()) {
                    return;
                }
            }
            let mut r = hx_core::Rng::new(cfg.seed);
            for _ in 0..(if cfg.thorough { 600_000 } else { 12_000 }) {
                let depth = r.below(7);
                let mut budget = 120;
                if !sink(tree(&mut r, depth, &mut budget).to_string()) {
                    return;
                }
            }
        },
        check,
    )
}
