//! Style blocks. Every line is an element; its css is made of the groups separated by tabs, each "s" (static text) or "d"
//! (computed text) followed by the block, in which ¶ stands for a line break.
use hx_vertigo::{host, J};
use std::collections::BTreeMap;
use vertigo::{verif_hooks as h, Css, CssGroup, DomElement};

type Docs = Vec<(String, String)>;

// ---- the contract, executable ----
fn depth_ok(s: &str) -> bool {
    let mut d = 0i64;
    for c in s.chars() {
        d += (c == '{') as i64 - (c == '}') as i64;
        if !(0..65536).contains(&d) {
            return false;
        }
    }
    true
}
// the text between separators; joined by ";" they are the block
fn pieces(s: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut d = 0i64;
    for c in s.chars() {
        let l = out.last_mut().unwrap();
        if c == ';' && d == 0 && l.contains([':', '.', '{']) {
            out.push(String::new());
            continue;
        }
        d += (c == '{') as i64 - (c == '}') as i64;
        l.push(c);
    }
    out
}
fn rows(s: &str) -> Vec<String> {
    pieces(s).iter().map(|p| p.trim().to_string()).filter(|p| !p.is_empty()).collect()
}
fn brackets(s: &str) -> Option<(String, String, String)> {
    let (a, r) = s.split_once('{')?;
    let (m, z) = r.rsplit_once('}')?;
    Some((a.trim().into(), m.trim().into(), z.trim().into()))
}
fn sel(row: &str, parent: &str) -> Option<(String, String)> {
    brackets(row).map(|b| (format!("{parent}{}", b.0), b.1))
}
fn is_media(row: &str) -> bool {
    row.starts_with("@media")
}
fn valid(css: &str) -> bool {
    depth_ok(css) && rows(css).iter().all(|r| !is_media(r) || brackets(r).map(|b| depth_ok(&b.1)).unwrap_or(true))
}
// the rules of a block whose class has this number, and the last number used
fn sheet(css: &str, id: u64) -> (Docs, u64) {
    let mut last = id;
    let parent = format!(".autocss_{id}");
    let (mut own, mut docs) = (vec![], vec![]);
    for row in rows(css) {
        if row.starts_with(':') || row.starts_with('[') {
            docs.extend(sel(&row, &parent));
        } else if is_media(&row) {
            if let Some(b) = brackets(&row) {
                let inner = rows(&b.1);
                let (ps, reg): (Vec<_>, Vec<_>) = inner.into_iter().partition(|r| r.starts_with(':'));
                let mut parts = vec![];
                if !reg.is_empty() {
                    parts.push(format!("{parent} {{ {} }}", reg.join(";")));
                }
                for p in ps.iter().filter_map(|r| sel(r, &parent)) {
                    parts.push(format!("{} {{ {} }}", p.0, p.1));
                }
                if !parts.is_empty() {
                    docs.push((b.0, parts.join("\n")));
                }
            }
        } else if let Some((n, v)) = row.split_once(':') {
            let (n, mut v) = (n.trim(), v.trim().to_string());
            if n == "animation" {
                if let Some(b) = brackets(&v) {
                    last += 1;
                    v = format!("{} autocss_{last} {}", b.0, b.2);
                    docs.push((format!("@keyframes autocss_{last}"), b.1));
                }
            }
            own.push(format!("{n}: {v}"));
        } else {
            own.push(row);
        }
    }
    docs.push((parent, own.join("; ")));
    (docs, last)
}

fn text(m: &BTreeMap<String, J>, k: &str) -> String {
    match m.get(k) {
        Some(J::Str(s)) => s.clone(),
        _ => String::new(),
    }
}
fn check(input: &str) -> hx_core::Res {
    let input = input.to_string();
    hx_core::isolated(move || {
        let got = host::record();
        h::fetch_start();
        h::fetch_stop();
        let mut last = 0u64;
        let mut ids: BTreeMap<(char, String), u64> = BTreeMap::new();
        let mut by_class: BTreeMap<String, String> = BTreeMap::new();
        for (n, line) in input.lines().enumerate() {
            let mut groups = vec![];
            let mut want: Docs = vec![];
            let mut names = vec![];
            for g in line.split('\t') {
                let Some(kind) = g.chars().next() else { return hx_core::invalid() };
                let css = g[kind.len_utf8()..].replace('¶', "\n");
                if !"sd".contains(kind) || !valid(&css) {
                    return hx_core::invalid();
                }
                let id = *ids.entry((kind, css.clone())).or_insert_with(|| {
                    let id = last + 1;
                    let (d, l) = sheet(&css, id);
                    want.extend(d);
                    last = l;
                    id
                });
                names.push((format!("autocss_{id}"), css.clone()));
                groups.push(match kind {
                    's' => CssGroup::CssStatic { value: Box::leak(css.into_boxed_str()) },
                    _ => CssGroup::CssDynamic { value: css },
                });
            }
            let at = |e: String| format!("element {n} ({:?}): {}", line.chars().take(300).collect::<String>(), e.chars().take(600).collect::<String>());
            // built in the ways the macro builds it
            let mut css = Css::default();
            for g in groups {
                css = match g {
                    CssGroup::CssStatic { value } if n % 2 == 0 => css.push_str(value),
                    CssGroup::CssStatic { value } => css.extend(Css::str(value)),
                    CssGroup::CssDynamic { value } if n % 2 == 0 => {
                        css.push_string(value);
                        css
                    }
                    CssGroup::CssDynamic { value } => css.extend(Css::string(value)),
                    _ => css,
                };
            }
            let el = DomElement::new("div").css(css);
            let id = el.id_dom().to_u64();
            h::flush_dom_changes();
            let (mut docs, mut class): (Docs, Option<String>) = (vec![], None);
            for c in host::take(&got) {
                let J::Obj(m) = &c else { continue };
                match text(m, "type").as_str() {
                    "insert_css" => docs.push((text(m, "selector"), text(m, "value"))),
                    "set_attr" if text(m, "name") == "class" && matches!(m.get("id"), Some(J::Num(i)) if f64::from_bits(*i) as u64 == id) => class = Some(text(m, "value")),
                    _ => {}
                }
            }
            if docs != want {
                return Err(at(format!("the rules {docs:?} were inserted instead of {want:?}")));
            }
            let class = class.unwrap_or_default();
            if class != names.iter().map(|n| n.0.clone()).collect::<Vec<_>>().join(" ") {
                return Err(at(format!("the class is {class:?} instead of {names:?}")));
            }
            for (name, (_, css)) in class.split(' ').zip(&names) {
                if by_class.insert(name.to_string(), css.clone()).map(|old| old != *css).unwrap_or(false) {
                    return Err(at(format!("{name} is the class of two different blocks")));
                }
            }
            drop(el);
        }
        Ok(())
    })
}

const BITS: &[&str] = &["color", ": ", ":", ";", ";", ";", " ", "¶", "red", ".5s", "{", "}", "{ ", " };", "[hidden] {", ":hover {", ":focus-within { ", "@media (min-width: 1px) { ", "@media print {", "animation: 1s ", "animation : ", "animation-name: ", "é", "漢字 ", "🦀", "url(a:b)", "--x: ", "content: \"é\"", ".autocss_3 {", "0% { width: 1px } ", "", "\u{a0}", "@media", "@font-face {"];
fn block(rng: &mut hx_core::Rng, n: u64) -> String {
    let mut s = String::new();
    let mut d = 0u64;
    for _ in 0..n {
        let b = *rng.pick(BITS);
        let (o, c) = (b.matches('{').count() as u64, b.matches('}').count() as u64);
        if c > d + o || (b.starts_with(' ') && c > d) || (b == "}" && d == 0) {
            continue;
        }
        d = d + o - c;
        s.push_str(b);
    }
    for _ in 0..d {
        s.push_str(if rng.chance(1, 2) { "}" } else { " };" });
    }
    s
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            // all short texts over the characters that matter
            let abc = ["{", "}", ";", ":", "a", "é", " ", "."];
            for len in 1..=5u32 {
                let all: Vec<String> = (0..8u64.pow(len)).map(|c| (0..len).map(|i| abc[(c / 8u64.pow(i) % 8) as usize]).collect::<String>()).filter(|s| valid(s)).collect();
                for chunk in all.chunks(64) {
                    if !sink(chunk.iter().map(|s| format!("d{s}")).collect::<Vec<_>>().join("\n")) {
                        return;
                    }
                }
            }
            // many blocks, rows and brackets
            let many: Vec<String> = (0..1200).map(|i| format!("{}color: #{:06x};", if i % 3 == 0 { "s" } else { "d" }, i / 2)).collect();
            if !sink(many.join("\n")) || !sink(many.join("\t")) {
                return;
            }
            // all of them once more, in the other order
            for k in ["d", "s"] {
                let n = 5000;
                let again: Vec<String> = (0..n).chain((0..n).rev()).map(|i| format!("{k}left: {i}px;")).collect();
                if !sink(again.join("\n")) {
                    return;
                }
            }
            // blocks that are alike, but not the same
            for k in ["d", "s"] {
                let alike = ["content: 'A';", "content: 'a';", "content: 'a b';", "content: 'a  b';", "content: 'ab';", "content: 'a';x", "content: \"a\";", "width: 10px", "width: 1px", "width: 10PX", "width: -10px", "--A: 1", "--a: 1", "content: 'é'", "content: 'e\u{301}'"];
                let all: Vec<String> = alike.iter().chain(alike.iter().rev()).map(|b| format!("{k}{b}")).filter(|b| valid(&b[1..])).collect();
                if !sink(all.join("\n")) || !sink(all.join("\t")) {
                    return;
                }
            }
            for n in [255, 256, 257, 1000, 40000] {
                let deep = format!("dcolor: red; .a {}x: y;{}; top: 0", "{".repeat(n), "}".repeat(n));
                if !sink(deep) || !sink(format!("d{}", "é: ü; ".repeat(n))) {
                    return;
                }
            }
            let mut rng = hx_core::Rng::new(cfg.seed);
            for _ in 0..if cfg.thorough { 200_000 } else { 8_000 } {
                let mut seen: Vec<String> = vec![];
                let mut out = vec![];
                for _ in 0..1 + rng.below(5) {
                    let mut gs = vec![];
                    for _ in 0..1 + rng.below(3) {
                        let b = if !seen.is_empty() && rng.chance(1, 3) { rng.pick(&seen).clone() } else { let n = 1 + rng.below(30); block(&mut rng, n) };
                        if valid(&b.replace('¶', "\n")) {
                            seen.push(b.clone());
                            gs.push(format!("{}{b}", rng.pick(&["s", "d"])));
                        }
                    }
                    if !gs.is_empty() {
                        out.push(gs.join("\t"));
                    }
                }
                if !out.is_empty() && !sink(out.join("\n")) {
                    return;
                }
            }
        },
        check,
    );
}
