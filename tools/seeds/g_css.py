import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
SP = "crates/vertigo/src/css/transform_css/splits.rs"
CM = "crates/vertigo/src/css/css_manager.rs"
CSS = B.HOST + '''
use vertigo::{inspect::{log_start, log_take}, Css, DomElement, DriverDomCommand};
// the class of an element with this css, and the rules inserted for it
fn style(css: Css) -> (String, Vec<(String, String)>) {
    log_start();
    let _el = DomElement::new("div").css(css);
    let (mut class, mut rules) = (String::new(), vec![]);
    for c in log_take() {
        match c {
            DriverDomCommand::SetAttr { name, value, .. } if name.as_str() == "class" => class = value,
            DriverDomCommand::InsertCss { selector, value } => rules.push((selector, value)),
            _ => {}
        }
    }
    (class, rules)
}
'''
DEPS = 'vertigo = { path = "@REPO@/crates/vertigo" }'
SEEDS = [
 dict(id="css-nesting-counted-in-a-byte", prop="C20",
  edits=[(SP, "    BracketsOpened(u16),", "    BracketsOpened(u8),")],
  needs="brackets nested more than 255 deep", breaks="the counter of open brackets overflows: a panic, or a block cut inside its brackets",
  deps=DEPS, main=CSS + '''fn main() {
    let _ = host();
    for n in [10usize, 300] {
        let inner = format!("{}a: b; c: d{}", "{ ".repeat(n), " }".repeat(n));
        let (class, rules) = style(Css::string(format!("color: red; :hover {{ x {inner} }}; top: 0")));
        assert_eq!(rules.last().unwrap(), &(format!(".{class}"), "color: red; top: 0".to_string()));
        assert_eq!(rules[0].1, format!("x {inner}"));
    }
}
'''),
 dict(id="css-cache-bounded", prop="C20",
  edits=[(CM, """        self.inner.ids_dynamic.insert(css, class_id);
""", """        // computed styles may be without number: keep only the recent ones
        if class_id % 512 == 0 {
            self.inner.ids_dynamic.retain(|_, id| *id + 512 > class_id);
        }
        self.inner.ids_dynamic.insert(css, class_id);
""")],
  needs="a computed style block used again after more than a thousand others", breaks="the block gets a second class and its rules are inserted again",
  deps=DEPS, main=CSS + '''fn main() {
    let _ = host();
    let (first, rules) = style(Css::string("color: blue".into()));
    assert_eq!(rules.len(), 1);
    for i in 0..1500 {
        assert_eq!(style(Css::string(format!("left: {i}px"))).1.len(), 1);
    }
    assert_eq!(style(Css::string("color: blue".into())), (first, vec![]));
}
'''),
 dict(id="css-equal-rules-merged", prop="C20",
  edits=[("crates/vertigo/src/css/transform_css/mod.rs", """    let css_out: String = css_out.join("; ");
""", """    css_documents.dedup_by(|a, b| a.1 == b.1);

    let css_out: String = css_out.join("; ");
""")],
  needs="two bracketed rows of a block, one behind the other, with the same contents", breaks="the second rule is lost",
  deps=DEPS, main=CSS + '''fn main() {
    let _ = host();
    let (class, rules) = style(Css::str("color: red; :hover { color: blue; }; :focus { color: blue; };"));
    assert_eq!(rules, vec![
        (format!(".{class}:hover"), "color: blue;".to_string()),
        (format!(".{class}:focus"), "color: blue;".to_string()),
        (format!(".{class}"), "color: red".to_string()),
    ]);
}
'''),
]
