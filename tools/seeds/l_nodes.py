import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
DV = "crates/vertigo/src/render/dom_value.rs"
DC = "crates/vertigo/src/dom/dom_comment.rs"
DT = "crates/vertigo/src/dom/dom_text.rs"
NODES = B.HOST + '''
use vertigo::{inspect::{log_start, log_take, DomDebugFragment}, DomComment, DomElement, DomNode, DomText, DriverDomCommand, Value};
struct Page { root: DomElement, log: Vec<DriverDomCommand> }
fn el(name: &'static str, text: &str) -> DomNode { DomNode::from(DomElement::new(name).child_text(text)) }
fn page() -> Page {
    let _ = host();
    log_start();
    Page { root: DomElement::new("main"), log: vec![] }
}
impl Page {
    // what stands in the page, without comments
    fn seen(&mut self) -> String {
        self.log.extend(log_take());
        log_start();
        let mut f = DomDebugFragment::from_cmds(self.log.clone());
        f.root_node = Some(self.root.id_dom());
        let mut h = f.to_pseudo_html();
        while let (Some(a), Some(b)) = (h.find("<!--"), h.find("-->")) { h.replace_range(a..b + 3, ""); }
        h.replace("<main>", "").replace("</main>", "").replace(' ', "").replace('\\n', "")
    }
}
'''
DEPS = 'vertigo = { path = "@REPO@/crates/vertigo" }'
SEEDS = [
 dict(id="value-none-keeps-node", prop="C35",
  edits=[(DV, """                current_node.change(|current| {
                    *current = new_element;
                });
""", """                current_node.change(|current| match new_element {
                    Some(new_element) => *current = Some(new_element),
                    // nothing was rendered, so there is nothing to hold
                    None => {}
                });
""")],
  needs="an optional value that is taken away", breaks="the node of the earlier value stays on the page",
  deps=DEPS, main=NODES + '''fn main() {
    let mut p = page();
    let v = Value::new(Some(1));
    p.root.add_child(v.render_value_option(|v| v.map(|v: i32| el("b", &v.to_string()))));
    assert_eq!(p.seen(), "<b>1</b>");
    v.set(None);
    assert_eq!(p.seen(), "");
    v.set(Some(2));
    assert_eq!(p.seen(), "<b>2</b>");
}
'''),
 dict(id="marker-keeps-first-mount", prop="C35",
  edits=[(DC, """                current_client.change(|current| {
                    *current = client;
                });
""", """                current_client.change(|current| {
                    if current.is_none() {
                        *current = client;
                    }
                });
""")],
  needs="a rendered value that is moved to another place of its list", breaks="its contents stay where they were",
  deps=DEPS, main=NODES + '''fn main() {
    let mut p = page();
    let (v, l) = (Value::new(7), Value::new(vec![1, 2, 3]));
    let v2 = v.clone();
    p.root.add_child(l.render_list(|i| *i, move |i| if *i == 2 { v2.render_value(|v| el("b", &v.to_string())) } else { el("i", &i.to_string()) }));
    assert_eq!(p.seen(), "<i>1</i><b>7</b><i>3</i>");
    l.set(vec![2, 3, 1]);
    assert_eq!(p.seen(), "<b>7</b><i>3</i><i>1</i>");
    v.set(8);
    assert_eq!(p.seen(), "<b>8</b><i>3</i><i>1</i>");
    l.set(vec![3, 1, 2]);
    assert_eq!(p.seen(), "<i>3</i><i>1</i><b>8</b>");
}
'''),
 dict(id="bound-text-empty", prop="C35",
  edits=[(DT, """            let value: String = value.into();
            driver.inner.dom.update_text(id_dom, &value);
""", """            let value: String = value.into();
            // a new text node is empty already
            if !value.is_empty() {
                driver.inner.dom.update_text(id_dom, &value);
            }
""")],
  needs="a bound text that becomes empty", breaks="the page keeps the text it had",
  deps=DEPS, main=NODES + '''fn main() {
    let mut p = page();
    let v = Value::new("a".to_string());
    p.root.add_child(DomText::new_computed(v.clone()));
    assert_eq!(p.seen(), "a");
    v.set(String::new());
    assert_eq!(p.seen(), "");
    v.set("b".to_string());
    assert_eq!(p.seen(), "b");
}
'''),
 dict(id="bound-text-not-removed", prop="C35",
  edits=[(DT, """impl Drop for DomText {
    fn drop(&mut self) {
        self.driver.inner.dom.remove_text(self.id_dom);
    }
}""", """impl Drop for DomText {
    fn drop(&mut self) {
        // a bound text goes away with the subscription that fills it
        if self.subscriptions.take().is_empty() {
            self.driver.inner.dom.remove_text(self.id_dom);
        }
    }
}""")],
  needs="a bound text that is itself what a value is rendered as", breaks="the text of the earlier value stays on the page",
  deps=DEPS, main=NODES + '''fn main() {
    let mut p = page();
    let (v, t) = (Value::new(1), Value::new("x".to_string()));
    let t2 = t.clone();
    p.root.add_child(v.render_value(move |v| if v == 1 { DomNode::from(DomText::new_computed(t2.clone())) } else { el("b", "y") }));
    assert_eq!(p.seen(), "x");
    v.set(2);
    assert_eq!(p.seen(), "<b>y</b>");
}
'''),
]
