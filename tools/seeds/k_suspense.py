import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
DS = "crates/vertigo/src/driver_module/dom_suspense/"
EC = "crates/vertigo/src/dom/dom_element_class.rs"
SUS = B.HOST + '''
use vertigo::{inspect::{log_start, log_take}, Css, DomElement, DriverDomCommand, Value};
fn div() -> DomElement { DomElement::new("div") }
fn pending() -> DomElement { DomElement::new("vertigo-suspense") }
thread_local! { static TOLD: RefCell<Vec<bool>> = RefCell::default(); }
fn tell(b: bool) -> Css {
    TOLD.with(|t| t.borrow_mut().push(b));
    if b { Css::str("opacity: 0.5") } else { Css::str("opacity: 1") }
}
fn told() -> Vec<bool> { TOLD.with(|t| std::mem::take(&mut *t.borrow_mut())) }
// the classes sent since the log was started
fn classes() -> Vec<String> {
    let out = log_take().into_iter().filter_map(|c| match c {
        DriverDomCommand::SetAttr { name, value, .. } if name.as_str() == "class" => Some(value),
        _ => None,
    }).collect();
    log_start();
    out
}
'''
DEPS = 'vertigo = { path = "@REPO@/crates/vertigo" }'
SEEDS = [
 dict(id="suspense-moved-element", prop="C23",
  edits=[(DS + "dom_suspense_mod.rs", """        self.dom_connection.set_parent(node_id, parent_id);

        self.refresh_paths();
""", """        self.dom_connection.set_parent(node_id, parent_id);

        if self.suspense.contains(&node_id) {
            self.refresh_paths();
        }
""")],
  needs="an element with a suspense callback that comes into a parent in which something is unfinished already", breaks="the element is not told",
  deps=DEPS, main=SUS + '''fn main() {
    let _ = host();
    let parent = div().child(pending());
    let e = div().suspense(Some(tell));
    assert_eq!(told(), [false]);
    parent.add_child(e);
    assert_eq!(told(), [true]);
}
'''),
 dict(id="suspense-shared-ancestors", prop="C23",
  edits=[(DS + "node_paths.rs", """        for node_id in path {
            all_node.insert(*node_id);
        }
""", """        for node_id in path {
            if !all_node.insert(*node_id) {
                // the rest of this path is there already
                break;
            }
        }
""")],
  needs="two unfinished nodes in two parts of the page below one older node", breaks="what is around the second unfinished node counts as finished",
  deps=DEPS, main=SUS + '''fn main() {
    let _ = host();
    let page = div();
    let (a, b) = (div(), div());
    let (a1, b1) = (div(), div());
    let e = div().suspense(Some(tell));
    b.add_child(e);
    a1.add_child(pending());
    b1.add_child(pending());
    a.add_child(a1);
    b.add_child(b1);
    page.add_child(a);
    page.add_child(b);
    let now = told();
    assert_eq!(now.last(), Some(&true), "{now:?}");
}
'''),
 dict(id="suspense-depth", prop="C23",
  edits=[(DS + "node_paths.rs", "    let mut max_level = 500;", "    let mut max_level: i8 = 100;")],
  needs="an unfinished node a hundred levels deep", breaks="the application stops with a panic",
  deps=DEPS, main=SUS + '''fn main() {
    let _ = host();
    let mut e = div().child(pending());
    for _ in 0..300 {
        e = div().child(e);
    }
    e.add_child(div().suspense(Some(tell)));
    assert_eq!(told(), [false, true]);
}
'''),
 dict(id="class-last-part-removed", prop="C23",
  edits=[(EC, """        if self.command_last_sent != new_command {
            self.command_last_sent.clone_from(&new_command);

            let new_command = match new_command {
                Some(new_command) => new_command,
                None => "".to_string(),
            };
""", """        if self.command_last_sent != new_command {
            let Some(new_command) = new_command else {
                self.command_last_sent = None;
                return;
            };

            self.command_last_sent = Some(new_command.clone());
""")],
  needs="an element without a style whose class attribute is taken away", breaks="the page keeps the old class",
  deps=DEPS, main=SUS + '''fn main() {
    let _ = host();
    log_start();
    let class: Value<Option<String>> = Value::new(Some("open".to_string()));
    let _e = div().attr("class", class.clone());
    assert_eq!(classes(), ["open"]);
    class.set(None);
    assert_eq!(classes(), [""]);
    class.set(Some("shut".to_string()));
    assert_eq!(classes(), ["shut"]);
}
'''),
]
