import os, importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
DL = "crates/vertigo/src/render/dom_list.rs"
DC = "crates/vertigo/src/dom/dom_comment.rs"
LIST = B.HOST + '''
use vertigo::{inspect::{log_start, log_take, DomDebugFragment}, DomElement, DomNode, DriverDomCommand, Value};
struct Ul { ul: DomElement, value: Value<Vec<String>>, renders: Rc<RefCell<usize>>, log: Vec<DriverDomCommand> }
fn items(s: &str) -> Vec<String> { s.split_whitespace().map(|x| x.to_string()).collect() }
// the key of an item is its first letter
fn list(s: &str) -> Ul {
    let _ = host();
    log_start();
    let value = Value::new(items(s));
    let ul = DomElement::new("ul");
    let renders: Rc<RefCell<usize>> = Default::default();
    let r = renders.clone();
    ul.add_child(value.to_computed().render_list(|i: &String| i.chars().next(), move |i| {
        *r.borrow_mut() += 1;
        let e = DomElement::new("li");
        e.add_child_text(i.clone());
        DomNode::from(e)
    }));
    Ul { ul, value, renders, log: vec![] }
}
impl Ul {
    fn set(&self, s: &str) { self.value.set(items(s)); }
    fn seen(&mut self) -> String {
        self.log.extend(log_take());
        log_start();
        let mut f = DomDebugFragment::from_cmds(self.log.clone());
        f.root_node = Some(self.ul.id_dom());
        let h = f.to_pseudo_html();
        let h = h.replace("<!-- list element -->", "").replace("</ul>", "").replace("<ul>", "");
        h.replace("<li>", "").replace("</li>", " ").trim().to_string()
    }
}
'''
DEPS = 'vertigo = { path = "@REPO@/crates/vertigo" }'
SEEDS = [
 dict(id="list-one-per-key", prop="C14",
  edits=[(DL, """        let key = (self.get_key)(item);
        let item = self.data.entry(key).or_default();
        item.push_back(element);
""", """        let key = (self.get_key)(item);
        self.data.insert(key, VecDeque::from([element]));
""")],
  needs="several items with the same key that change their place", breaks="only one of the nodes of the key is kept, the others are made again",
  deps=DEPS, main=LIST + '''fn main() {
    let mut l = list("a1 a2 a3 b1");
    assert_eq!(*l.renders.borrow(), 4);
    l.set("b2 a4 a5 a6");
    assert_eq!(l.seen().split_whitespace().count(), 4);
    assert_eq!(*l.renders.borrow(), 4);
}
'''),
 dict(id="list-same-index-stays", prop="C14",
  edits=[(DL, """    for (id, node) in real_child.into_iter() {
        real_node.insert(&id, node);
    }
""", """    let mut places = HashMap::new();

    for (index, (id, node)) in real_child.into_iter().enumerate() {
        places.insert(node.id_dom(), index);
        real_node.insert(&id, node);
    }

    let new_len = new_child.len();
"""),
  (DL, """    for item in new_child.into_iter() {
        let node = real_node.get_or_create(&item);

        driver
            .inner
            .dom
            .insert_before(parent_id, node.id_dom(), Some(last_before));
""", """    for (index, item) in new_child.into_iter().enumerate() {
        let node = real_node.get_or_create(&item);

        // already at its place
        let stays = new_len == places.len() && places.get(&node.id_dom()) == Some(&index);

        if !stays {
            driver
                .inner
                .dom
                .insert_before(parent_id, node.id_dom(), Some(last_before));
        }
""")],
  needs="a list whose first and last items are replaced while one between them keeps its index", breaks="the item in between is left where it is and ends before the ones placed anew",
  deps=DEPS, main=LIST + '''fn main() {
    let mut l = list("a b c");
    l.set("x b y");
    assert_eq!(l.seen(), "x b y");
    l.set("y b x");
    assert_eq!(l.seen().split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>(), ["y", "b", "x"]);
}
'''),
 dict(id="list-bottom-kept-when-emptied", prop="C14",
  edits=[(DL, """            (Some(node), None) => {
                current.push_back(node);
            }
            (None, Some(child)) => {
                new_child.push_back(child);
            }
            (None, None) => {}
        }

        return pairs_bottom;""", """            (Some(pair), None) => {
                // nothing new to place, the rest stays with the bottom part
                if current.is_empty() && !pairs_bottom.is_empty() {
                    pairs_bottom.push_front(pair);
                } else {
                    current.push_back(pair);
                }
            }
            (None, Some(child)) => {
                new_child.push_back(child);
            }
            (None, None) => {}
        }

        return pairs_bottom;""")],
  needs="exactly one item removed between items kept at the top and at the bottom (or before the latter)", breaks="the node of the removed item stays on the page",
  deps=DEPS, main=LIST + '''fn main() {
    let mut l = list("a b c d");
    l.set("a c d");
    assert_eq!(l.seen(), "a c d");
    l.set("d");
    assert_eq!(l.seen(), "d");
}
'''),
]
