GC = "crates/vertigo/src/computed/dependencies/"
CO = "crates/vertigo/src/computed/"
CLI = "crates/vertigo-cli/src/serve/html/"
DR = "crates/vertigo/src/driver_module/"
HTML = '''#![allow(dead_code, unused_imports)]
mod html {
    #[path = "@REPO@/crates/vertigo-cli/src/serve/html/dom_command.rs"]
    pub mod dom_command;
    #[path = "@REPO@/crates/vertigo-cli/src/serve/html/element.rs"]
    pub mod element;
    #[path = "@REPO@/crates/vertigo-cli/src/serve/html/element_children.rs"]
    pub mod element_children;
    #[path = "@REPO@/crates/vertigo-cli/src/serve/html/html_element.rs"]
    pub mod html_element;
    #[path = "@REPO@/crates/vertigo-cli/src/serve/html/ordered_map.rs"]
    pub mod ordered_map;
    pub use dom_command::DomCommand;
    pub use html_element::HtmlNode;
}
use html::{element::AllElements, html_element::HtmlDocument, ordered_map::OrderedMap, DomCommand, HtmlNode};
fn cmd(s: &str) -> DomCommand { serde_json::from_str(s).unwrap() }
fn page(l: &[&str]) -> String {
    let mut all = AllElements::new();
    all.feed(l.iter().map(|s| cmd(s)).collect());
    HtmlDocument::new(all.get_response(false).0).convert_to_string(false)
}
'''
HTML_DEPS = '''vertigo = { path = "@REPO@/crates/vertigo" }
serde = { version = "*", features = ["derive"] }
serde_json = "*"
html-escape = "*"
log = "*"'''
import os
LOW = open(os.path.join(os.path.dirname(__file__), '..', 'low_alloc.rs')).read()
HOST = LOW + '''use std::{cell::RefCell, rc::Rc};
use vertigo::{verif_hooks as h, DomId};
type Sent = Rc<RefCell<Vec<Vec<u8>>>>;
fn host() -> Sent {
    let s: Sent = Default::default();
    let t = s.clone();
    h::set_host(move |b| { t.borrow_mut().push(b.to_vec()); None });
    s
}
// where the marker stands in what was sent since the last call, in order, for each sent message that contains one
fn marks(s: &Sent, m: &[&str]) -> Vec<String> {
    let all: Vec<u8> = s.borrow_mut().drain(..).flatten().collect();
    let mut out = vec![];
    for i in 0..all.len() {
        for x in m { if all[i..].starts_with(x.as_bytes()) { out.push(x.to_string()); } }
    }
    out
}
'''
SEEDS = [
 dict(id="elements-removed-parent-kept", prop="C05",
  edits=[(CLI + "element.rs", """        self.remove_from_parent(child_id);
        self.parent.remove(&child_id);

        self.all.remove(&child_id);""", """        if matches!(self.all.get(&child_id), Some(Node::Element(_)) | Some(Node::Text(_))) {
            self.remove_from_parent(child_id);
        }
        self.parent.remove(&child_id);

        self.all.remove(&child_id);""")],
  needs="the removal of a comment", breaks="the removed comment is still listed among the children of its parent",
  main=HTML + '''fn main() {
    let p = page(&[
        r#"{"type":"create_node","id":1,"name":"div"}"#, r#"{"type":"create_comment","id":2,"value":"c"}"#,
        r#"{"type":"create_text","id":3,"value":"t"}"#,
        r#"{"type":"insert_before","parent":1,"child":2,"ref_id":null}"#, r#"{"type":"insert_before","parent":1,"child":3,"ref_id":null}"#,
        r#"{"type":"remove_comment","id":2}"#,
    ]);
    let mut all = AllElements::new();
    all.feed([r#"{"type":"create_node","id":1,"name":"div"}"#, r#"{"type":"create_comment","id":2,"value":"c"}"#,
        r#"{"type":"insert_before","parent":1,"child":2,"ref_id":null}"#, r#"{"type":"remove_comment","id":2}"#].iter().map(|s| cmd(s)).collect());
    let n = match all.get_response(false).0 { HtmlNode::Element(e) => e.children.len(), _ => 9 };
    if p != "<!DOCTYPE html><div>t</div>" || n != 0 { eprintln!("{p} {n}"); std::process::exit(1) }
}
''', deps=HTML_DEPS),
 dict(id="ordered-map-same-value", prop="C07",
  edits=[(CLI + "ordered_map.rs", """        self.data.insert(name.clone(), value);

        if""", """        if self.data.insert(name.clone(), value.clone()) == Some(value) {
            // nothing has changed
            return;
        }

        if""")],
  needs="a key set again to the value it has, after another key was set", breaks="the key keeps its old position",
  main=HTML + '''fn main() {
    let mut m = OrderedMap::new();
    for k in ["a", "b", "c"] { m.set(k, k); }
    m.set("a", "a");
    let k: Vec<String> = m.get_iter().into_iter().map(|x| x.0).collect();
    if k != ["b", "c", "a"] { std::process::exit(1) }
}
''', deps=HTML_DEPS),
 dict(id="second-set-keeps-cache", prop="C10",
  edits=[(GC + "mod.rs", """        let mut client = BTreeSet::new();

        for id in self.graph.connections.get_all_deps(value_id) {""", """        let mut client = BTreeSet::new();
        let all = self.graph.connections.get_all_deps(value_id);

        // everybody concerned has been reported already in this transaction
        let mut listeners = all.iter().filter(|id| matches!(id.get_type(), GraphIdKind::Client)).peekable();
        if listeners.peek().is_some() && listeners.all(|id| self.transaction_state.is_scheduled(id)) {
            return;
        }

        for id in all {"""), (GC + "transaction_state.rs", """    pub fn move_to_idle(&self) {""", """    pub fn is_scheduled(&self, id: &GraphId) -> bool {
        self.state.map(|state| match state {
            State::Modification { client_ids, .. } => client_ids.contains(id),
            _ => false,
        })
    }

    pub fn move_to_idle(&self) {""")],
  needs="two changes of a subscribed value in one transaction, with a read of a value computed from it between them", breaks="the computed value keeps the value it had between the two changes",
  main='''use vertigo::{transaction, Value};
fn main() {
    let v = Value::new(1);
    let c = v.map(|x| x + 1);
    let _sub = c.clone().subscribe(|_| ());
    transaction(|ctx| { v.set(5); c.get(ctx); v.set(7); });
    let a = transaction(|ctx| c.get(ctx));
    if a != 8 { eprintln!("{a}"); std::process::exit(1) }
}
'''),
 dict(id="tx-empty-skips-hooks", prop="C11",
  edits=[(GC + "transaction_state.rs", """                    if level == 0 {
                        return (State::Refreshing, Some(client_ids));
                    }""", """                    if level == 0 && client_ids.is_empty() {
                        return (State::Idle, None);
                    }

                    if level == 0 {
                        return (State::Refreshing, Some(client_ids));
                    }""")],
  needs="an outermost transaction that touches no subscriber", breaks="the end-of-transaction hooks are not run",
  main='''use std::{cell::Cell, rc::Rc};
use vertigo::{transaction, get_driver, Value};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let _r = get_driver().on_after_transaction(move || m.set(m.get() + 1));
    let v = Value::new(1);
    v.set(2);
    transaction(|_| { v.set(3); v.set(4); });
    if n.get() != 2 { eprintln!("{}", n.get()); std::process::exit(1) }
}
'''),
 dict(id="tx-level-reset", prop="C11",
  edits=[(GC + "transaction_state.rs", """                State::Modification { mut level, client_ids } => {
                    level += 1;
                    State::Modification { level, client_ids }""", """                State::Modification { mut level, client_ids } => {
                    level = (level + 1).min(8);
                    State::Modification { level, client_ids }""")],
  needs="transactions nested more than eight deep", breaks="subscribers are refreshed before the outermost transaction has ended",
  main='''use std::{cell::RefCell, rc::Rc};
use vertigo::{transaction, Value};
fn nest(k: u32, f: &dyn Fn()) { if k == 0 { f() } else { transaction(|_| nest(k - 1, f)) } }
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    let v = Value::new(0);
    let _d = v.to_computed().subscribe(move |x| s.borrow_mut().push(x));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| transaction(|_| {
        nest(12, &|| v.set(1));
        v.set(2);
    })));
    if r.is_err() || *seen.borrow() != vec![0, 2] { eprintln!("{:?}", seen.borrow()); std::process::exit(1) }
}
'''),
 dict(id="refresh-stops-at-dead", prop="C12",
  edits=[(GC + "mod.rs", """        for id in client_ids {
            self.graph.refresh.refresh(&id);
        }""", """        for id in client_ids {
            if !self.graph.refresh.is_registered(&id) {
                break;
            }
            self.graph.refresh.refresh(&id);
        }"""), (GC + "refresh.rs", """    pub(crate) fn clear_cache(&self, id: &GraphId) {""", """    pub(crate) fn is_registered(&self, id: &GraphId) -> bool {
        self.get(id).is_some()
    }

    pub(crate) fn clear_cache(&self, id: &GraphId) {""")],
  needs="a subscriber that is dropped in the transaction which changed its value, before another subscriber that stays",
  breaks="the later subscribers are not called",
  main='''use std::{cell::RefCell, rc::Rc};
use vertigo::{transaction, Value};
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    let v = Value::new(0);
    let first = RefCell::new(Some(v.to_computed().subscribe(|_| ())));
    let _d = v.to_computed().subscribe(move |x| s.borrow_mut().push(x));
    transaction(|_| {
        v.set(1);
        first.borrow_mut().take();
    });
    if *seen.borrow() != vec![0, 1] { eprintln!("{:?}", seen.borrow()); std::process::exit(1) }
}
'''),
 dict(id="connect-shrunk-deps", prop="C13",
  edits=[(GC + "graph_connections.rs", """        let edge_off =
            prev_parents
                .difference(&new_parents)
""", """        // nothing new was read: the links that are left over are dropped with the next change
        if edge_on.is_empty() && !new_parents.is_empty() {
            return edge_on;
        }

        let edge_off =
            prev_parents
                .difference(&new_parents)
""")],
  needs="a subscriber that stops reading one of the values it read and reads nothing new", breaks="the value it does not read any more stays connected",
  main='''use std::{cell::Cell, rc::Rc};
use vertigo::{Computed, DropResource, Value};
fn main() {
    let open = Rc::new(Cell::new(0));
    let o = open.clone();
    let source = Value::with_connect(0, move |_| {
        o.set(o.get() + 1);
        let o = o.clone();
        DropResource::new(move || o.set(o.get() - 1))
    });
    let flag = Value::new(true);
    let f = flag.clone();
    let c = Computed::from(move |ctx| if f.get(ctx) { source.get(ctx) } else { -1 });
    let _s = c.subscribe(|_| ());
    let a = open.get();
    flag.set(false);
    if (a, open.get()) != (1, 0) { eprintln!("{a} {}", open.get()); std::process::exit(1) }
}
'''),
 dict(id="sort-text-removal", prop="C15",
  edits=[(DR + "dom_command.rs", """    let mut dom = Vec::new();
    let mut events = Vec::new();

    for command in list {
        if command.is_event() {""", """    let mut dom = Vec::new();
    let mut events = Vec::new();
    let has_nodes = list.iter().any(|command| matches!(command, DriverDomCommand::RemoveNode { .. }));

    for command in list {
        // without removed elements there is nothing that a removed text could still be needed for
        let last = command.is_event() && (has_nodes || !matches!(command, DriverDomCommand::RemoveText { .. }));
        if last {""")],
  needs="a batch which removes a text but no element", breaks="the removal of the text is not moved behind the other commands",
  main=HOST + '''fn main() {
    let s = host();
    h::fetch_start();
    h::fetch_stop();
    h::dom::create_text(DomId::from_u64(900), "mark_a");
    h::flush_dom_changes();
    marks(&s, &[]);
    h::dom::remove_text(DomId::from_u64(900));
    h::dom::create_text(DomId::from_u64(901), "mark_b");
    h::flush_dom_changes();
    let m = marks(&s, &["remove_text", "mark_b"]);
    if m != ["mark_b", "remove_text"] { eprintln!("{m:?}"); std::process::exit(1) }
}
'''),
 dict(id="initiation-early-ready", prop="C16",
  edits=[(DR + "dom.rs", """        let send_commands = self.state.change(|state| state.down());

        if send_commands {
            self.flush_dom_changes_inner();
        }""", """        let send_commands = self.state.change(|state| state.down());

        if send_commands || self.commands.map(|list| list.len() > 100) {
            self.flush_dom_changes_inner();
        }""")],
  needs="more than 100 commands recorded while two requests are open, one of which ends", breaks="commands are sent while a request of the initial rendering is still open",
  main=HOST + '''fn main() {
    let s = host();
    h::fetch_start();
    h::fetch_start();
    for i in 0..200 { h::dom::create_text(DomId::from_u64(1000 + i), "mark_a"); }
    h::flush_dom_changes();
    h::fetch_stop();
    if !marks(&s, &["mark_a"]).is_empty() { std::process::exit(1) }
    h::fetch_stop();
    if marks(&s, &["mark_a"]).len() != 200 { std::process::exit(1) }
}
'''),
]
