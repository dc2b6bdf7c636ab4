VAL = "crates/vertigo/src/driver_module/js_value/"
GC = "crates/vertigo/src/computed/dependencies/"
CLI = "crates/vertigo-cli/src/serve/html/"
SEEDS = [
 dict(id="wire-json-empty-key", prop="C01",
  edits=[(VAL + "js_json_struct.rs", """                for (key, value) in map {
                    write_string_to(key.as_str(), buff);""", """                for (key, value) in map {
                    if key.len() > u16::MAX as usize {
                        write_string_to(&key[..u16::MAX as usize], buff);
                        value.write_to(buff);
                        continue;
                    }
                    write_string_to(key.as_str(), buff);""")],
  needs="an object inside JSON with a key longer than 65535 bytes",
  breaks="the key is cut short, so the decoded object differs from the encoded one",
  main='''use std::collections::HashMap;
use vertigo::{JsJson, JsValue};
fn main() {
    let mut m = HashMap::new();
    m.insert("k".repeat(70_000), JsJson::True);
    let v = JsValue::Json(JsJson::Object(m));
    let r = std::panic::catch_unwind(|| JsValue::from_block(v.to_snapshot()));
    match r { Ok(Ok(w)) if w == v => {}, _ => std::process::exit(1) }
}
'''),
 dict(id="wire-f64-canonical", prop="C01",
  edits=[(VAL + "memory_block_write.rs", """    pub fn write_f64(&mut self, value: f64) {
        let bytes: [u8; 8] = value.to_be_bytes();""", """    pub fn write_f64(&mut self, value: f64) {
        // normalise the sign of zero
        let value = if value == 0.0 { 0.0 } else { value };
        let bytes: [u8; 8] = value.to_be_bytes();""")],
  needs="a negative zero", breaks="-0.0 is decoded as 0.0",
  main='''use vertigo::JsValue;
fn main() {
    let v = JsValue::F64(-0.0);
    match JsValue::from_block(v.to_snapshot()) { Ok(JsValue::F64(x)) if x.to_bits() == (-0.0f64).to_bits() => {}, _ => std::process::exit(1) }
}
'''),
 dict(id="size-string-chars", prop="C02",
  edits=[(VAL + "js_value_struct.rs", """                for (key, value) in map {
                    sum += STRING_SIZE + Self::get_string_size(key);
                    sum += value.get_size();""", """                for (key, value) in map {
                    sum += STRING_SIZE + key.chars().map(|c| if c.is_ascii() { 1 } else { 2.max(c.len_utf16() as u32 * 2) }).sum::<u32>();
                    sum += value.get_size();""")],
  needs="an object key containing a three-byte character",
  breaks="the computed size is smaller than the bytes written",
  main='''use std::collections::HashMap;
use vertigo::JsValue;
fn main() {
    let mut m = HashMap::new();
    m.insert("\\u{4e2d}".to_string(), JsValue::Null);
    let v = JsValue::Object(m);
    let n = 1 + 2 + 4 + 3 + 1;
    let r = std::panic::catch_unwind(|| v.to_snapshot().convert_to_vec().len());
    match r { Ok(k) if k == n => {}, _ => std::process::exit(1) }
}
'''),
 dict(id="decoder-null-consumes", prop="C03",
  edits=[(VAL + "js_value_list_decoder.rs", """        match value {
            JsValue::U64(value) => Ok(Some(value)),
            JsValue::Null => Ok(None),""", """        match value {
            JsValue::U64(value) => Ok(Some(value)),
            JsValue::Null | JsValue::Undefined => Ok(None),""")],
  needs="an undefined where a nullable integer is read", breaks="undefined is taken for null",
  main='''use vertigo::JsValue;
fn main() {
    let l = JsValue::List(vec![JsValue::Undefined]);
    if l.convert(|mut d| d.get_u64_or_null("x")).is_ok() { std::process::exit(1) }
}
'''),
 dict(id="children-move-first", prop="C04",
  edits=[(CLI + "element_children.rs", """        node_left.right = node.right;

        if self.first_child == Some(node_id) {
            self.first_child = Some(node.right);
        }""", """        node_left.right = node.right;

        if self.first_child == Some(node_id) {
            self.first_child = Some(if self.childs.len() > 3 { node.left } else { node.right });
        }""")],
  needs="removing the first of five or more children", breaks="the last child becomes the first one",
  main='''#![allow(dead_code)]
#[path = "@REPO@/crates/vertigo-cli/src/serve/html/element_children.rs"]
mod element_children;
fn main() {
    let mut c = element_children::ElementChildren::new();
    for i in 1..=5 { c.insert_before(None, i); }
    c.remove(1);
    if c.childs() != vec![2, 3, 4, 5] { std::process::exit(1) }
}
''', deps=""),
 dict(id="graph-cascade-once", prop="C08",
  edits=[(GC + "graph_connections.rs", """                let child = self.parent_client.get_relation(parent);

                if child.is_empty() {""", """                let child = self.parent_client.get_relation(parent);
                let single = self.client_parent.get_relation(parent).take(3).count() < 3;

                if child.is_empty() && single {""")],
  needs="a node that reads three or more others and loses its last dependant", breaks="its own links stay in the graph",
  main='''use std::collections::BTreeSet;
use vertigo::{GraphId, verif_hooks::DependencyGraph};
fn main() {
    let g = DependencyGraph::default();
    let v: Vec<GraphId> = (0..3).map(|_| GraphId::new_value()).collect();
    let c = GraphId::new_computed();
    let k = GraphId::new_client();
    g.set_parents(c, v.iter().copied().collect());
    g.set_parents(k, BTreeSet::from([c]));
    g.set_parents(k, BTreeSet::new());
    if v.iter().any(|x| !g.all_dependants(*x).is_empty()) { std::process::exit(1) }
}
'''),
 dict(id="deps-bounded-queue", prop="C09",
  edits=[(GC + "graph_connections.rs", """            let Some(next) = to_traverse.pop() else {
                return result;
            };""", """            let Some(next) = to_traverse.pop() else {
                return result;
            };
            to_traverse.truncate(64);""")],
  needs="a node with more than 65 direct dependants", breaks="some transitive dependants are missed",
  main='''use std::collections::BTreeSet;
use vertigo::{GraphId, verif_hooks::DependencyGraph};
fn main() {
    let g = DependencyGraph::default();
    let v = GraphId::new_value();
    for _ in 0..200 {
        let c = GraphId::new_computed();
        let k = GraphId::new_client();
        g.set_parents(c, BTreeSet::from([v]));
        g.set_parents(k, BTreeSet::from([c]));
    }
    if g.all_dependants(v).len() != 400 { std::process::exit(1) }
}
'''),
]
