import os
import importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
JS = "crates/vertigo/src/driver_module/js_value/serialize.rs"
DR = "crates/vertigo/src/driver_module/"
CLI = "crates/vertigo-cli/src/serve/"
SEEDS = [
 dict(id="json-option-swallows", prop="C21",
  edits=[(JS, """        Ok(Some(T::from_json(context, json)?))""", """        Ok(T::from_json(context, json).ok())""")],
  needs="a value of the wrong kind where an optional value is expected", breaks="it is read as an absent value instead of being refused",
  main='''fn main() {
    let mut m = std::collections::HashMap::new();
    m.insert("limit".to_string(), vertigo::JsJson::String("12".into()));
    let r = vertigo::from_json::<std::collections::HashMap<String, Option<u32>>>(vertigo::JsJson::Object(m));
    if r.is_ok() { eprintln!("{r:?}"); std::process::exit(1) }
}
'''),
 dict(id="json-map-null-entry", prop="C21",
  edits=[(JS, """        let mut result = BTreeMap::new();

        for (key, item) in map {
""", """        let mut result = BTreeMap::new();

        for (key, item) in map {
            // JavaScript leaves nulls behind where a property was deleted
            if matches!(item, JsJson::Null) {
                continue;
            }

""")],
  needs="an ordered map with an absent optional value in it", breaks="the entry is lost on the way through JSON",
  main='''use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<String, Option<u32>> = [("a".to_string(), Some(1)), ("b".to_string(), None)].into_iter().collect();
    let r = vertigo::from_json::<BTreeMap<String, Option<u32>>>(vertigo::to_json(m.clone()));
    if r != Ok(m) { eprintln!("{r:?}"); std::process::exit(1) }
}
'''),
 dict(id="dom-command-ref-of-root", prop="C31",
  edits=[(DR + "dom_command.rs", """                .insert("ref_id", ref_id.map(|value| value.to_u64()))""", """                .insert(
                    "ref_id",
                    // html, head and body have no siblings to be put before
                    ref_id.map(|value| value.to_u64()).filter(|id| *id > 3),
                )""")],
  needs="a node inserted before the body", breaks="the server puts it at the end instead",
  deps=B.HTML_DEPS,
  main=B.HTML + '''use vertigo::{verif_hooks::dom as h, inspect, DomId};
fn main() {
    let id = |x| DomId::from_u64(x);
    inspect::log_start();
    h::insert_before(id(1), id(9), Some(id(3)));
    let l: Vec<_> = inspect::log_take().into_iter().map(|c| c.into_string()).collect();
    let got = html::dom_command::dom_command_from_js_json(vertigo::JsJson::List(l)).unwrap();
    if got != [DomCommand::InsertBefore { parent: 1, child: 9, ref_id: Some(3) }] { eprintln!("{got:?}"); std::process::exit(1) }
}
'''),
 dict(id="dom-command-css-selector", prop="C31",
  edits=[(CLI + "html/dom_command.rs", """                selector: json.get_property(&context, "selector")?,
                value: json.get_property(&context, "value")?,""", """                selector: json
                    .get_property::<String>(&context, "selector")?
                    .trim()
                    .to_string(),
                value: json.get_property(&context, "value")?,""")],
  needs="a style rule whose selector begins with a blank (a descendant rule)", breaks="the server's rule has another selector",
  deps=B.HTML_DEPS,
  main=B.HTML + '''use vertigo::{verif_hooks::dom as h, inspect};
fn main() {
    inspect::log_start();
    h::insert_css(" .a", "color: red");
    let l: Vec<_> = inspect::log_take().into_iter().map(|c| c.into_string()).collect();
    let got = html::dom_command::dom_command_from_js_json(vertigo::JsJson::List(l)).unwrap();
    if got != [DomCommand::InsertCss { selector: " .a".into(), value: "color: red".into() }] { eprintln!("{got:?}"); std::process::exit(1) }
}
'''),
]
