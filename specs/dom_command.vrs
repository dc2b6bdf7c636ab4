#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_ext, sax::axiom_string_key, sax::axiom_string_ord};

//@include json.inc

//@file crates/vertigo/src/dom/dom_id.rs
//@item struct DomId
«pub» struct DomId(«pub» u64);
//@end
impl DomId {
//@item impl DomId :: fn to_u64
    pub fn to_u64(&self) -> «(r:» u64 «) ensures r == self.0,»
    {
        self.0
    }
//@end
}
//@file crates/vertigo/src/driver_module/api/callbacks.rs
//@item struct CallbackId
«pub» struct CallbackId(«pub» u64);
//@end
impl CallbackId {
//@item impl CallbackId :: fn as_u64
    pub fn as_u64(&self) -> «(r:» u64 «) ensures r == self.0,»
    {
        self.0
    }
//@end
}
// a borrowed or owned piece of text
#[verifier::external_body]
pub struct StaticString(());
impl StaticString {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn tagged(j: JsJson, t: Seq<char>) -> bool {
    j.has("type"@) && j.at("type"@) is String && (j.at("type"@)->String_0)@ == t
}
// the JSON of a command: its type and one property for every field
#[verifier::opaque]
pub open spec fn encodes(c: DriverDomCommand, j: JsJson) -> bool {
    &&& j is Object
    &&& match c {
        DriverDomCommand::CreateNode { id, name } => tagged(j, "create_node"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("name"@) && (j.at("name"@) is String && (j.at("name"@)->String_0)@ == name@),
        DriverDomCommand::CreateText { id, value } => tagged(j, "create_text"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("value"@) && value.ser(j.at("value"@)),
        DriverDomCommand::UpdateText { id, value } => tagged(j, "update_text"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("value"@) && value.ser(j.at("value"@)),
        DriverDomCommand::SetAttr { id, name, value } => tagged(j, "set_attr"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("name"@) && (j.at("name"@) is String && (j.at("name"@)->String_0)@ == name@) && j.has("value"@) && value.ser(j.at("value"@)),
        DriverDomCommand::RemoveAttr { id, name } => tagged(j, "remove_attr"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("name"@) && (j.at("name"@) is String && (j.at("name"@)->String_0)@ == name@),
        DriverDomCommand::RemoveNode { id } => tagged(j, "remove_node"@) && j.has("id"@) && id.0.ser(j.at("id"@)),
        DriverDomCommand::RemoveText { id } => tagged(j, "remove_text"@) && j.has("id"@) && id.0.ser(j.at("id"@)),
        DriverDomCommand::InsertBefore { parent, child, ref_id } => tagged(j, "insert_before"@) && j.has("parent"@) && parent.0.ser(j.at("parent"@)) && j.has("child"@) && child.0.ser(j.at("child"@)) && j.has("ref_id"@) && (match ref_id { Some(x) => Some(x.0), None => None::<u64> }).ser(j.at("ref_id"@)),
        DriverDomCommand::InsertCss { selector, value } => tagged(j, "insert_css"@) && j.has("selector"@) && selector.ser(j.at("selector"@)) && j.has("value"@) && value.ser(j.at("value"@)),
        DriverDomCommand::CreateComment { id, value } => tagged(j, "create_comment"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("value"@) && value.ser(j.at("value"@)),
        DriverDomCommand::RemoveComment { id } => tagged(j, "remove_comment"@) && j.has("id"@) && id.0.ser(j.at("id"@)),
        DriverDomCommand::CallbackAdd { id, event_name, callback_id } => tagged(j, "callback_add"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("event_name"@) && event_name.ser(j.at("event_name"@)) && j.has("callback_id"@) && callback_id.0.ser(j.at("callback_id"@)),
        DriverDomCommand::CallbackRemove { id, event_name, callback_id } => tagged(j, "callback_remove"@) && j.has("id"@) && id.0.ser(j.at("id"@)) && j.has("event_name"@) && event_name.ser(j.at("event_name"@)) && j.has("callback_id"@) && callback_id.0.ser(j.at("callback_id"@)),
    }
}

// the same command on both sides
pub open spec fn same_command(c: DriverDomCommand, d: DomCommand) -> bool {
    match (c, d) {
        (DriverDomCommand::CreateNode { id, name }, DomCommand::CreateNode { id: d_id, name: d_name }) => d_id == id.0 && d_name@ == name@,
        (DriverDomCommand::CreateText { id, value }, DomCommand::CreateText { id: d_id, value: d_value }) => d_id == id.0 && d_value == value,
        (DriverDomCommand::UpdateText { id, value }, DomCommand::UpdateText { id: d_id, value: d_value }) => d_id == id.0 && d_value == value,
        (DriverDomCommand::SetAttr { id, name, value }, DomCommand::SetAttr { id: d_id, name: d_name, value: d_value }) => d_id == id.0 && d_name@ == name@ && d_value == value,
        (DriverDomCommand::RemoveAttr { id, name }, DomCommand::RemoveAttr { id: d_id, name: d_name }) => d_id == id.0 && d_name@ == name@,
        (DriverDomCommand::RemoveNode { id }, DomCommand::RemoveNode { id: d_id }) => d_id == id.0,
        (DriverDomCommand::RemoveText { id }, DomCommand::RemoveText { id: d_id }) => d_id == id.0,
        (DriverDomCommand::InsertBefore { parent, child, ref_id }, DomCommand::InsertBefore { parent: d_parent, child: d_child, ref_id: d_ref_id }) => d_parent == parent.0 && d_child == child.0 && d_ref_id == (match ref_id { Some(x) => Some(x.0), None => None::<u64> }),
        (DriverDomCommand::InsertCss { selector, value }, DomCommand::InsertCss { selector: d_selector, value: d_value }) => d_selector == selector && d_value == value,
        (DriverDomCommand::CreateComment { id, value }, DomCommand::CreateComment { id: d_id, value: d_value }) => d_id == id.0 && d_value == value,
        (DriverDomCommand::RemoveComment { id }, DomCommand::RemoveComment { id: d_id }) => d_id == id.0,
        (DriverDomCommand::CallbackAdd { id, event_name, callback_id }, DomCommand::CallbackAdd { id: d_id, event_name: d_event_name, callback_id: d_callback_id }) => d_id == id.0 && d_event_name == event_name && d_callback_id == callback_id.0,
        (DriverDomCommand::CallbackRemove { id, event_name, callback_id }, DomCommand::CallbackRemove { id: d_id, event_name: d_event_name, callback_id: d_callback_id }) => d_id == id.0 && d_event_name == event_name && d_callback_id == callback_id.0,
        _ => false,
    }
}

// identifiers that a number of JSON can carry
pub open spec fn id_fits(x: u64) -> bool { x <= 0x20_0000_0000_0000 }
pub open spec fn fits(c: DriverDomCommand) -> bool {
    match c {
        DriverDomCommand::CreateNode { id, name } => id_fits(id.0),
        DriverDomCommand::CreateText { id, value } => id_fits(id.0),
        DriverDomCommand::UpdateText { id, value } => id_fits(id.0),
        DriverDomCommand::SetAttr { id, name, value } => id_fits(id.0),
        DriverDomCommand::RemoveAttr { id, name } => id_fits(id.0),
        DriverDomCommand::RemoveNode { id } => id_fits(id.0),
        DriverDomCommand::RemoveText { id } => id_fits(id.0),
        DriverDomCommand::InsertBefore { parent, child, ref_id } => id_fits(parent.0) && id_fits(child.0) && (ref_id is Some ==> id_fits((ref_id->0).0)),
        DriverDomCommand::InsertCss { selector, value } => true,
        DriverDomCommand::CreateComment { id, value } => id_fits(id.0),
        DriverDomCommand::RemoveComment { id } => id_fits(id.0),
        DriverDomCommand::CallbackAdd { id, event_name, callback_id } => id_fits(id.0) && id_fits(callback_id.0),
        DriverDomCommand::CallbackRemove { id, event_name, callback_id } => id_fits(id.0) && id_fits(callback_id.0),
    }
}

// no two of the names used are the same
proof fn lemma_literals()
    ensures
        st("type"@) != st("callback_id"@),
        st("type"@) != st("child"@),
        st("type"@) != st("event_name"@),
        st("type"@) != st("id"@),
        st("type"@) != st("name"@),
        st("type"@) != st("parent"@),
        st("type"@) != st("ref_id"@),
        st("type"@) != st("selector"@),
        st("type"@) != st("value"@),
        st("callback_id"@) != st("child"@),
        st("callback_id"@) != st("event_name"@),
        st("callback_id"@) != st("id"@),
        st("callback_id"@) != st("name"@),
        st("callback_id"@) != st("parent"@),
        st("callback_id"@) != st("ref_id"@),
        st("callback_id"@) != st("selector"@),
        st("callback_id"@) != st("value"@),
        st("child"@) != st("event_name"@),
        st("child"@) != st("id"@),
        st("child"@) != st("name"@),
        st("child"@) != st("parent"@),
        st("child"@) != st("ref_id"@),
        st("child"@) != st("selector"@),
        st("child"@) != st("value"@),
        st("event_name"@) != st("id"@),
        st("event_name"@) != st("name"@),
        st("event_name"@) != st("parent"@),
        st("event_name"@) != st("ref_id"@),
        st("event_name"@) != st("selector"@),
        st("event_name"@) != st("value"@),
        st("id"@) != st("name"@),
        st("id"@) != st("parent"@),
        st("id"@) != st("ref_id"@),
        st("id"@) != st("selector"@),
        st("id"@) != st("value"@),
        st("name"@) != st("parent"@),
        st("name"@) != st("ref_id"@),
        st("name"@) != st("selector"@),
        st("name"@) != st("value"@),
        st("parent"@) != st("ref_id"@),
        st("parent"@) != st("selector"@),
        st("parent"@) != st("value"@),
        st("ref_id"@) != st("selector"@),
        st("ref_id"@) != st("value"@),
        st("selector"@) != st("value"@),
        "callback_add"@ != "callback_remove"@,
        "callback_add"@ != "create_comment"@,
        "callback_add"@ != "create_node"@,
        "callback_add"@ != "create_text"@,
        "callback_add"@ != "insert_before"@,
        "callback_add"@ != "insert_css"@,
        "callback_add"@ != "remove_attr"@,
        "callback_add"@ != "remove_comment"@,
        "callback_add"@ != "remove_node"@,
        "callback_add"@ != "remove_text"@,
        "callback_add"@ != "set_attr"@,
        "callback_add"@ != "update_text"@,
        "callback_remove"@ != "create_comment"@,
        "callback_remove"@ != "create_node"@,
        "callback_remove"@ != "create_text"@,
        "callback_remove"@ != "insert_before"@,
        "callback_remove"@ != "insert_css"@,
        "callback_remove"@ != "remove_attr"@,
        "callback_remove"@ != "remove_comment"@,
        "callback_remove"@ != "remove_node"@,
        "callback_remove"@ != "remove_text"@,
        "callback_remove"@ != "set_attr"@,
        "callback_remove"@ != "update_text"@,
        "create_comment"@ != "create_node"@,
        "create_comment"@ != "create_text"@,
        "create_comment"@ != "insert_before"@,
        "create_comment"@ != "insert_css"@,
        "create_comment"@ != "remove_attr"@,
        "create_comment"@ != "remove_comment"@,
        "create_comment"@ != "remove_node"@,
        "create_comment"@ != "remove_text"@,
        "create_comment"@ != "set_attr"@,
        "create_comment"@ != "update_text"@,
        "create_node"@ != "create_text"@,
        "create_node"@ != "insert_before"@,
        "create_node"@ != "insert_css"@,
        "create_node"@ != "remove_attr"@,
        "create_node"@ != "remove_comment"@,
        "create_node"@ != "remove_node"@,
        "create_node"@ != "remove_text"@,
        "create_node"@ != "set_attr"@,
        "create_node"@ != "update_text"@,
        "create_text"@ != "insert_before"@,
        "create_text"@ != "insert_css"@,
        "create_text"@ != "remove_attr"@,
        "create_text"@ != "remove_comment"@,
        "create_text"@ != "remove_node"@,
        "create_text"@ != "remove_text"@,
        "create_text"@ != "set_attr"@,
        "create_text"@ != "update_text"@,
        "insert_before"@ != "insert_css"@,
        "insert_before"@ != "remove_attr"@,
        "insert_before"@ != "remove_comment"@,
        "insert_before"@ != "remove_node"@,
        "insert_before"@ != "remove_text"@,
        "insert_before"@ != "set_attr"@,
        "insert_before"@ != "update_text"@,
        "insert_css"@ != "remove_attr"@,
        "insert_css"@ != "remove_comment"@,
        "insert_css"@ != "remove_node"@,
        "insert_css"@ != "remove_text"@,
        "insert_css"@ != "set_attr"@,
        "insert_css"@ != "update_text"@,
        "remove_attr"@ != "remove_comment"@,
        "remove_attr"@ != "remove_node"@,
        "remove_attr"@ != "remove_text"@,
        "remove_attr"@ != "set_attr"@,
        "remove_attr"@ != "update_text"@,
        "remove_comment"@ != "remove_node"@,
        "remove_comment"@ != "remove_text"@,
        "remove_comment"@ != "set_attr"@,
        "remove_comment"@ != "update_text"@,
        "remove_node"@ != "remove_text"@,
        "remove_node"@ != "set_attr"@,
        "remove_node"@ != "update_text"@,
        "remove_text"@ != "set_attr"@,
        "remove_text"@ != "update_text"@,
        "set_attr"@ != "update_text"@,
{
    reveal_strlit("callback_add");
    reveal_strlit("callback_id");
    reveal_strlit("callback_remove");
    reveal_strlit("child");
    reveal_strlit("create_comment");
    reveal_strlit("create_node");
    reveal_strlit("create_text");
    reveal_strlit("event_name");
    reveal_strlit("id");
    reveal_strlit("insert_before");
    reveal_strlit("insert_css");
    reveal_strlit("name");
    reveal_strlit("parent");
    reveal_strlit("ref_id");
    reveal_strlit("remove_attr");
    reveal_strlit("remove_comment");
    reveal_strlit("remove_node");
    reveal_strlit("remove_text");
    reveal_strlit("selector");
    reveal_strlit("set_attr");
    reveal_strlit("type");
    reveal_strlit("update_text");
    reveal_strlit("value");
    assert("callback_add"@.len() != "callback_remove"@.len());
    assert("callback_add"@.len() != "create_comment"@.len());
    assert("callback_add"@.len() != "create_node"@.len());
    assert("callback_add"@.len() != "create_text"@.len());
    assert("callback_add"@.len() != "insert_before"@.len());
    assert("callback_add"@.len() != "insert_css"@.len());
    assert("callback_add"@.len() != "remove_attr"@.len());
    assert("callback_add"@.len() != "remove_comment"@.len());
    assert("callback_add"@.len() != "remove_node"@.len());
    assert("callback_add"@.len() != "remove_text"@.len());
    assert("callback_add"@.len() != "set_attr"@.len());
    assert("callback_add"@.len() != "update_text"@.len());
    assert("callback_remove"@.len() != "create_comment"@.len());
    assert("callback_remove"@.len() != "create_node"@.len());
    assert("callback_remove"@.len() != "create_text"@.len());
    assert("callback_remove"@.len() != "insert_before"@.len());
    assert("callback_remove"@.len() != "insert_css"@.len());
    assert("callback_remove"@.len() != "remove_attr"@.len());
    assert("callback_remove"@.len() != "remove_comment"@.len());
    assert("callback_remove"@.len() != "remove_node"@.len());
    assert("callback_remove"@.len() != "remove_text"@.len());
    assert("callback_remove"@.len() != "set_attr"@.len());
    assert("callback_remove"@.len() != "update_text"@.len());
    assert("create_comment"@.len() != "create_node"@.len());
    assert("create_comment"@.len() != "create_text"@.len());
    assert("create_comment"@.len() != "insert_before"@.len());
    assert("create_comment"@.len() != "insert_css"@.len());
    assert("create_comment"@.len() != "remove_attr"@.len());
    assert("create_comment"@[0] != "remove_comment"@[0]);
    assert("create_comment"@.len() != "remove_node"@.len());
    assert("create_comment"@.len() != "remove_text"@.len());
    assert("create_comment"@.len() != "set_attr"@.len());
    assert("create_comment"@.len() != "update_text"@.len());
    assert("create_node"@[7] != "create_text"@[7]);
    assert("create_node"@.len() != "insert_before"@.len());
    assert("create_node"@.len() != "insert_css"@.len());
    assert("create_node"@[0] != "remove_attr"@[0]);
    assert("create_node"@.len() != "remove_comment"@.len());
    assert("create_node"@[0] != "remove_node"@[0]);
    assert("create_node"@[0] != "remove_text"@[0]);
    assert("create_node"@.len() != "set_attr"@.len());
    assert("create_node"@[0] != "update_text"@[0]);
    assert("create_text"@.len() != "insert_before"@.len());
    assert("create_text"@.len() != "insert_css"@.len());
    assert("create_text"@[0] != "remove_attr"@[0]);
    assert("create_text"@.len() != "remove_comment"@.len());
    assert("create_text"@[0] != "remove_node"@[0]);
    assert("create_text"@[0] != "remove_text"@[0]);
    assert("create_text"@.len() != "set_attr"@.len());
    assert("create_text"@[0] != "update_text"@[0]);
    assert("insert_before"@.len() != "insert_css"@.len());
    assert("insert_before"@.len() != "remove_attr"@.len());
    assert("insert_before"@.len() != "remove_comment"@.len());
    assert("insert_before"@.len() != "remove_node"@.len());
    assert("insert_before"@.len() != "remove_text"@.len());
    assert("insert_before"@.len() != "set_attr"@.len());
    assert("insert_before"@.len() != "update_text"@.len());
    assert("insert_css"@.len() != "remove_attr"@.len());
    assert("insert_css"@.len() != "remove_comment"@.len());
    assert("insert_css"@.len() != "remove_node"@.len());
    assert("insert_css"@.len() != "remove_text"@.len());
    assert("insert_css"@.len() != "set_attr"@.len());
    assert("insert_css"@.len() != "update_text"@.len());
    assert("remove_attr"@.len() != "remove_comment"@.len());
    assert("remove_attr"@[7] != "remove_node"@[7]);
    assert("remove_attr"@[7] != "remove_text"@[7]);
    assert("remove_attr"@.len() != "set_attr"@.len());
    assert("remove_attr"@[0] != "update_text"@[0]);
    assert("remove_comment"@.len() != "remove_node"@.len());
    assert("remove_comment"@.len() != "remove_text"@.len());
    assert("remove_comment"@.len() != "set_attr"@.len());
    assert("remove_comment"@.len() != "update_text"@.len());
    assert("remove_node"@[7] != "remove_text"@[7]);
    assert("remove_node"@.len() != "set_attr"@.len());
    assert("remove_node"@[0] != "update_text"@[0]);
    assert("remove_text"@.len() != "set_attr"@.len());
    assert("remove_text"@[0] != "update_text"@[0]);
    assert("set_attr"@.len() != "update_text"@.len());
    assert("type"@.len() != "callback_id"@.len());
    assert("type"@.len() != "child"@.len());
    assert("type"@.len() != "event_name"@.len());
    assert("type"@.len() != "id"@.len());
    assert("type"@[0] != "name"@[0]);
    assert("type"@.len() != "parent"@.len());
    assert("type"@.len() != "ref_id"@.len());
    assert("type"@.len() != "selector"@.len());
    assert("type"@.len() != "value"@.len());
    assert("callback_id"@.len() != "child"@.len());
    assert("callback_id"@.len() != "event_name"@.len());
    assert("callback_id"@.len() != "id"@.len());
    assert("callback_id"@.len() != "name"@.len());
    assert("callback_id"@.len() != "parent"@.len());
    assert("callback_id"@.len() != "ref_id"@.len());
    assert("callback_id"@.len() != "selector"@.len());
    assert("callback_id"@.len() != "value"@.len());
    assert("child"@.len() != "event_name"@.len());
    assert("child"@.len() != "id"@.len());
    assert("child"@.len() != "name"@.len());
    assert("child"@.len() != "parent"@.len());
    assert("child"@.len() != "ref_id"@.len());
    assert("child"@.len() != "selector"@.len());
    assert("child"@[0] != "value"@[0]);
    assert("event_name"@.len() != "id"@.len());
    assert("event_name"@.len() != "name"@.len());
    assert("event_name"@.len() != "parent"@.len());
    assert("event_name"@.len() != "ref_id"@.len());
    assert("event_name"@.len() != "selector"@.len());
    assert("event_name"@.len() != "value"@.len());
    assert("id"@.len() != "name"@.len());
    assert("id"@.len() != "parent"@.len());
    assert("id"@.len() != "ref_id"@.len());
    assert("id"@.len() != "selector"@.len());
    assert("id"@.len() != "value"@.len());
    assert("name"@.len() != "parent"@.len());
    assert("name"@.len() != "ref_id"@.len());
    assert("name"@.len() != "selector"@.len());
    assert("name"@.len() != "value"@.len());
    assert("parent"@[0] != "ref_id"@[0]);
    assert("parent"@.len() != "selector"@.len());
    assert("parent"@.len() != "value"@.len());
    assert("ref_id"@.len() != "selector"@.len());
    assert("ref_id"@.len() != "value"@.len());
    assert("selector"@.len() != "value"@.len());
    axiom_owned("type");
    axiom_owned("callback_id");
    axiom_owned("child");
    axiom_owned("event_name");
    axiom_owned("id");
    axiom_owned("name");
    axiom_owned("parent");
    axiom_owned("ref_id");
    axiom_owned("selector");
    axiom_owned("value");
}
//@file crates/vertigo/src/driver_module/dom_command.rs
//@item enum DriverDomCommand
«pub» enum DriverDomCommand {
    CreateNode {
        id: DomId,
        name: StaticString,
    },
    CreateText {
        id: DomId,
        value: String,
    },
    UpdateText {
        id: DomId,
        value: String,
    },
    SetAttr {
        id: DomId,
        name: StaticString,
        value: String,
    },
    RemoveAttr {
        id: DomId,
        name: StaticString,
    },
    RemoveNode {
        id: DomId,
    },
    RemoveText {
        id: DomId,
    },
    InsertBefore {
        parent: DomId,
        child: DomId,
        ref_id: Option<DomId>,
    },
    InsertCss {
        selector: String,
        value: String,
    },

    CreateComment {
        id: DomId,
        value: String,
    },
    RemoveComment {
        id: DomId,
    },
    CallbackAdd {
        id: DomId,
        event_name: String,
        callback_id: CallbackId,
    },
    CallbackRemove {
        id: DomId,
        event_name: String,
        callback_id: CallbackId,
    },
}
//@end
impl DriverDomCommand {
//@item impl DriverDomCommand :: fn into_string
    pub fn into_string(self) -> «(r:» JsJson «) ensures encodes(self, r),»
    {
        «proof { reveal(encodes); lemma_literals(); }»
        match self {
            Self::CreateNode { id, name } => JsJsonObjectBuilder::default()
                .insert("type", "create_node")
                .insert("id", id.to_u64())
                .insert("name", name.as_str())
                .get(),
            Self::CreateText { id, value } => JsJsonObjectBuilder::default()
                .insert("type", "create_text")
                .insert("id", id.to_u64())
                .insert("value", value)
                .get(),
            Self::UpdateText { id, value } => JsJsonObjectBuilder::default()
                .insert("type", "update_text")
                .insert("id", id.to_u64())
                .insert("value", value)
                .get(),
            Self::SetAttr { id, name, value } => JsJsonObjectBuilder::default()
                .insert("type", "set_attr")
                .insert("id", id.to_u64())
                .insert("name", name.as_str())
                .insert("value", value)
                .get(),
            Self::RemoveAttr { id, name } => JsJsonObjectBuilder::default()
                .insert("type", "remove_attr")
                .insert("id", id.to_u64())
                .insert("name", name.as_str())
                .get(),
            Self::RemoveNode { id } => JsJsonObjectBuilder::default()
                .insert("type", "remove_node")
                .insert("id", id.to_u64())
                .get(),
            Self::RemoveText { id } => JsJsonObjectBuilder::default()
                .insert("type", "remove_text")
                .insert("id", id.to_u64())
                .get(),

            Self::CreateComment { id, value } => JsJsonObjectBuilder::default()
                .insert("type", "create_comment")
                .insert("id", id.to_u64())
                .insert("value", value)
                .get(),
            Self::RemoveComment { id } => JsJsonObjectBuilder::default()
                .insert("type", "remove_comment")
                .insert("id", id.to_u64())
                .get(),

            Self::InsertBefore {
                parent,
                child,
                ref_id,
            } => JsJsonObjectBuilder::default()
                .insert("type", "insert_before")
                .insert("parent", parent.to_u64())
                .insert("child", child.to_u64())
                .insert("ref_id", ref_id.map(|value «: DomId»| «-> (o: u64) ensures o == value.0 {» value.to_u64() «}»))
                .get(),
            Self::InsertCss { selector, value } => JsJsonObjectBuilder::default()
                .insert("type", "insert_css")
                .insert("selector", selector)
                .insert("value", value)
                .get(),
            Self::CallbackAdd {
                id,
                event_name,
                callback_id,
            } => JsJsonObjectBuilder::default()
                .insert("type", "callback_add")
                .insert("id", id.to_u64())
                .insert("event_name", event_name)
                .insert("callback_id", callback_id.as_u64())
                .get(),
            Self::CallbackRemove {
                id,
                event_name,
                callback_id,
            } => JsJsonObjectBuilder::default()
                .insert("type", "callback_remove")
                .insert("id", id.to_u64())
                .insert("event_name", event_name)
                .insert("callback_id", callback_id.as_u64())
                .get(),
        }
    }
//@end
}
//@file crates/vertigo-cli/src/serve/html/dom_command.rs
//@item enum DomCommand
«pub» enum DomCommand {
    CreateNode { id: u64, name: String },
    CreateText { id: u64, value: String },
    UpdateText { id: u64, value: String },
    SetAttr {
        id: u64,
        name: String,
        value: String,
    },
    RemoveAttr { id: u64, name: String },
    RemoveNode { id: u64 },
    RemoveText { id: u64 },
    InsertBefore {
        parent: u64,
        child: u64,
        ref_id: Option<u64>,
    },
    InsertCss { selector: String, value: String },
    CreateComment { id: u64, value: String },
    RemoveComment { id: u64 },
    CallbackAdd {
        id: u64,
        event_name: String,
        callback_id: u64,
    },
    CallbackRemove {
        id: u64,
        event_name: String,
        callback_id: u64,
    },
}
//@end
impl JsJsonDeserialize for DomCommand {
    // a type the server does not know stops it; it is proved below that no such command is ever sent
    open spec fn accepts(j: JsJson) -> bool {
        j.has("type"@) && j.at("type"@) is String ==> {
            ||| tagged(j, "callback_add"@)
            ||| tagged(j, "callback_remove"@)
            ||| tagged(j, "create_comment"@)
            ||| tagged(j, "create_node"@)
            ||| tagged(j, "create_text"@)
            ||| tagged(j, "insert_before"@)
            ||| tagged(j, "insert_css"@)
            ||| tagged(j, "remove_attr"@)
            ||| tagged(j, "remove_comment"@)
            ||| tagged(j, "remove_node"@)
            ||| tagged(j, "remove_text"@)
            ||| tagged(j, "set_attr"@)
            ||| tagged(j, "update_text"@)
        }
    }
    #[verifier::opaque]
    open spec fn reads(j: JsJson) -> bool {
            ||| tagged(j, "create_node"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("name"@) && String::reads(j.at("name"@))
            ||| tagged(j, "create_text"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("value"@) && String::reads(j.at("value"@))
            ||| tagged(j, "update_text"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("value"@) && String::reads(j.at("value"@))
            ||| tagged(j, "set_attr"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("name"@) && String::reads(j.at("name"@)) && j.has("value"@) && String::reads(j.at("value"@))
            ||| tagged(j, "remove_attr"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("name"@) && String::reads(j.at("name"@))
            ||| tagged(j, "remove_node"@) && j.has("id"@) && u64::reads(j.at("id"@))
            ||| tagged(j, "remove_text"@) && j.has("id"@) && u64::reads(j.at("id"@))
            ||| tagged(j, "insert_before"@) && j.has("parent"@) && u64::reads(j.at("parent"@)) && j.has("child"@) && u64::reads(j.at("child"@)) && j.has("ref_id"@) && Option::<u64>::reads(j.at("ref_id"@))
            ||| tagged(j, "insert_css"@) && j.has("selector"@) && String::reads(j.at("selector"@)) && j.has("value"@) && String::reads(j.at("value"@))
            ||| tagged(j, "create_comment"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("value"@) && String::reads(j.at("value"@))
            ||| tagged(j, "remove_comment"@) && j.has("id"@) && u64::reads(j.at("id"@))
            ||| tagged(j, "callback_add"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("event_name"@) && String::reads(j.at("event_name"@)) && j.has("callback_id"@) && u64::reads(j.at("callback_id"@))
            ||| tagged(j, "callback_remove"@) && j.has("id"@) && u64::reads(j.at("id"@)) && j.has("event_name"@) && String::reads(j.at("event_name"@)) && j.has("callback_id"@) && u64::reads(j.at("callback_id"@))
    }
    #[verifier::opaque]
    open spec fn de(j: JsJson, v: DomCommand) -> bool {
        match v {
            DomCommand::CreateNode { id, name } => tagged(j, "create_node"@) && u64::de(j.at("id"@), id) && String::de(j.at("name"@), name),
            DomCommand::CreateText { id, value } => tagged(j, "create_text"@) && u64::de(j.at("id"@), id) && String::de(j.at("value"@), value),
            DomCommand::UpdateText { id, value } => tagged(j, "update_text"@) && u64::de(j.at("id"@), id) && String::de(j.at("value"@), value),
            DomCommand::SetAttr { id, name, value } => tagged(j, "set_attr"@) && u64::de(j.at("id"@), id) && String::de(j.at("name"@), name) && String::de(j.at("value"@), value),
            DomCommand::RemoveAttr { id, name } => tagged(j, "remove_attr"@) && u64::de(j.at("id"@), id) && String::de(j.at("name"@), name),
            DomCommand::RemoveNode { id } => tagged(j, "remove_node"@) && u64::de(j.at("id"@), id),
            DomCommand::RemoveText { id } => tagged(j, "remove_text"@) && u64::de(j.at("id"@), id),
            DomCommand::InsertBefore { parent, child, ref_id } => tagged(j, "insert_before"@) && u64::de(j.at("parent"@), parent) && u64::de(j.at("child"@), child) && Option::<u64>::de(j.at("ref_id"@), ref_id),
            DomCommand::InsertCss { selector, value } => tagged(j, "insert_css"@) && String::de(j.at("selector"@), selector) && String::de(j.at("value"@), value),
            DomCommand::CreateComment { id, value } => tagged(j, "create_comment"@) && u64::de(j.at("id"@), id) && String::de(j.at("value"@), value),
            DomCommand::RemoveComment { id } => tagged(j, "remove_comment"@) && u64::de(j.at("id"@), id),
            DomCommand::CallbackAdd { id, event_name, callback_id } => tagged(j, "callback_add"@) && u64::de(j.at("id"@), id) && String::de(j.at("event_name"@), event_name) && u64::de(j.at("callback_id"@), callback_id),
            DomCommand::CallbackRemove { id, event_name, callback_id } => tagged(j, "callback_remove"@) && u64::de(j.at("id"@), id) && String::de(j.at("event_name"@), event_name) && u64::de(j.at("callback_id"@), callback_id),
        }
    }
//@item impl JsJsonDeserialize for DomCommand :: fn from_json
    fn from_json(context: JsJsonContext, mut json: JsJson) -> Result<Self, JsJsonContext> {
        «proof { reveal(<DomCommand as JsJsonDeserialize>::reads); reveal(<DomCommand as JsJsonDeserialize>::de); lemma_literals(); }»
        let type_param: String = json.get_property(&context, "type")?;

        let result = match type_param.as_str() {
            ⟦"create_node"⇒x if vx_str_eq(x, "create_node")⟧ => Self::CreateNode {
                id: json.get_property(&context, "id")?,
                name: json.get_property(&context, "name")?,
            },
            ⟦"create_text"⇒x if vx_str_eq(x, "create_text")⟧ => Self::CreateText {
                id: json.get_property(&context, "id")?,
                value: json.get_property(&context, "value")?,
            },
            ⟦"update_text"⇒x if vx_str_eq(x, "update_text")⟧ => Self::UpdateText {
                id: json.get_property(&context, "id")?,
                value: json.get_property(&context, "value")?,
            },
            ⟦"set_attr"⇒x if vx_str_eq(x, "set_attr")⟧ => Self::SetAttr {
                id: json.get_property(&context, "id")?,
                name: json.get_property(&context, "name")?,
                value: json.get_property(&context, "value")?,
            },
            ⟦"remove_attr"⇒x if vx_str_eq(x, "remove_attr")⟧ => Self::RemoveAttr {
                id: json.get_property(&context, "id")?,
                name: json.get_property(&context, "name")?,
            },
            ⟦"remove_node"⇒x if vx_str_eq(x, "remove_node")⟧ => Self::RemoveNode {
                id: json.get_property(&context, "id")?,
            },
            ⟦"remove_text"⇒x if vx_str_eq(x, "remove_text")⟧ => Self::RemoveText {
                id: json.get_property(&context, "id")?,
            },
            ⟦"insert_before"⇒x if vx_str_eq(x, "insert_before")⟧ => Self::InsertBefore {
                parent: json.get_property(&context, "parent")?,
                child: json.get_property(&context, "child")?,
                ref_id: json.get_property(&context, "ref_id")?,
            },
            ⟦"insert_css"⇒x if vx_str_eq(x, "insert_css")⟧ => Self::InsertCss {
                selector: json.get_property(&context, "selector")?,
                value: json.get_property(&context, "value")?,
            },
            ⟦"create_comment"⇒x if vx_str_eq(x, "create_comment")⟧ => Self::CreateComment {
                id: json.get_property(&context, "id")?,
                value: json.get_property(&context, "value")?,
            },
            ⟦"remove_comment"⇒x if vx_str_eq(x, "remove_comment")⟧ => Self::RemoveComment {
                id: json.get_property(&context, "id")?,
            },
            ⟦"callback_add"⇒x if vx_str_eq(x, "callback_add")⟧ => Self::CallbackAdd {
                id: json.get_property(&context, "id")?,
                event_name: json.get_property(&context, "event_name")?,
                callback_id: json.get_property(&context, "callback_id")?,
            },
            ⟦"callback_remove"⇒x if vx_str_eq(x, "callback_remove")⟧ => Self::CallbackRemove {
                id: json.get_property(&context, "id")?,
                event_name: json.get_property(&context, "event_name")?,
                callback_id: json.get_property(&context, "callback_id")?,
            },
            _ => {
                ⟦unreachable!()⇒vx_unreachable()⟧;
            }
        };

        Ok(result)
    }
//@end
}
//@item fn dom_command_from_js_json
pub fn dom_command_from_js_json(json: JsJson) -> «(r:» Result<Vec<DomCommand>, String> «)
    requires Vec::<DomCommand>::accepts(json),
    ensures r is Ok <==> Vec::<DomCommand>::reads(json), r is Ok ==> Vec::<DomCommand>::de(json, r->Ok_0),»
{
    from_json::<Vec<DomCommand>>(json)
}
//@end

// ---- C31 -----------------------------------------------------------------------------------------------------------------
proof fn lemma_decodes(c: DriverDomCommand, j: JsJson, d: DomCommand)
    requires encodes(c, j), fits(c),
    ensures DomCommand::accepts(j), DomCommand::reads(j), DomCommand::de(j, d) ==> same_command(c, d),
{
    reveal(encodes);
    reveal(<DomCommand as JsJsonDeserialize>::reads);
    reveal(<DomCommand as JsJsonDeserialize>::de);
    lemma_literals();
    match c {
        DriverDomCommand::CreateNode { id, name } => { axiom_u(id.0); axiom_string_ext(j.at("name"@)->String_0); }
        DriverDomCommand::CreateText { id, value } => { axiom_u(id.0); }
        DriverDomCommand::UpdateText { id, value } => { axiom_u(id.0); }
        DriverDomCommand::SetAttr { id, name, value } => { axiom_u(id.0); axiom_string_ext(j.at("name"@)->String_0); }
        DriverDomCommand::RemoveAttr { id, name } => { axiom_u(id.0); axiom_string_ext(j.at("name"@)->String_0); }
        DriverDomCommand::RemoveNode { id } => { axiom_u(id.0); }
        DriverDomCommand::RemoveText { id } => { axiom_u(id.0); }
        DriverDomCommand::InsertBefore { parent, child, ref_id } => { axiom_u(parent.0); axiom_u(child.0); if ref_id is Some { axiom_u((ref_id->0).0); } }
        DriverDomCommand::InsertCss { selector, value } => {  }
        DriverDomCommand::CreateComment { id, value } => { axiom_u(id.0); }
        DriverDomCommand::RemoveComment { id } => { axiom_u(id.0); }
        DriverDomCommand::CallbackAdd { id, event_name, callback_id } => { axiom_u(id.0); axiom_u(callback_id.0); }
        DriverDomCommand::CallbackRemove { id, event_name, callback_id } => { axiom_u(id.0); axiom_u(callback_id.0); }
    }
}
// every list of commands the client sends is decoded to the same list of commands
proof fn theorem_commands(cs: Seq<DriverDomCommand>, j: JsJson, ds: Vec<DomCommand>)
    requires
        j is List, (j->List_0)@.len() == cs.len(),
        forall|i: int| 0 <= i < cs.len() ==> fits(#[trigger] cs[i]) && encodes(cs[i], (j->List_0)@[i]),
    ensures
        Vec::<DomCommand>::accepts(j), Vec::<DomCommand>::reads(j),
        Vec::<DomCommand>::de(j, ds) ==> ds@.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> same_command(#[trigger] cs[i], ds@[i]),
{
    let l = (j->List_0)@;
    assert forall|i: int| 0 <= i < l.len() implies DomCommand::accepts(#[trigger] l[i]) && DomCommand::reads(l[i]) by {
        assert(fits(cs[i]));
        lemma_decodes(cs[i], l[i], arbitrary());
    }
    if Vec::<DomCommand>::de(j, ds) {
        assert forall|i: int| 0 <= i < cs.len() implies same_command(#[trigger] cs[i], ds@[i]) by {
            assert(DomCommand::de(l[i], ds@[i]));
            lemma_decodes(cs[i], l[i], ds@[i]);
        }
    }
}

} // verus!
fn main() {}
