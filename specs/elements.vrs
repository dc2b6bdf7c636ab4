#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use std::collections::VecDeque;
//@include std_extra.inc

verus! {

broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key, vda::axiom_vec_deque_decreases};

// the items of a VecDeque are part of it (as vstd says for Vec)
mod vda {
    use super::*;
    pub broadcast axiom fn axiom_vec_deque_decreases<T>(v: VecDeque<T>, i: int)
        requires 0 <= i < v@.len(),
        ensures #[trigger] (decreases_to!(v => v@[i]));
}

//@include strings.inc
//@include ordered_map.inc
//@include element_children.inc

#[verifier::external_body]
fn vx_id_string(v: u64) -> String { v.to_string() }
// [a, b, c, d].concat()
#[verifier::external_body]
fn vx_concat4(a: &str, b: &str, c: &str, d: &str) -> (r: String)
    ensures r@ == a@ + b@ + c@ + d@,
{ [a, b, c, d].concat() }

//@file crates/vertigo-cli/src/serve/html/dom_command.rs
//@item enum DomCommand
pub enum DomCommand {
    CreateNode { id: u64, name: String },
    CreateText { id: u64, value: String },
    UpdateText { id: u64, value: String },
    SetAttr {
        id: u64,
        name: String,
        value: String,
    },
    RemoveAttr { id: u64, name: String },
    RemoveNode { id: u64 },
    RemoveText { id: u64 },
    InsertBefore {
        parent: u64,
        child: u64,
        ref_id: Option<u64>,
    },
    InsertCss { selector: String, value: String },
    CreateComment { id: u64, value: String },
    RemoveComment { id: u64 },
    CallbackAdd {
        id: u64,
        event_name: String,
        callback_id: u64,
    },
    CallbackRemove {
        id: u64,
        event_name: String,
        callback_id: u64,
    },
}
//@end

//@file crates/vertigo-cli/src/serve/html/html_element.rs
//@item enum HtmlNode
pub enum HtmlNode {
    Element(HtmlElement),
    Text(String),
    Comment(String),
}
//@end
//@item struct HtmlElement
pub struct HtmlElement {
    pub name: String,
    pub attr: OrderedMap,
    pub children: VecDeque<HtmlNode>,
}
//@end
impl HtmlNode {
//@item impl From for HtmlNode :: fn from
    fn from(value: HtmlElement) -> «(r:» Self«)
        ensures r == HtmlNode::Element(value),»
    {
        HtmlNode::Element(value)
    }
//@end
}
impl HtmlElement {
//@item impl HtmlElement :: fn new
    pub fn new(name: ⟦impl Into<String>⇒String⟧) -> «(r:» Self«)
        ensures r.name == name, r.attr.wf(), r.attr.keys().len() == 0, r.children@.len() == 0,»
    {
        let name = name⟦.into()⇒⟧;

        HtmlElement {
            name,
            attr: OrderedMap::new(),
            children: VecDeque::new(),
        }
    }
//@end
//@item impl HtmlElement :: fn child
    pub fn child(⟦mut self⇒self⟧, child: HtmlNode) -> «(r:» Self«)
        ensures r.name == self.name, r.attr == self.attr, r.children@ == self.children@.push(child),»
    {
«        let mut vx_self = self;»
        ⟦self⇒vx_self⟧.children.push_back(child);
        ⟦self⇒vx_self⟧
    }
//@end
//@item impl HtmlElement :: fn from
    pub fn from(name: ⟦impl Into<String>⇒String⟧, attr: OrderedMap, children: VecDeque<HtmlNode>) -> «(r:» Self«)
        ensures r.name == name, r.attr == attr, r.children == children,»
    {
        HtmlElement {
            name: name⟦.into()⇒⟧,
            attr,
            children,
        }
    }
//@end
}

//@file crates/vertigo-cli/src/serve/html/element.rs
//@item enum Node
pub enum Node {
    Element(Element),
    Text(String),
    Comment(String),
}
//@end
//@item struct Element
pub struct Element {
    name: String,
    attr: OrderedMap,
    children: ElementChildren,
}
//@end
//@item struct AllElements
pub struct AllElements {
    parent: HashMap<u64, u64>,
    all: HashMap<u64, Node>,
    css: Vec<(String, String)>,
}
//@end

// ---- the browser's side: the DOM the same commands build there -------------------------------------------------
pub ghost enum NV {
    E { name: String, keys: Seq<String>, vals: Map<String, String>, children: Seq<u64> },
    T(String),
    C(String),
}
pub ghost struct Dom { nodes: Map<u64, NV>, css: Seq<(String, String)> }

// appendChild and insertBefore move a node: it first leaves its parent, wherever that is
spec fn detach(n: Map<u64, NV>, c: u64) -> Map<u64, NV> {
    n.map_values(|v: NV| match v {
        NV::E { name, keys, vals, children } => NV::E { name, keys, vals, children: list_remove(children, c) },
        _ => v,
    })
}
spec fn adopt(v: NV, r: Option<u64>, c: u64) -> NV {
    match v {
        NV::E { name, keys, vals, children } => NV::E { name, keys, vals, children: list_insert_before(children, r, c) },
        _ => v,
    }
}
spec fn with_attr(v: NV, k: String, x: String) -> NV {
    match v {
        NV::E { name, keys, vals, children } => NV::E { name, keys: without(keys, k).push(k), vals: vals.insert(k, x), children },
        _ => v,
    }
}
spec fn without_attr(v: NV, k: String) -> NV {
    match v {
        NV::E { name, keys, vals, children } => NV::E { name, keys: without(keys, k), vals: vals.remove(k), children },
        _ => v,
    }
}
spec fn browser(d: Dom, c: DomCommand) -> Dom {
    match c {
        DomCommand::CreateNode { id, name } => Dom { nodes: d.nodes.insert(id, NV::E { name, keys: Seq::empty(), vals: Map::empty(), children: Seq::empty() }), ..d },
        DomCommand::CreateText { id, value } => Dom { nodes: d.nodes.insert(id, NV::T(value)), ..d },
        DomCommand::UpdateText { id, value } => Dom { nodes: d.nodes.insert(id, NV::T(value)), ..d },
        DomCommand::CreateComment { id, value } => Dom { nodes: d.nodes.insert(id, NV::C(value)), ..d },
        DomCommand::SetAttr { id, name, value } => Dom { nodes: d.nodes.insert(id, with_attr(d.nodes[id], name, value)), ..d },
        DomCommand::RemoveAttr { id, name } => Dom { nodes: d.nodes.insert(id, without_attr(d.nodes[id], name)), ..d },
        DomCommand::RemoveNode { id } => Dom { nodes: detach(d.nodes, id).remove(id), ..d },
        DomCommand::RemoveText { id } => Dom { nodes: detach(d.nodes, id).remove(id), ..d },
        DomCommand::RemoveComment { id } => Dom { nodes: detach(d.nodes, id).remove(id), ..d },
        DomCommand::InsertBefore { parent, child, ref_id } => {
            let n = detach(d.nodes, child);
            Dom { nodes: n.insert(parent, adopt(n[parent], ref_id, child)), ..d }
        },
        DomCommand::InsertCss { selector, value } => Dom { css: d.css.push((selector, value)), ..d },
        DomCommand::CallbackAdd { .. } => d,
        DomCommand::CallbackRemove { .. } => d,
    }
}
// nodes are created before use, under fresh identifiers, and not used after removal
spec fn valid(d: Dom, c: DomCommand) -> bool {
    match c {
        DomCommand::CreateNode { id, .. } => !d.nodes.contains_key(id),
        DomCommand::CreateText { id, .. } => !d.nodes.contains_key(id),
        DomCommand::CreateComment { id, .. } => !d.nodes.contains_key(id),
        DomCommand::UpdateText { id, .. } => d.nodes.contains_key(id) && d.nodes[id] is T,
        DomCommand::SetAttr { id, .. } => d.nodes.contains_key(id) && d.nodes[id] is E,
        DomCommand::RemoveAttr { id, .. } => d.nodes.contains_key(id) && d.nodes[id] is E,
        DomCommand::InsertBefore { parent, child, ref_id } =>
            d.nodes.contains_key(parent) && d.nodes[parent] is E && d.nodes.contains_key(child) && parent != child
            && match ref_id { Some(r) => r != child && d.nodes[parent]->children.contains(r), None => true },
        _ => true,
    }
}
spec fn browser_all(d: Dom, c: Seq<DomCommand>) -> Dom
    decreases c.len(),
{
    if c.len() == 0 { d } else { browser(browser_all(d, c.drop_last()), c.last()) }
}
spec fn valid_all(d: Dom, c: Seq<DomCommand>) -> bool
    decreases c.len(),
{
    c.len() == 0 || valid_all(d, c.drop_last()) && valid(browser_all(d, c.drop_last()), c.last())
}

spec fn nv(n: Node) -> NV {
    match n {
        Node::Element(e) => NV::E { name: e.name, keys: e.attr.keys(), vals: e.attr.vals(), children: e.children.seq() },
        Node::Text(s) => NV::T(s),
        Node::Comment(s) => NV::C(s),
    }
}
spec fn node_ok(n: Node) -> bool {
    match n { Node::Element(e) => e.attr.wf() && e.children.wf(), _ => true }
}
impl AllElements {
    spec fn dom(self) -> Dom { Dom { nodes: self.all@.map_values(|n: Node| nv(n)), css: self.css@ } }
    // a child list holds live nodes, and only nodes whose recorded parent it is
    spec fn wf(self) -> bool {
        &&& forall|i: u64| #[trigger] self.all@.contains_key(i) ==> node_ok(self.all@[i])
        &&& forall|i: u64, c: u64| #[trigger] self.lists(i, c) ==> self.parent@.contains_key(c) && self.parent@[c] == i && self.all@.contains_key(c)
    }
    spec fn lists(self, i: u64, c: u64) -> bool {
        self.all@.contains_key(i) && self.all@[i] is Element && self.all@[i]->Element_0.children.seq().contains(c)
    }
    // nothing lists c
    spec fn free(self, c: u64) -> bool { forall|i: u64| !#[trigger] self.lists(i, c) }
}

proof fn lemma_list_remove(s: Seq<u64>, x: u64)
    requires s.no_duplicates(),
    ensures forall|y: u64| #[trigger] list_remove(s, x).contains(y) <==> s.contains(y) && y != x,
        !s.contains(x) ==> list_remove(s, x) == s,
{
    let t = list_remove(s, x);
    assert forall|y: u64| #[trigger] t.contains(y) <==> s.contains(y) && y != x by {
        if s.contains(x) {
            let k = s.index_of(x);
            if t.contains(y) { let j = t.index_of(y); assert(s[if j < k { j } else { j + 1 }] == y); }
            if s.contains(y) && y != x { let j = s.index_of(y); assert(t[if j < k { j } else { j - 1 }] == y); }
        }
    }
}
proof fn lemma_list_insert(s: Seq<u64>, r: Option<u64>, x: u64)
    requires !s.contains(x), match r { Some(y) => s.contains(y), None => true },
    ensures forall|y: u64| #[trigger] list_insert_before(s, r, x).contains(y) <==> s.contains(y) || y == x,
{
    let t = list_insert_before(s, r, x);
    let k = match r { Some(y) => s.index_of(y), None => s.len() as int };
    assert(t =~= s.insert(k, x));
    assert forall|y: u64| #[trigger] t.contains(y) <==> s.contains(y) || y == x by {
        if t.contains(y) && y != x { let j = t.index_of(y); assert(s[if j < k { j } else { j - 1 }] == y); }
        if s.contains(y) { let j = s.index_of(y); assert(t[if j < k { j } else { j + 1 }] == y); }
        assert(t[k] == x);
    }
}

impl Element {
//@item impl Element :: fn new
    pub fn new(name: ⟦impl Into<String>⇒String⟧) -> «(r:» Self«)
        ensures r.name == name, r.attr.wf(), r.children.wf(), r.attr.keys() == Seq::<String>::empty(), r.attr.vals() == Map::<String, String>::empty(), r.children.seq() == Seq::<u64>::empty(),»
    {
        let name = name⟦.into()⇒⟧;

        Element {
            name,
            attr: OrderedMap::new(),
            children: ElementChildren::new(),
        }
    }
//@end
}

impl AllElements {
    proof fn lemma_put(self, o: Self, id: u64, n: Node)
        requires
            o.wf(), self.all@ == o.all@.insert(id, n), self.parent@ == o.parent@, node_ok(n),
            n is Element ==> n->Element_0.children.seq() == (if o.all@.contains_key(id) && o.all@[id] is Element { o.all@[id]->Element_0.children.seq() } else { Seq::<u64>::empty() }),
        ensures self.wf(), self.dom().nodes =~= o.dom().nodes.insert(id, nv(n)),
    {
        assert forall|i: u64, c: u64| #[trigger] self.lists(i, c) implies o.lists(i, c) by {}
    }

//@item impl AllElements :: fn new
    pub fn new() -> «(r:» AllElements«)
        ensures r.wf(), r.dom() == (Dom { nodes: Map::empty(), css: Seq::empty() }),»
    {
        ⟦Self {⇒let r = Self {⟧
            parent: HashMap::new(),
            all: HashMap::new(),
            css: Vec::new(),
        }«;
        assert(r.dom().nodes =~= Map::<u64, NV>::empty());
        r»
    }
//@end
//@item impl AllElements :: fn create_node
    fn create_node(&mut self, id: u64, name: ⟦impl Into<String>⇒String⟧)
«        requires old(self).wf(), valid(old(self).dom(), DomCommand::CreateNode { id, name }),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::CreateNode { id, name }),»
    {
        let element = Node::Element(Element::new(name));
«        let ghost n = element;»
        self.all.insert(id, element);
«        proof { self.lemma_put(*old(self), id, n); }»
    }
//@end
//@item impl AllElements :: fn create_text
    fn create_text(&mut self, id: u64, value: ⟦impl Into<String>⇒String⟧)
«        requires old(self).wf(), !old(self).dom().nodes.contains_key(id) || old(self).dom().nodes[id] is T,
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::CreateText { id, value }),»
    {
        let value = value⟦.into()⇒⟧;
        let element = Node::Text(value);
«        let ghost n = element;»
        self.all.insert(id, element);
«        proof { self.lemma_put(*old(self), id, n); }»
    }
//@end
//@item impl AllElements :: fn update_text
    fn update_text(&mut self, id: u64, value: ⟦impl Into<String>⇒String⟧)
«        requires old(self).wf(), valid(old(self).dom(), DomCommand::UpdateText { id, value }),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::UpdateText { id, value }),»
    {
        self.create_text(id, value);
    }
//@end
//@item impl AllElements :: fn set_attr
    fn set_attr(&mut self, id: u64, name: ⟦impl Into<String>⇒String⟧, value: ⟦impl Into<String>⇒String⟧)
«        requires old(self).wf(), valid(old(self).dom(), DomCommand::SetAttr { id, name, value }),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::SetAttr { id, name, value }),»
    {
        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
            ⟦unreachable!()⇒vx_unreachable()⟧;
        };

        element.attr.set(name, value);
«        proof { self.lemma_put(*old(self), id, self.all@[id]); }»
    }
//@end
//@item impl AllElements :: fn remove_attr
    fn remove_attr(&mut self, id: u64, name: String)
«        requires old(self).wf(), valid(old(self).dom(), DomCommand::RemoveAttr { id, name }),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::RemoveAttr { id, name }),»
    {
        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
            ⟦unreachable!()⇒vx_unreachable()⟧;
        };

        element.attr.remove(&name);
«        proof { self.lemma_put(*old(self), id, self.all@[id]); }»
    }
//@end
//@item impl AllElements :: fn remove_from_parent
    fn remove_from_parent(&mut self, child_id: u64)
«        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).free(child_id), final(self).parent@ == old(self).parent@, final(self).css == old(self).css,
            final(self).dom().nodes == detach(old(self).dom().nodes, child_id),»
    {
«        proof { lemma_detached(*self, child_id); }»
        let Some(parent_id) = self.parent.get(&child_id) else {
            return;
        };
«        let ghost p = *parent_id;»

        let Some(Node::Element(parent_node)) = self.all.get_mut(parent_id) else {
«            proof {
                assert(self.all@ =~= old(self).all@);
                assert forall|i: u64, c: u64| #[trigger] self.lists(i, c) == old(self).lists(i, c) by {}
                assert(old(self).free(child_id));
            }»
            return;
        };

        parent_node.children.remove(child_id);
«        proof {
            let a = *old(self);
            let s = a.all@[p]->Element_0.children.seq();
            lemma_seq_nodup(a.all@[p]->Element_0.children);
            lemma_list_remove(s, child_id);
            assert forall|i: u64, c: u64| #[trigger] self.lists(i, c) implies a.lists(i, c) && c != child_id by {
                if i != p { assert(self.all@[i] == a.all@[i]); }
                assert(a.lists(i, c));
            }
            assert(self.dom().nodes =~= detach(a.dom().nodes, child_id)) by {
                assert forall|i: u64| #[trigger] self.all@.contains_key(i) implies self.dom().nodes[i] == detach(a.dom().nodes, child_id)[i] by {
                    if i != p {
                        assert(self.all@[i] == a.all@[i]);
                        if a.all@[i] is Element {
                            assert(!a.lists(i, child_id));
                            lemma_seq_nodup(a.all@[i]->Element_0.children);
                            lemma_list_remove(a.all@[i]->Element_0.children.seq(), child_id);
                        }
                    }
                }
            }
        }»
    }
//@end
//@item impl AllElements :: fn remove
    fn remove(&mut self, child_id: u64)
«        requires old(self).wf(),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::RemoveNode { id: child_id }),»
    {
        self.remove_from_parent(child_id);
«        let ghost m = *self;»
        self.parent.remove(&child_id);

        self.all.remove(&child_id);
«        proof {
            assert forall|i: u64, c: u64| #[trigger] self.lists(i, c) implies m.lists(i, c) by {}
            assert(forall|i: u64| !#[trigger] m.lists(i, child_id));
            assert(self.dom().nodes =~= m.dom().nodes.remove(child_id));
        }»
    }
//@end
//@item impl AllElements :: fn insert_before
    fn insert_before(&mut self, parent_id: u64, ref_id: Option<u64>, child_id: u64)
«        requires old(self).wf(), valid(old(self).dom(), DomCommand::InsertBefore { parent: parent_id, child: child_id, ref_id }),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::InsertBefore { parent: parent_id, child: child_id, ref_id }),»
    {
        self.remove_from_parent(child_id);
«        let ghost m = *self;
        proof {
            let e = old(self).all@[parent_id]->Element_0.children;
            lemma_seq_nodup(e);
            lemma_list_remove(e.seq(), child_id);
            assert(m.dom().nodes[parent_id] == detach(old(self).dom().nodes, child_id)[parent_id]);
            assert(m.all@.contains_key(parent_id)) by { assert(m.dom().nodes.dom().contains(parent_id)); }
            assert(m.all@.contains_key(child_id)) by { assert(m.dom().nodes.dom().contains(child_id)); }
            assert(!m.lists(parent_id, child_id));
            assert(nv(m.all@[parent_id]) == m.dom().nodes[parent_id]);
        }»
        self.parent.insert(child_id, parent_id);

        let Some(Node::Element(parent_node)) = self.all.get_mut(&parent_id) else {
            ⟦unreachable!()⇒vx_unreachable()⟧;
        };

        parent_node.children.insert_before(ref_id, child_id);
«        proof {
            let s = m.all@[parent_id]->Element_0.children.seq();
            lemma_list_insert(s, ref_id, child_id);
            assert forall|i: u64, c: u64| #[trigger] self.lists(i, c) implies m.lists(i, c) || i == parent_id && c == child_id by {
                if i != parent_id { assert(self.all@[i] == m.all@[i]); assert(m.lists(i, c)); }
                else if c != child_id { assert(m.lists(i, c)); }
            }
            assert(self.dom().nodes =~= m.dom().nodes.insert(parent_id, adopt(m.dom().nodes[parent_id], ref_id, child_id)));
        }»
    }
//@end
//@item impl AllElements :: fn insert_css
    fn insert_css(&mut self, selector: String, value: String)
«        requires old(self).wf(),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::InsertCss { selector, value }),»
    {
        self.css.push((selector, value));
«        assert forall|i: u64, c: u64| #[trigger] self.lists(i, c) implies old(self).lists(i, c) by {}»
    }
//@end
//@item impl AllElements :: fn create_comment
    fn create_comment(&mut self, id: u64, value: String)
«        requires old(self).wf(), valid(old(self).dom(), DomCommand::CreateComment { id, value }),
        ensures final(self).wf(), final(self).dom() == browser(old(self).dom(), DomCommand::CreateComment { id, value }),»
    {
        let element = Node::Comment(value);
«        let ghost n = element;»
        self.all.insert(id, element);
«        proof { self.lemma_put(*old(self), id, n); }»
    }
//@end
//@item impl AllElements :: fn feed
    pub fn feed(&mut self, commands: Vec<DomCommand>)
«        requires old(self).wf(), valid_all(old(self).dom(), commands@),
        ensures final(self).wf(), final(self).dom() == browser_all(old(self).dom(), commands@),»
    {
«        let ghost s = commands@;
        let ghost d = self.dom();
        assert(s.take(0) =~= Seq::<DomCommand>::empty());»
        for node in «it:» commands
«            invariant
                it.seq() == s, self.wf(), d == old(self).dom(), valid_all(d, s),
                self.dom() == browser_all(d, s.take(it.index@ as int)),»
        {
«            proof {
                lemma_valid_prefix(d, s, it.index@ + 1);
                assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int));
                assert(s.take(it.index@ + 1).last() == node);
            }»
            match node {
                DomCommand::CallbackAdd { .. } => {
                    // ignored on server-side
                }
                DomCommand::CallbackRemove { .. } => {
                    // ignored on server-side
                }
                DomCommand::CreateNode { id, name } => {
                    self.create_node(id, name);
                }
                DomCommand::CreateText { id, value } => {
                    self.create_text(id, value);
                }
                DomCommand::UpdateText { id, value } => {
                    self.update_text(id, value);
                }
                DomCommand::RemoveText { id } => {
                    self.remove(id);
                }
                DomCommand::SetAttr { id, name, value } => {
                    self.set_attr(id, name, value);
                }
                DomCommand::RemoveAttr { id, name } => {
                    self.remove_attr(id, name);
                }
                DomCommand::RemoveNode { id } => {
                    self.remove(id);
                }
                DomCommand::InsertBefore {
                    parent,
                    ref_id,
                    child,
                } => self.insert_before(parent, ref_id, child),
                DomCommand::InsertCss { selector, value } => {
                    self.insert_css(selector, value);
                }
                DomCommand::CreateComment { id, value } => {
                    self.create_comment(id, value);
                }
                DomCommand::RemoveComment { id } => {
                    self.remove(id);
                }
            }
        }
«        assert(s.take(s.len() as int) =~= s);»
    }
//@end
//@item impl AllElements :: fn get_response_one_elements
«    #[verifier::exec_allows_no_decreases_clause]»
    fn get_response_one_elements(&self, node_id: u64, with_id: bool) -> «(r:» HtmlNode«)
        requires self.wf(),
        ensures !with_id && self.all@.contains_key(node_id) ==> shows(self.dom(), node_id, r),»
    {
        let Some(node) = self.all.get(&node_id) else {
            return HtmlNode::Comment(⟦"No <html> element".to_string()⇒vx_string()⟧);
        };
«        assert(self.dom().nodes[node_id] == nv(*node));»

        match node {
            Node::Element(node) => {
                let mut attr = node.attr.clone();

                if with_id {
                    attr.set(⟦"data-id"⇒vx_string()⟧, ⟦node_id.to_string()⇒vx_id_string(node_id)⟧);
                }

                let children = self.get_response_elements(node, with_id);
                ⟦HtmlElement::from(node.name.clone(), attr, children).into()⇒HtmlNode::from(HtmlElement::from(vx_string_clone(&node.name), attr, children))⟧
            }
            Node::Text(text) => HtmlNode::Text(⟦text.clone()⇒vx_string_clone(text)⟧),
            Node::Comment(comment) => HtmlNode::Comment(⟦comment.clone()⇒vx_string_clone(comment)⟧),
        }
    }
//@end
//@item impl AllElements :: fn get_response_elements
«    #[verifier::exec_allows_no_decreases_clause]»
    fn get_response_elements(&self, element: &Element, with_id: bool) -> «(r:» VecDeque<HtmlNode>«)
        requires
            self.wf(), element.children.wf(),
            exists|i: u64| self.all@.contains_key(i) && self.all@[i] == Node::Element(*element),
        ensures !with_id ==> r@.len() == element.children.seq().len() && forall|k: int| 0 <= k < r@.len() ==> shows(self.dom(), element.children.seq()[k], #[trigger] r@[k]),»
    {
        let mut result = VecDeque::new();
«        let ghost s = element.children.seq();
        let ghost me = choose|i: u64| self.all@.contains_key(i) && self.all@[i] == Node::Element(*element);»

        for child_id in «it:» element.children.childs()
«            invariant
                it.seq() == s, s == element.children.seq(), self.wf(), self.all@.contains_key(me), self.all@[me] == Node::Element(*element),
                !with_id ==> result@.len() == it.index@ && forall|k: int| 0 <= k < result@.len() ==> shows(self.dom(), s[k], #[trigger] result@[k]),»
        {
«            proof { assert(s.contains(s[it.index@ as int])); assert(self.lists(me, child_id)); }»
            result.push_back(self.get_response_one_elements(child_id, with_id));
        }

        result
    }
//@end
//@item impl AllElements :: fn get_css
    fn get_css(&self) -> «(r:» Vec<HtmlNode>«)
        ensures r@.len() == self.css@.len(), forall|i: int| 0 <= i < r@.len() ==> is_style(#[trigger] r@[i], self.css@[i].0@, self.css@[i].1@),»
    {
        let mut result = Vec::new();

        for (prop, value) in «it:» ⟦self.css.iter()⇒vx_pairs(&self.css)⟧
«            invariant
                it.seq().len() == self.css@.len(), forall|i: int| 0 <= i < self.css@.len() ==> (*(#[trigger] it.seq()[i]).0, *it.seq()[i].1) == self.css@[i],
                result@.len() == it.index@, forall|i: int| 0 <= i < result@.len() ==> is_style(#[trigger] result@[i], self.css@[i].0@, self.css@[i].1@),»
        {
            let content = ⟦[prop.as_str(), " { ", value.as_str(), " }"].concat()⇒vx_concat4(prop.as_str(), " { ", value.as_str(), " }")⟧;

            result.push(
                ⟦HtmlElement::new("style")
                    .child(HtmlNode::Text(content))
                    .into()⇒HtmlNode::from(HtmlElement::new(vx_owned("style")).child(HtmlNode::Text(content)))⟧,
            );
        }

        result
    }
//@end
//@item impl AllElements :: fn get_response
    pub fn get_response(&self, with_id: bool) -> «(r:» (HtmlNode, Vec<HtmlNode>)«)
        requires self.wf(),
        ensures
            !with_id && self.all@.contains_key(1) ==> shows(self.dom(), 1, r.0),
            r.1@.len() == self.css@.len(), forall|i: int| 0 <= i < r.1@.len() ==> is_style(#[trigger] r.1@[i], self.css@[i].0@, self.css@[i].1@),»
    {
        let root_html = self.get_response_one_elements(1, with_id);
        let css = self.get_css();
        (root_html, css)
    }
//@end
}

// the tree h is node id of d, with everything below it
spec fn shows(d: Dom, id: u64, h: HtmlNode) -> bool
    decreases h,
{
    match h {
        HtmlNode::Text(s) => d.nodes[id] == NV::T(s),
        HtmlNode::Comment(s) => d.nodes[id] == NV::C(s),
        HtmlNode::Element(e) => match d.nodes[id] {
            NV::E { name, keys, vals, children } =>
                e.name == name && e.attr.keys() == keys && e.attr.vals() == vals && e.children@.len() == children.len()
                && forall|k: int| 0 <= k < children.len() ==> shows(d, children[k], #[trigger] e.children@[k]),
            _ => false,
        },
    }
}
spec fn is_style(h: HtmlNode, sel: Seq<char>, val: Seq<char>) -> bool {
    match h {
        HtmlNode::Element(e) => e.name@ == "style"@ && e.attr.keys().len() == 0 && e.children@.len() == 1 && match e.children@[0] {
            HtmlNode::Text(t) => t@ == sel + " { "@ + val + " }"@,
            _ => false,
        },
        _ => false,
    }
}
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn vx_pairs<'a>(v: &'a Vec<(String, String)>) -> (r: Vec<(&'a String, &'a String)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (*(#[trigger] r@[i]).0, *r@[i].1) == v@[i],
{ v.iter().map(|(a, b)| (a, b)).collect() }
#[verifier::external_body]
fn vx_unreachable() -> (r: !)
    requires false,
{ unreachable!() }

proof fn lemma_seq_nodup(e: ElementChildren)
    requires e.wf(),
    ensures e.seq().no_duplicates(),
{}
// detaching c changes nothing when nothing lists it
proof fn lemma_detached(a: AllElements, c: u64)
    requires a.wf(),
    ensures
        a.free(c) ==> detach(a.dom().nodes, c) == a.dom().nodes,
        !a.parent@.contains_key(c) ==> a.free(c),
        a.parent@.contains_key(c) && (!a.all@.contains_key(a.parent@[c]) || !(a.all@[a.parent@[c]] is Element)) ==> a.free(c),
{
    if !a.parent@.contains_key(c) { assert forall|i: u64| !#[trigger] a.lists(i, c) by {} }
    if a.free(c) {
        assert forall|i: u64| #[trigger] a.all@.contains_key(i) implies detach(a.dom().nodes, c)[i] == a.dom().nodes[i] by {
            assert(!a.lists(i, c));
            if a.all@[i] is Element {
                lemma_seq_nodup(a.all@[i]->Element_0.children);
                lemma_list_remove(a.all@[i]->Element_0.children.seq(), c);
            }
        }
        assert(detach(a.dom().nodes, c) =~= a.dom().nodes);
    }
}
proof fn lemma_valid_prefix(d: Dom, c: Seq<DomCommand>, n: int)
    requires valid_all(d, c), 0 <= n <= c.len(),
    ensures valid_all(d, c.take(n)),
    decreases c.len(),
{
    if n < c.len() {
        lemma_valid_prefix(d, c.drop_last(), n);
        assert(c.drop_last().take(n) =~= c.take(n));
    } else {
        assert(c.take(n) =~= c);
    }
}

} // verus!
fn main() {}
