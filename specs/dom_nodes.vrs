#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use std::collections::VecDeque;
use std::rc::Rc;

verus! {
broadcast use vstd::std_specs::vecdeque::group_vec_dequeue_axioms;

//@include struct_mut.inc

//@include strings.inc

//@include dom_id.inc

//@file crates/vertigo/src/computed/struct_mut/vec_deque_mut.rs
//@item struct VecDequeMut
pub struct VecDequeMut<V> {
    data: InnerValue<VecDeque<V>>,
}
//@end
impl<V> VecDequeMut<V> {
    pub closed spec fn view(self) -> Seq<V> { self.data.value@ }
//@item impl VecDequeMut :: fn new
    pub fn new() -> «(r:» VecDequeMut<V>«)
        ensures r@ == Seq::<V>::empty(),»
    {
        VecDequeMut {
            data: InnerValue::new(VecDeque::new()),
        }
    }
//@end
//@item impl VecDequeMut :: fn push
    pub fn push(⟦&self⇒&mut self⟧, value: V)
«        ensures final(self)@ == old(self)@.push(value),»
    {
        let state = self.data.get_mut();
        state.push_back(value);
    }
//@end
}

// ---- trusted: what the commands do (C05, C14, C15, C31), the numbers of nodes, texts -----------------------------------------
pub enum Made { Element(Seq<char>), Text(Seq<char>), Comment(Seq<char>) }
// The nodes there are; the children of a node in order, each standing for itself and for what it placed before itself (a marker).
pub struct World { pub ghost nodes: Map<DomId, Made>, pub ghost kids: spec_fn(DomId) -> Seq<DomId>, pub ghost used: Set<DomId> }
pub open spec fn other(x: DomId) -> spec_fn(DomId) -> bool { |y: DomId| y != x }
pub open spec fn rid(s: Seq<DomId>, x: DomId) -> Seq<DomId> { s.filter(other(x)) }
// x before r
pub open spec fn ins(s: Seq<DomId>, x: DomId, r: DomId) -> Seq<DomId>
    decreases s.len(),
{
    if s.len() == 0 { seq![x] } else if s[0] == r { seq![x] + s } else { seq![s[0]] + ins(s.skip(1), x, r) }
}
pub open spec fn put(s: Seq<DomId>, x: DomId, r: Option<DomId>) -> Seq<DomId> {
    match r { None => rid(s, x).push(x), Some(r) => ins(rid(s, x), x, r) }
}
pub open spec fn created(a: World, b: World, id: DomId, m: Made) -> bool {
    &&& !a.used.contains(id) && b.used == a.used.insert(id)
    &&& b.nodes == a.nodes.insert(id, m) && (b.kids)(id) == Seq::<DomId>::empty()
    &&& forall|p: DomId| p != id ==> #[trigger] (b.kids)(p) == (a.kids)(p)
}
pub open spec fn placed(a: World, b: World, parent: DomId, child: DomId, r: Option<DomId>) -> bool {
    &&& (b.kids)(parent) == put((a.kids)(parent), child, r)
    &&& forall|p: DomId| p != parent ==> #[trigger] (b.kids)(p) == rid((a.kids)(p), child)
}
impl World {
    #[verifier::external_body]
    fn new_id(&mut self) -> (r: DomId)
        ensures
            !old(self).used.contains(r), final(self).used == old(self).used.insert(r), (old(self).kids)(r) == Seq::<DomId>::empty(),
            final(self).nodes == old(self).nodes, final(self).kids == old(self).kids,
    { unimplemented!() }
    #[verifier::external_body]
    fn new_id_for(&mut self, name: &str) -> (r: DomId)
        ensures
            !old(self).used.contains(r), final(self).used == old(self).used.insert(r), (old(self).kids)(r) == Seq::<DomId>::empty(),
            final(self).nodes == old(self).nodes, final(self).kids == old(self).kids,
    { unimplemented!() }
    #[verifier::external_body]
    fn create_node(&mut self, id: DomId, name: StaticString)
        ensures final(self).nodes == old(self).nodes.insert(id, Made::Element(name@)), final(self).kids == old(self).kids, final(self).used == old(self).used,
    { unimplemented!() }
    #[verifier::external_body]
    fn create_text(&mut self, id: DomId, value: &str)
        ensures final(self).nodes == old(self).nodes.insert(id, Made::Text(value@)), final(self).kids == old(self).kids, final(self).used == old(self).used,
    { unimplemented!() }
    #[verifier::external_body]
    fn create_comment(&mut self, id: DomId, value: &str)
        ensures final(self).nodes == old(self).nodes.insert(id, Made::Comment(value@)), final(self).kids == old(self).kids, final(self).used == old(self).used,
    { unimplemented!() }
    #[verifier::external_body]
    fn update_text(&mut self, id: DomId, value: &str)
        ensures final(self).nodes == old(self).nodes.insert(id, Made::Text(value@)), final(self).kids == old(self).kids, final(self).used == old(self).used,
    { unimplemented!() }
    #[verifier::external_body]
    fn insert_before(&mut self, parent: DomId, child: DomId, ref_id: Option<DomId>)
        requires ref_id matches Some(r) ==> r != child && (old(self).kids)(parent).contains(r),
        ensures placed(*old(self), *final(self), parent, child, ref_id), final(self).nodes == old(self).nodes, final(self).used == old(self).used,
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_node(&mut self, id: DomId)
        requires old(self).nodes.contains_key(id) ==> old(self).nodes[id] is Element,
        ensures removed(*old(self), *final(self), id),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_text(&mut self, id: DomId)
        requires old(self).nodes.contains_key(id) ==> old(self).nodes[id] is Text,
        ensures removed(*old(self), *final(self), id),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_comment(&mut self, id: DomId)
        requires old(self).nodes.contains_key(id) ==> old(self).nodes[id] is Comment,
        ensures removed(*old(self), *final(self), id),
    { unimplemented!() }
    // a node is no longer held: it is dropped, which removes it (the three functions drop), then what it holds is.
    // It is a child of this parent, which is therefore not among what it holds.
    #[verifier::external_body]
    fn dropped(&mut self, n: Ghost<Option<DomNode>>, parent: Ghost<DomId>)
        ensures
            (final(self).kids)(parent@) == (match n@ { Some(n) => rid((old(self).kids)(parent@), nid(n)), None => (old(self).kids)(parent@) }),
            final(self).used == old(self).used,
    { unimplemented!() }
}
pub open spec fn removed(a: World, b: World, id: DomId) -> bool {
    &&& b.nodes == a.nodes.remove(id) && b.used == a.used
    &&& forall|p: DomId| p != id ==> #[trigger] (b.kids)(p) == rid((a.kids)(p), id)
}
#[verifier::external_body]
pub struct StaticString(());
impl StaticString {
    pub uninterp spec fn view(self) -> Seq<char>;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct ClassManager(());
impl ClassManager {
    pub uninterp spec fn of(self) -> DomId;
    // DomElementClassMerge::new (unit element_class)
    #[verifier::external_body]
    fn new(id_dom: DomId) -> (r: Self) ensures r.of() == id_dom { unimplemented!() }
}
// values that are shown as a text
pub trait Shown: Sized {
    spec fn shown(self) -> Seq<char>;
    fn into_text(self) -> (r: String)
        ensures r@ == self.shown();
}
// ---- trusted: subscriptions (C08, C12): the function is run with the value there is now, and with every new one -----------------
pub enum Does { Text(DomId), Value(DomId, DomId), Parent(DomId), Nothing }
pub struct DropResource { pub of: Ghost<int>, pub does: Ghost<Does> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Computed<T> { _p: std::marker::PhantomData<T> }
impl<T> Computed<T> {
    pub uninterp spec fn what(self) -> int;
    pub uninterp spec fn now(self) -> T;
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T: Shown> Computed<T> {
    #[verifier::external_body]
    fn subscribe_text<F: Fn(T, &mut World)>(self, call: F, w: &mut World, id: Ghost<DomId>) -> (r: DropResource)
        requires
            forall|v: T, s: &mut World| #[trigger] call_requires(call, (v, s)),
            forall|v: T, s: &mut World| #[trigger] call_ensures(call, (v, s), ()) ==> says(*s, *final(s), id@, v.shown()),
        ensures
            r.of@ == self.what(), r.does@ == Does::Text(id@),
            says(*old(w), *final(w), id@, self.now().shown()),
    { unimplemented!() }
}
spec fn says(a: World, b: World, id: DomId, text: Seq<char>) -> bool {
    b.nodes == a.nodes.insert(id, Made::Text(text)) && b.kids == a.kids && b.used == a.used
}

impl World {
    // DriverDom::node_parent (unit suspense): the function is run each time the node is put somewhere.
    // Each run is one of mount, and what it returns is kept until the next run.
    #[verifier::external_body]
    fn node_parent<M: Fn(DomId, DomId, &mut World) -> Option<DropResource>, F: Fn(DomId, &mut ValueMut<Option<DropResource>>, &mut World)>(
        &mut self, id: DomId, f: F, mount: Ghost<M>) -> (r: DropResource)
        requires
            forall|p: DomId, c: &mut ValueMut<Option<DropResource>>, s: &mut World| marked(*s, p, id) ==> #[trigger] call_requires(f, (p, c, s)),
            forall|p: DomId, c: &mut ValueMut<Option<DropResource>>, s: &mut World| #[trigger] call_ensures(f, (p, c, s), ()) ==> mounted(mount@, p, id, *s, *final(s), (*final(c))@),
        ensures r.does@ == Does::Parent(id), *final(self) == *old(self),
    { unimplemented!() }
}
#[verifier::prophetic]
spec fn mounted<M: Fn(DomId, DomId, &mut World) -> Option<DropResource>>(m: M, p: DomId, id: DomId, a: World, b: World, r: Option<DropResource>) -> bool {
    exists|s: &mut World| *s == a && *final(s) == b && #[trigger] call_ensures(m, (p, id, s), r)
}
// the marker stands in the parent
spec fn marked(w: World, p: DomId, m: DomId) -> bool { (w.kids)(p).contains(m) && w.used.contains(p) && w.used.contains(m) }
// a function of the program makes new nodes, and changes no others
spec fn rendered(a: World, b: World, n: Option<DomNode>) -> bool {
    &&& a.used.subset_of(b.used)
    &&& n matches Some(n) ==> !a.used.contains(nid(n)) && b.used.contains(nid(n))
    &&& forall|p: DomId| a.used.contains(p) ==> #[trigger] (b.kids)(p) == (a.kids)(p)
}
spec fn from<T, F: Fn(T, &mut World) -> Option<DomNode>>(f: F, v: T, n: Option<DomNode>) -> bool { exists|s: &mut World| #[trigger] call_ensures(f, (v, s), n) }
#[verifier::prophetic]
spec fn renders<T, F: Fn(T, &mut World) -> Option<DomNode>>(f: F) -> bool {
    &&& forall|v: T, s: &mut World| #[trigger] call_requires(f, (v, s))
    &&& forall|v: T, s: &mut World, n: Option<DomNode>| #[trigger] call_ensures(f, (v, s), n) ==> rendered(*s, *final(s), n)
}
spec fn one(n: Option<DomNode>) -> Seq<DomId> { match n { Some(n) => seq![nid(n)], None => Seq::empty() } }
// what is shown stands directly before the marker
spec fn slot(w: World, p: DomId, m: DomId, cur: Option<DomNode>, pre: Seq<DomId>, post: Seq<DomId>) -> bool {
    &&& (w.kids)(p) == pre + one(cur) + seq![m] + post && (w.kids)(p).no_duplicates()
    &&& forall|d: DomId| #[trigger] (w.kids)(p).contains(d) ==> w.used.contains(d)
}
// the node for the value is shown instead of the one before, and nothing else beside it changes
spec fn shown_instead(a: World, b: World, p: DomId, m: DomId, was: Option<DomNode>, now: Option<DomNode>) -> bool {
    &&& a.used.subset_of(b.used)
    &&& forall|pre: Seq<DomId>, post: Seq<DomId>| #[trigger] slot(a, p, m, was, pre, post) ==> slot(b, p, m, now, pre, post)
}
impl<T> Computed<T> {
    #[verifier::external_body]
    fn subscribe_node<R: Fn(T, &mut World) -> Option<DomNode>, F: Fn(T, &mut ValueMut<Option<DomNode>>, &mut World)>(
        self, call: F, c: &mut ValueMut<Option<DomNode>>, w: &mut World, p: Ghost<DomId>, m: Ghost<DomId>, render: Ghost<R>) -> (r: DropResource)
        requires
            marked(*old(w), p@, m@),
            forall|v: T, c: &mut ValueMut<Option<DomNode>>, s: &mut World| marked(*s, p@, m@) ==> #[trigger] call_requires(call, (v, c, s)),
            forall|v: T, c: &mut ValueMut<Option<DomNode>>, s: &mut World| #[trigger] call_ensures(call, (v, c, s), ()) ==> shown_instead(*s, *final(s), p@, m@, (*c)@, (*final(c))@) && from(render@, v, (*final(c))@),
        ensures
            r.of@ == self.what(), r.does@ == Does::Value(p@, m@),
            shown_instead(*old(w), *final(w), p@, m@, old(c)@, final(c)@), from(render@, self.now(), final(c)@),
    { unimplemented!() }
}

//@file crates/vertigo/src/dom/dom_element.rs
//@item struct DomElement
pub struct DomElement {
    ⟦driver: Driver,⇒⟧
    id_dom: DomId,
    child_node: VecDequeMut<DomNode>,
    subscriptions: VecMut<DropResource>,
    class_manager: ⟦DomElementClassMerge⇒ClassManager⟧,
}
//@end
//@file crates/vertigo/src/dom/dom_text.rs
//@item struct DomText
pub struct DomText {
    ⟦driver: Driver,⇒⟧
    id_dom: DomId,
    subscriptions: VecMut<DropResource>,
}
//@end
//@file crates/vertigo/src/dom/dom_comment.rs
//@item struct DomComment
pub struct DomComment {
    ⟦driver: Driver,⇒⟧
    pub id_dom: DomId,
    subscriptions: VecMut<DropResource>,
}
//@end
//@file crates/vertigo/src/dom/dom_node.rs
//@item enum DomNode
pub enum DomNode {
    Node { node: DomElement },
    Text { node: DomText },
    Comment { node: DomComment },
}
//@end
pub closed spec fn nid(n: DomNode) -> DomId {
    match n { DomNode::Node { node } => node.id_dom, DomNode::Text { node } => node.id_dom, DomNode::Comment { node } => node.id_dom }
}
pub open spec fn nids(l: Seq<DomNode>) -> Seq<DomId> { l.map_values(|n: DomNode| nid(n)) }
impl DomNode {
//@item impl DomNode :: fn new_node
    pub fn new_node(node: DomElement) -> «(r:» DomNode«)
        ensures r == (DomNode::Node { node }),»
    {
        DomNode::Node { node }
    }
//@end
//@item impl DomNode :: fn new_text
    pub fn new_text(node: DomText) -> «(r:» DomNode«)
        ensures r == (DomNode::Text { node }),»
    {
        DomNode::Text { node }
    }
//@end
//@item impl DomNode :: fn id_dom
    pub fn id_dom(&self) -> «(r:» DomId«)
        ensures r == nid(*self),»
    {
        match self {
            Self::Node { node } => node.id_dom(),
            Self::Text { node } => node.id_dom(),
            Self::Comment { node } => node.id_dom(),
        }
    }
//@end
}

proof fn lemma_put_new(s: Seq<DomId>, x: DomId)
    requires !s.contains(x),
    ensures rid(s, x) == s, put(s, x, None) == s.push(x),
{
    let f = other(x);
    assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) by { assert(s.contains(s[i])); }
    lemma_filter_all(s, f);
}
proof fn lemma_filter_all(s: Seq<DomId>, f: spec_fn(DomId) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]),
    ensures s.filter(f) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(f(s[s.len() - 1]));
        lemma_filter_all(s.drop_last(), f);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}

//@file crates/vertigo/src/dom/dom_text.rs
impl DomText {
//@item impl DomText :: fn new
    pub fn new(value: ⟦impl Into<String>⇒String⟧«, w: &mut World») -> ⟦DomText⇒(r: DomText)⟧
«        ensures created(*old(w), *final(w), r.id_dom, Made::Text(value@)), r.subscriptions@.len() == 0,»
    {
        let value = value⟦.into()⇒⟧;
        let id = ⟦DomId::default()⇒w.new_id()⟧;

        ⟦let driver = get_driver();
        driver.inner.dom⇒w⟧.create_text(id, &value);

        DomText {
            ⟦driver,⇒⟧
            id_dom: id,
            subscriptions: VecMut::new(),
        }
    }
//@end
//@item impl DomText :: fn new_computed
    pub fn new_computed<T: ⟦Into<String> + Clone + PartialEq + 'static⇒Shown⟧>(
        computed: ⟦impl ToComputed<T>⇒Computed<T>⟧,
«        w: &mut World,»
    ) -> «(r:» Self«)
        ensures
            // the text there is now; every new value replaces it, as long as the node is there
            created(*old(w), *final(w), r.id_dom, Made::Text(computed.now().shown())),
            r.subscriptions@.len() == 1, r.subscriptions@[0].of@ == computed.what(), r.subscriptions@[0].does@ == Does::Text(r.id_dom),»
    {
        let ⟦text_node⇒mut text_node⟧ = DomText::new(⟦String::new()⇒vx_string()⟧«, w»);
        let id_dom = text_node.id_dom;
        ⟦let driver = get_driver();⇒⟧

        let computed = computed⟦.to_computed()⇒⟧;
«        let ghost w1 = *w;»
        let client = computed.⟦subscribe⇒subscribe_text⟧(move |value«: T, w: &mut World»| «ensures says(*old(w), *final(w), id_dom, value.shown()),» {
            let value: String = value.⟦into⇒into_text⟧();
            ⟦driver.inner.dom⇒w⟧.update_text(id_dom, &value);
        }«, w, Ghost(id_dom)»);
«        assert(w.nodes =~= old(w).nodes.insert(id_dom, Made::Text(computed.now().shown())));»

        text_node.subscriptions.push(client);
        text_node
    }
//@end
//@item impl DomText :: fn id_dom
    pub fn id_dom(&self) -> «(r:» DomId«)
        ensures r == self.id_dom,»
    {
        self.id_dom
    }
//@end
//@item impl Drop for DomText :: fn drop
    fn drop(&mut self«, w: &mut World»)
«        requires old(w).nodes.contains_key(old(self).id_dom) ==> old(w).nodes[old(self).id_dom] is Text,
        ensures removed(*old(w), *final(w), old(self).id_dom),»
    {
        ⟦self.driver.inner.dom⇒w⟧.remove_text(self.id_dom);
    }
//@end
}

//@file crates/vertigo/src/dom/dom_element.rs
// the children of an element stand in it, in the order in which they were added
spec fn holds(e: DomElement, w: World) -> bool { (w.kids)(e.id_dom) == nids(e.child_node@) }
impl DomElement {
//@item impl DomElement :: fn new
    pub fn new(name: ⟦impl Into<StaticString>⇒StaticString⟧«, w: &mut World») -> «(r:» Self«)
        ensures
            created(*old(w), *final(w), r.id_dom, Made::Element(name@)), holds(r, *final(w)),
            r.child_node@.len() == 0, r.subscriptions@.len() == 0, r.class_manager.of() == r.id_dom,»
    {
        let name = name⟦.into()⇒⟧;
        let id_dom = ⟦DomId::from_name⇒w.new_id_for⟧(name.as_str());

        ⟦let driver = get_driver();⇒⟧

        ⟦driver.inner.dom⇒w⟧.create_node(id_dom, name);

        let class_manager = ⟦DomElementClassMerge::new(driver, id_dom)⇒ClassManager::new(id_dom)⟧;
«        assert(nids(Seq::<DomNode>::empty()) =~= Seq::<DomId>::empty());»

        Self {
            ⟦driver,⇒⟧
            id_dom,
            child_node: VecDequeMut::new(),
            subscriptions: VecMut::new(),
            class_manager,
        }
    }
//@end
//@item impl DomElement :: fn id_dom
    pub fn id_dom(&self) -> «(r:» DomId«)
        ensures r == self.id_dom,»
    {
        self.id_dom
    }
//@end
//@item impl DomElement :: fn add_child
    pub fn add_child(⟦&self⇒&mut self⟧, child_node: ⟦impl Into<DomNode>⇒DomNode⟧«, w: &mut World»)
«        ensures extended(*old(self), *final(self), *old(w), *final(w), child_node),»
    {
        let child_node = child_node⟦.into()⇒⟧;

        let child_id = child_node.id_dom();
        ⟦self.driver
            .inner
            .dom⇒w⟧
            .insert_before(self.id_dom, child_id, None);

        self.child_node.push(child_node);
«        proof {
            assert(nids(self.child_node@) =~= nids(old(self).child_node@).push(child_id));
            if !nids(old(self).child_node@).contains(child_id) { lemma_put_new(nids(old(self).child_node@), child_id); }
        }»
    }
//@end
//@item impl DomElement :: fn child
    pub fn child(self, child_node: ⟦impl Into<DomNode>⇒DomNode⟧«, w: &mut World») -> «(r:» Self«)
        ensures extended(self, r, *old(w), *final(w), child_node),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.add_child(child_node«, w»);
        ⟦self⇒this⟧
    }
//@end
//@item impl DomElement :: fn add_child_text
    pub fn add_child_text(⟦&self⇒&mut self⟧, text: ⟦impl Into<String>⇒String⟧«, w: &mut World»)
«        requires old(w).used.contains(old(self).id_dom), known(*old(self), *old(w)),
        ensures exists|t: DomText| #[trigger] texted(*old(self), *final(self), *old(w), *final(w), text@, t),»
    {
        let text = text⟦.into()⇒⟧;
        ⟦self.add_child(DomNode::Text {
            node: DomText::new(text),
        });⇒let node = DomText::new(text, w);
        let ghost t = node; let ghost w1 = *w;
        self.add_child(DomNode::Text { node }, w);
        proof {
            assert(!nids(old(self).child_node@).contains(t.id_dom));
            assert(texted(*old(self), *self, *old(w), *w, text@, t));
        }⟧
    }
//@end
//@item impl DomElement :: fn child_text
    pub fn child_text(self, text: ⟦impl Into<String>⇒String⟧«, w: &mut World») -> «(r:» Self«)
        requires old(w).used.contains(self.id_dom), known(self, *old(w)),
        ensures exists|t: DomText| #[trigger] texted(self, r, *old(w), *final(w), text@, t),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.add_child_text(text«, w»);
        ⟦self⇒this⟧
    }
//@end
//@item impl DomElement :: fn children
    pub fn children⟦<C: Into<DomNode>>⇒⟧(self, children: Vec<⟦C⇒DomNode⟧>«, w: &mut World») -> «(r:» Self«)
        ensures
            r.child_node@ == self.child_node@ + children@, same_rest(self, r), w_same(*old(w), *final(w)),
            holds(self, *old(w)) && nids(self.child_node@ + children@).no_duplicates() ==> holds(r, *final(w)),»
    {
«        let mut this = self; let ghost all = children@;»
        for child_node in «it:» children⟦.into_iter()⇒⟧
«            invariant
                it.seq() == all, same_rest(self, this), w_same(*old(w), *w),
                this.child_node@ =~= self.child_node@ + all.take(it.index@ as int),
                holds(self, *old(w)) && nids(self.child_node@ + all).no_duplicates() ==> holds(this, *w),»
        {
«            let ghost before = this.child_node@;
            proof {
                let i = it.index@ as int;
                let n = nids(self.child_node@ + all);
                assert(nids(before) =~= n.take(before.len() as int));
                assert(n[before.len() as int] == nid(all[i]));
                if n.no_duplicates() && nids(before).contains(nid(all[i])) {
                    let k = choose|k: int| 0 <= k < before.len() && nids(before)[k] == nid(all[i]);
                    assert(n[k] == n[before.len() as int]);
                }
                assert(all.take(i + 1) =~= all.take(i).push(all[i]));
            }»
            ⟦self⇒this⟧.add_child(child_node«, w»)
        }
«        assert(all.take(all.len() as int) =~= all);»
        ⟦self⇒this⟧
    }
//@end
//@item impl Drop for DomElement :: fn drop
    fn drop(&mut self«, w: &mut World»)
«        requires old(w).nodes.contains_key(old(self).id_dom) ==> old(w).nodes[old(self).id_dom] is Element,
        ensures removed(*old(w), *final(w), old(self).id_dom),»
    {
        ⟦self.driver.inner.dom⇒w⟧.remove_node(self.id_dom);
    }
//@end
}
spec fn same_rest(a: DomElement, b: DomElement) -> bool { b.id_dom == a.id_dom && b.subscriptions == a.subscriptions && b.class_manager == a.class_manager }
spec fn w_same(a: World, b: World) -> bool { b.nodes == a.nodes && b.used == a.used }
// the numbers of the children are in use
spec fn known(e: DomElement, w: World) -> bool { forall|i: int| 0 <= i < e.child_node@.len() ==> w.used.contains(#[trigger] nids(e.child_node@)[i]) }
// a child is added behind the others
spec fn extended(a: DomElement, b: DomElement, v: World, w: World, child: DomNode) -> bool {
    &&& placed(v, w, a.id_dom, nid(child), None) && w_same(v, w)
    &&& b.child_node@ == a.child_node@.push(child) && same_rest(a, b)
    &&& holds(a, v) && !nids(a.child_node@).contains(nid(child)) ==> holds(b, w)
}
spec fn texted(a: DomElement, b: DomElement, v: World, w: World, text: Seq<char>, t: DomText) -> bool {
    &&& b.child_node@ == a.child_node@.push(DomNode::Text { node: t }) && same_rest(a, b)
    &&& !v.used.contains(t.id_dom) && w.nodes == v.nodes.insert(t.id_dom, Made::Text(text)) && t.subscriptions@.len() == 0
    &&& holds(a, v) ==> holds(b, w)
}

//@file crates/vertigo/src/dom/dom_comment.rs
impl DomComment {
//@item impl DomComment :: fn new
    pub fn new(text: ⟦impl Into<String>⇒String⟧«, w: &mut World») -> ⟦DomComment⇒(r: DomComment)⟧
«        ensures created(*old(w), *final(w), r.id_dom, Made::Comment(text@)), r.subscriptions@.len() == 0,»
    {
        let text = text⟦.into()⇒⟧;
        ⟦let driver = get_driver();⇒⟧
        let id_dom = ⟦DomId::default()⇒w.new_id()⟧;

        ⟦driver.inner.dom⇒w⟧.create_comment(id_dom, ⟦text⇒&text⟧);

        DomComment {
            ⟦driver,⇒⟧
            id_dom,
            subscriptions: VecMut::new(),
        }
    }
//@end
//@item impl DomComment :: fn new_marker
    pub fn new_marker<F: Fn(DomId, DomId«, &mut World») -> Option<DropResource>⟦ + 'static⇒⟧>(
        comment_value: &'static str,
        mount: F,
«        w: &mut World,»
    ) -> ⟦DomComment⇒(r: DomComment)⟧
«        requires forall|p: DomId, id: DomId, s: &mut World| marked(*s, p, id) ==> #[trigger] call_requires(mount, (p, id, s)),
        ensures
            created(*old(w), *final(w), r.id_dom, Made::Comment(comment_value@)),
            r.subscriptions@.len() == 1, r.subscriptions@[0].does@ == Does::Parent(r.id_dom),»
    {
        ⟦let driver = get_driver();⇒⟧
        let id_comment = ⟦DomId::default()⇒w.new_id()⟧;
«        let m: Ghost<F> = Ghost(mount);»

        let when_mount = {
            let current_client: ValueMut<Option<DropResource>> = ValueMut::new(None);

            move |parent_id«: DomId, current_client: &mut ValueMut<Option<DropResource>>, w: &mut World»|
«                requires marked(*old(w), parent_id, id_comment), ensures mounted(m@, parent_id, id_comment, *old(w), *final(w), final(current_client)@),»
            {
                let client = mount(parent_id, id_comment«, w»);
«                assert(mounted(m@, parent_id, id_comment, *old(w), *w, client));»

                current_client.change(|current«: &mut Option<DropResource>»| «ensures *final(current) == client,» {
                    *current = client;
                });
            }
        };

        let drop_callback = ⟦driver.inner.dom⇒w⟧.node_parent(id_comment, when_mount«, m»);

        let ⟦subscriptions⇒mut subscriptions⟧ = VecMut::new();

        subscriptions.push(drop_callback);

        ⟦driver.inner.dom⇒w⟧.create_comment(id_comment, comment_value);

        DomComment {
            ⟦driver,⇒⟧
            id_dom: id_comment,
            subscriptions,
        }
    }
//@end
//@item impl DomComment :: fn id_dom
    pub fn id_dom(&self) -> «(r:» DomId«)
        ensures r == self.id_dom,»
    {
        self.id_dom
    }
//@end
//@item impl DomComment :: fn add_subscription
    pub fn add_subscription(⟦&self⇒&mut self⟧, client: DropResource)
«        ensures final(self).subscriptions@ == old(self).subscriptions@.push(client), final(self).id_dom == old(self).id_dom,»
    {
        self.subscriptions.push(client);
    }
//@end
//@item impl Drop for DomComment :: fn drop
    fn drop(&mut self«, w: &mut World»)
«        requires old(w).nodes.contains_key(old(self).id_dom) ==> old(w).nodes[old(self).id_dom] is Comment,
        ensures removed(*old(w), *final(w), old(self).id_dom),»
    {
        ⟦self.driver.inner.dom⇒w⟧.remove_comment(self.id_dom);
    }
//@end
}

// ---- a value that is rendered --------------------------------------------------------------------------------------------------
proof fn lemma_ins(a: Seq<DomId>, x: DomId, m: DomId, b: Seq<DomId>)
    requires !a.contains(m),
    ensures ins(a + seq![m] + b, x, m) == a + seq![x] + seq![m] + b,
    decreases a.len(),
{
    let s = a + seq![m] + b;
    if a.len() == 0 {
        assert(s[0] == m);
        assert(seq![x] + s =~= a + seq![x] + seq![m] + b);
    } else {
        assert(a.contains(a[0]));
        assert(s[0] == a[0]);
        assert forall|y: DomId| #[trigger] a.skip(1).contains(y) implies a.contains(y) by {
            let k = choose|k: int| 0 <= k < a.skip(1).len() && a.skip(1)[k] == y;
            assert(a[k + 1] == y);
        }
        lemma_ins(a.skip(1), x, m, b);
        assert(s.skip(1) =~= a.skip(1) + seq![m] + b);
        assert(seq![a[0]] + (a.skip(1) + seq![x] + seq![m] + b) =~= a + seq![x] + seq![m] + b);
    }
}
proof fn lemma_rid(a: Seq<DomId>, c: DomId, b: Seq<DomId>)
    requires !a.contains(c), !b.contains(c),
    ensures rid(a + seq![c] + b, c) == a + b,
{
    let f = other(c);
    Seq::<DomId>::filter_distributes_over_add(a + seq![c], b, f);
    Seq::<DomId>::filter_distributes_over_add(a, seq![c], f);
    lemma_put_new(a, c);
    lemma_put_new(b, c);
    reveal(Seq::filter);
    assert(seq![c].drop_last() =~= Seq::<DomId>::empty());
    assert(seq![c].drop_last().filter(f) =~= Seq::<DomId>::empty());
    assert(seq![c].last() == c);
    assert(seq![c].filter(f) =~= Seq::<DomId>::empty());
    assert(a + Seq::<DomId>::empty() =~= a);
}
proof fn lemma_slot(a: World, b: World, c: World, p: DomId, m: DomId, was: Option<DomNode>, n: DomNode, pre: Seq<DomId>, post: Seq<DomId>)
    requires
        slot(a, p, m, was, pre, post), rendered(a, b, Some(n)), a.used.contains(p), placed(b, c, p, nid(n), Some(m)), c.used == b.used,
    ensures
        (c.kids)(p) == pre + one(was) + seq![nid(n)] + seq![m] + post,
        (c.kids)(p).no_duplicates(),
        forall|d: DomId| #[trigger] (c.kids)(p).contains(d) ==> c.used.contains(d),
{
    let s = (a.kids)(p); let x = nid(n);
    assert(!s.contains(x));
    lemma_put(pre + one(was), x, m, post);
    let t = pre + one(was) + seq![x] + seq![m] + post;
    assert((c.kids)(p) == t);
    assert forall|d: DomId| #[trigger] t.contains(d) implies c.used.contains(d) by {
        if d != x { assert(s.contains(d)); assert(a.used.contains(d)); }
    }
}
proof fn lemma_put(front: Seq<DomId>, x: DomId, m: DomId, post: Seq<DomId>)
    requires (front + seq![m] + post).no_duplicates(), !(front + seq![m] + post).contains(x),
    ensures
        put(front + seq![m] + post, x, Some(m)) == front + seq![x] + seq![m] + post,
        (front + seq![x] + seq![m] + post).no_duplicates(),
        forall|d: DomId| #[trigger] (front + seq![x] + seq![m] + post).contains(d) ==> d == x || (front + seq![m] + post).contains(d),
{
    hide(ins);
    hide(rid);
    let s = front + seq![m] + post; let back = seq![m] + post;
    assert(front + back =~= s);
    assert(front + seq![x] + back =~= front + seq![x] + seq![m] + post);
    assert(put(s, x, Some(m)) == front + seq![x] + seq![m] + post) by {
        lemma_put_new(s, x);
        lemma_front(front, m, post);
        lemma_ins(front, x, m, post);
    }
    lemma_fresh_in(front, x, back);
}
proof fn lemma_front(front: Seq<DomId>, m: DomId, post: Seq<DomId>)
    requires (front + seq![m] + post).no_duplicates(),
    ensures !front.contains(m),
{
    let s = front + seq![m] + post;
    assert(s[front.len() as int] == m);
    if front.contains(m) {
        let k = choose|k: int| 0 <= k < front.len() && front[k] == m;
        assert(s[k] == m);
    }
}
proof fn lemma_fresh_in(a: Seq<DomId>, x: DomId, b: Seq<DomId>)
    requires (a + b).no_duplicates(), !(a + b).contains(x),
    ensures
        (a + seq![x] + b).no_duplicates(),
        forall|d: DomId| #[trigger] (a + seq![x] + b).contains(d) ==> d == x || (a + b).contains(d),
{
    let (s, t, f) = (a + b, a + seq![x] + b, a.len() as int);
    let u = |k: int| if k < f { k } else { k - 1 };
    assert forall|k: int| 0 <= k < t.len() && k != f implies #[trigger] t[k] == s[u(k)] && s.contains(t[k]) by { }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i != f { assert(t[i] == s[u(i)]); }
        if j != f { assert(t[j] == s[u(j)]); }
    }
}
// what was shown before is taken away
proof fn lemma_slot_gone(b: World, c: World, p: DomId, m: DomId, was: Option<DomNode>, now: Option<DomNode>, pre: Seq<DomId>, post: Seq<DomId>)
    requires
        (b.kids)(p) == pre + one(was) + one(now) + seq![m] + post, (b.kids)(p).no_duplicates(),
        forall|d: DomId| #[trigger] (b.kids)(p).contains(d) ==> b.used.contains(d),
        (c.kids)(p) == (match was { Some(n) => rid((b.kids)(p), nid(n)), None => (b.kids)(p) }), c.used == b.used,
    ensures slot(c, p, m, now, pre, post),
{
    let s = (b.kids)(p); let t = pre + one(now) + seq![m] + post;
    if let Some(n) = was {
        let x = nid(n); let back = one(now) + seq![m] + post;
        assert(s =~= pre + seq![x] + back);
        let k = pre.len() as int;
        assert(s[k] == x);
        assert(!pre.contains(x)) by { if pre.contains(x) { let i = choose|i: int| 0 <= i < pre.len() && pre[i] == x; assert(s[i] == x); } }
        assert(!back.contains(x)) by { if back.contains(x) { let i = choose|i: int| 0 <= i < back.len() && back[i] == x; assert(s[k + 1 + i] == x); } }
        lemma_rid(pre, x, back);
        assert(pre + back =~= t);
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
            assert(t[i] == s[if i < k { i } else { i + 1 }]);
            assert(t[j] == s[if j < k { j } else { j + 1 }]);
        }
        assert forall|d: DomId| #[trigger] t.contains(d) implies c.used.contains(d) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == d;
            let q = if i < k { i } else { i + 1 };
            assert(s[q] == d); assert(s.contains(s[q]));
        }
    } else {
        assert(s =~= t);
    }
}
//@file crates/vertigo/src/render/dom_value.rs
//@item fn render_value_option
pub fn render_value_option<T⟦: Clone + PartialEq + 'static⇒, R: Fn(T, &mut World) -> Option<DomNode>⟧>(
    computed: Computed<T>,
    render: ⟦impl Fn(T) -> Option<DomNode> + 'static⇒R⟧,
«    w: &mut World,»
) -> ⟦DomNode⇒(r: DomNode)⟧
«    requires renders(render),
    ensures created(*old(w), *final(w), nid(r), Made::Comment("value element"@)), r is Comment,»
{
«    let r: Ghost<R> = Ghost(render);»
    let render = Rc::new(render);

    ⟦DomComment::new_marker⇒let marker = DomComment::new_marker⟧("value element", move |parent_id«: DomId», comment_id«: DomId, w: &mut World»| «-> (o: Option<DropResource>)
        requires marked(*old(w), parent_id, comment_id), renders(r@),
        ensures
            // what was rendered is shown before the marker, and every new value replaces it
            o is Some && o->0.of@ == computed.what() && o->0.does@ == Does::Value(parent_id, comment_id),
            exists|n: Option<DomNode>| #[trigger] from(r@, computed.now(), n) && shown_instead(*old(w), *final(w), parent_id, comment_id, None, n),»
    {
        let ⟦current_node⇒mut current_node⟧: ValueMut<Option<DomNode>> = ValueMut::new(None);

        ⟦Some(computed.clone().subscribe({⇒Some(computed.clone().subscribe_node({⟧
            let render = render.clone();

            move |value«: T, current_node: &mut ValueMut<Option<DomNode>>, w: &mut World»|
«                requires marked(*old(w), parent_id, comment_id), ensures shown_instead(*old(w), *final(w), parent_id, comment_id, old(current_node)@, final(current_node)@), from(r@, value, final(current_node)@),»
            {
«                let ghost (w0, was) = (*w, current_node@);»
                let new_element = ⟦render(value).inspect(|new_element| {
                    get_driver().inner.dom.insert_before(⇒render(value, w);
                let ghost w1 = *w;
                if let Some(new_element) = &new_element {
                    w.insert_before(⟧
                        parent_id,
                        new_element.id_dom(),
                        Some(comment_id),
                    );
                ⟦});⇒}⟧
«                let ghost w2 = *w;»

                current_node.change(|current«: &mut Option<DomNode>»| «ensures *final(current) == new_element,» {
                    *current = new_element;
                });
«                w.dropped(Ghost(was), Ghost(parent_id));
                proof {
                    let now = current_node@;
                    assert forall|pre: Seq<DomId>, post: Seq<DomId>| #[trigger] slot(w0, parent_id, comment_id, was, pre, post) implies slot(*w, parent_id, comment_id, now, pre, post) by {
                        if let Some(n) = now {
                            lemma_slot(w0, w1, w2, parent_id, comment_id, was, n, pre, post);
                            assert(one(now) =~= seq![nid(n)]);
                        } else {
                            assert(pre + one(was) + one(now) =~= pre + one(was));
                        }
                        lemma_slot_gone(w2, *w, parent_id, comment_id, was, now, pre, post);
                    }
                }»
            }
        }«, &mut current_node, w, Ghost(parent_id), Ghost(comment_id), r»))
    }«, w»)⟦
    .into()⇒; DomNode::Comment { node: marker }⟧
}
//@end
//@item fn render_value
pub fn render_value<T⟦: Clone + PartialEq + 'static⇒, R: Fn(T, &mut World) -> DomNode⟧>(
    computed: Computed<T>,
    render: ⟦impl Fn(T) -> DomNode + 'static⇒R⟧,
«    w: &mut World,»
) -> ⟦DomNode⇒(r: DomNode)⟧
«    requires
        forall|v: T, s: &mut World| #[trigger] call_requires(render, (v, s)),
        forall|v: T, s: &mut World, n: DomNode| #[trigger] call_ensures(render, (v, s), n) ==> rendered(*s, *final(s), Some(n)),
    ensures created(*old(w), *final(w), nid(r), Made::Comment("value element"@)), r is Comment,»
{
«    let r: Ghost<R> = Ghost(render);»
    render_value_option(computed, move |value«: T, w: &mut World»| -> ⟦Option<DomNode>⇒(o: Option<DomNode>)
        requires forall|v: T, s: &mut World| #[trigger] call_requires(r@, (v, s)), forall|v: T, s: &mut World, n: DomNode| #[trigger] call_ensures(r@, (v, s), n) ==> rendered(*s, *final(s), Some(n)),
        ensures o is Some, rendered(*old(w), *final(w), o), exists|s: &mut World| #[trigger] call_ensures(r@, (value, s), o->0),⟧ {
        Some(render(value«, w»))
    }«, w»)
}
//@end
} // verus!
fn main() {}
