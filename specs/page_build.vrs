#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::VecDeque;
//@include std_extra.inc

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key, vda::axiom_vec_deque_decreases};

// the items of a VecDeque are part of it (as vstd says for Vec)
mod vda {
    use super::*;
    pub broadcast axiom fn axiom_vec_deque_decreases<T>(v: VecDeque<T>, i: int)
        requires 0 <= i < v@.len(),
        ensures #[trigger] (decreases_to!(v => v@[i]));
}
//@include strings.inc
//@include ordered_map.inc

pub type Attrs = Seq<(Seq<char>, Seq<char>)>;
// trees, as in html_tree.inc (C06)
pub enum N {
    El { name: Seq<char>, attrs: Attrs, kids: Seq<N> },
    Tx(Seq<char>),
    Co(Seq<char>),
}

//@file crates/vertigo-cli/src/serve/html/html_element.rs
//@item enum HtmlNode
pub enum HtmlNode {
    Element(HtmlElement),
    Text(String),
    Comment(String),
}
//@end
//@item struct HtmlElement
pub struct HtmlElement {
    pub name: String,
    pub attr: OrderedMap,
    pub children: VecDeque<HtmlNode>,
}
//@end
//@item struct HtmlDocument
pub struct HtmlDocument {
    pub root: HtmlNode,
}
//@end
spec fn av(m: OrderedMap) -> Attrs { Seq::new(m.keys().len(), |i: int| (m.keys()[i]@, m.vals()[m.keys()[i]]@)) }
spec fn nv(h: HtmlNode) -> N
    decreases h,
{
    match h {
        HtmlNode::Element(e) => N::El {
            name: e.name@, attrs: av(e.attr),
            kids: Seq::new(e.children@.len(), |i: int| if 0 <= i < e.children@.len() { nv(e.children@[i]) } else { N::Co(Seq::empty()) }),
        },
        HtmlNode::Text(t) => N::Tx(t@),
        HtmlNode::Comment(t) => N::Co(t@),
    }
}
spec fn ne(e: HtmlElement) -> N { N::El { name: e.name@, attrs: av(e.attr), kids: nvs(e.children@) } }
spec fn nvs(s: Seq<HtmlNode>) -> Seq<N> { s.map_values(|h: HtmlNode| nv(h)) }
spec fn mw(h: HtmlNode) -> bool
    decreases h,
{
    match h {
        HtmlNode::Element(e) => e.attr.wf() && forall|i: int| 0 <= i < e.children@.len() ==> mw(#[trigger] e.children@[i]),
        _ => true,
    }
}
proof fn lemma_nv(e: HtmlElement)
    ensures nv(HtmlNode::Element(e)) == ne(e),
{
    assert(nv(HtmlNode::Element(e))->kids =~= nvs(e.children@));
}
proof fn lemma_nvs_push(s: Seq<HtmlNode>, h: HtmlNode)
    ensures nvs(s.push(h)) == nvs(s).push(nv(h)), nvs(seq![h] + s) == seq![nv(h)] + nvs(s),
{
    assert(nvs(s.push(h)) =~= nvs(s).push(nv(h)));
    assert(nvs(seq![h] + s) =~= seq![nv(h)] + nvs(s));
}
proof fn lemma_nvs_update(s: Seq<HtmlNode>, i: int, h: HtmlNode)
    requires 0 <= i < s.len(),
    ensures nvs(s.update(i, h)) == nvs(s).update(i, nv(h)),
{
    assert(nvs(s.update(i, h)) =~= nvs(s).update(i, nv(h)));
}

// ---- setting an attribute: the new value, in the last place ------------------------------------------------------------------
spec fn not_named(k: Seq<char>) -> spec_fn((Seq<char>, Seq<char>)) -> bool { |p: (Seq<char>, Seq<char>)| p.0 != k }
spec fn with_attr(a: Attrs, k: Seq<char>, v: Seq<char>) -> Attrs { a.filter(not_named(k)).push((k, v)) }
spec fn pairs(keys: Seq<String>, vals: Map<String, String>) -> Attrs { Seq::new(keys.len(), |i: int| (keys[i]@, vals[keys[i]]@)) }
proof fn lemma_pairs_without(keys: Seq<String>, vals: Map<String, String>, k: String)
    ensures pairs(without(keys, k), vals) == pairs(keys, vals).filter(not_named(k@)),
    decreases keys.len(),
{
    reveal(Seq::filter);
    if keys.len() > 0 {
        let t = keys.drop_last();
        let l = keys.last();
        lemma_pairs_without(t, vals, k);
        assert(pairs(keys, vals) =~= pairs(t, vals).push((l@, vals[l]@)));
        Seq::lemma_filter_push(pairs(t, vals), (l@, vals[l]@), not_named(k@));
        assert(keys =~= t.push(l));
        Seq::lemma_filter_push(t, l, isnt(k));
        if l@ == k@ { lemma_st(l, k); }
        assert(pairs(without(t, k).push(l), vals) =~= pairs(without(t, k), vals).push((l@, vals[l]@)));
    } else {
        assert(pairs(without(keys, k), vals) =~= pairs(keys, vals).filter(not_named(k@)));
    }
}
proof fn lemma_set(m0: OrderedMap, m1: OrderedMap, k: String, v: String)
    requires
        m0.wf(), m1.keys() == without(m0.keys(), k).push(k), m1.vals() == m0.vals().insert(k, v),
    ensures av(m1) == with_attr(av(m0), k@, v@),
{
    let w = without(m0.keys(), k);
    lemma_without(m0.keys(), k);
    lemma_pairs_without(m0.keys(), m0.vals(), k);
    assert(av(m0) =~= pairs(m0.keys(), m0.vals()));
    assert forall|i: int| 0 <= i < w.len() implies m1.vals()[#[trigger] w[i]] == m0.vals()[w[i]] by { assert(w.contains(w[i])); }
    assert(av(m1) =~= pairs(w, m0.vals()).push((k@, v@)));
}

// ---- changing one element below another ---------------------------------------------------------------------------------------
spec fn named(h: HtmlNode, tag: Seq<char>) -> bool { h matches HtmlNode::Element(e) && e.name@ == tag }
spec fn count(s: Seq<HtmlNode>, tag: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count(s.drop_last(), tag) + if named(s.last(), tag) { 1nat } else { 0 } }
}
// child i is the n-th of its name, from 0
spec fn is_nth(s: Seq<HtmlNode>, tag: Seq<char>, n: nat, i: int) -> bool { 0 <= i < s.len() && named(s[i], tag) && count(s.take(i), tag) == n }
proof fn lemma_count(s: Seq<HtmlNode>, tag: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures count(s.take(i), tag) <= count(s.take(j), tag) <= count(s.take(i), tag) + j - i,
    decreases j - i,
{
    if i < j {
        lemma_count(s, tag, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
    }
}
proof fn lemma_step(s: Seq<HtmlNode>, tag: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures count(s.take(i + 1), tag) == count(s.take(i), tag) + if named(s[i], tag) { 1nat } else { 0 },
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
proof fn lemma_nth_unique(s: Seq<HtmlNode>, tag: Seq<char>, n: nat, i: int, j: int)
    requires is_nth(s, tag, n, i), is_nth(s, tag, n, j),
    ensures i == j,
{
    if i < j { lemma_step(s, tag, i); lemma_count(s, tag, i + 1, j); }
    if j < i { lemma_step(s, tag, j); lemma_count(s, tag, j + 1, i); }
}
#[verifier::prophetic]
spec fn did<F: FnOnce(&mut HtmlElement)>(f: F, a: HtmlElement, b: HtmlElement) -> bool {
    exists|r: &mut HtmlElement| *r == a && *final(r) == b && #[trigger] f.ensures((r,), ())
}
spec fn same_but_kids(a: HtmlElement, b: HtmlElement) -> bool { a.name == b.name && a.attr == b.attr }
// f was applied at the end of the path, all else as it was; or there is no such element, and nothing changed
#[verifier::prophetic]
spec fn applied<F: FnOnce(&mut HtmlElement)>(a: HtmlElement, path: Seq<(&str, usize)>, f: F, b: HtmlElement, r: bool) -> bool
    decreases path.len(),
{
    if path.len() == 0 {
        r && did(f, a, b)
    } else {
        same_but_kids(a, b) && {
            ||| exists|i: int| #[trigger] is_nth(a.children@, path[0].0@, path[0].1 as nat, i)
                && b.children@.len() == a.children@.len() && b.children@ == a.children@.update(i, b.children@[i])
                && b.children@[i] is Element
                && applied(a.children@[i]->Element_0, path.skip(1), f, b.children@[i]->Element_0, r)
            ||| !r && b.children@ == a.children@ && forall|i: int| !#[trigger] is_nth(a.children@, path[0].0@, path[0].1 as nat, i)
        }
    }
}
// a path of one step
#[verifier::prophetic]
spec fn applied_one<F: FnOnce(&mut HtmlElement)>(a: HtmlElement, tag: Seq<char>, f: F, b: HtmlElement, r: bool) -> bool {
    same_but_kids(a, b) && {
        ||| exists|i: int| #[trigger] is_nth(a.children@, tag, 0, i) && r
            && b.children@.len() == a.children@.len() && b.children@ == a.children@.update(i, b.children@[i])
            && b.children@[i] is Element && did(f, a.children@[i]->Element_0, b.children@[i]->Element_0)
        ||| !r && b.children@ == a.children@ && forall|i: int| !#[trigger] is_nth(a.children@, tag, 0, i)
    }
}
proof fn lemma_one<F: FnOnce(&mut HtmlElement)>(a: HtmlElement, path: Seq<(&str, usize)>, f: F, b: HtmlElement, r: bool)
    requires applied(a, path, f, b, r), path.len() == 1, path[0].1 == 0,
    ensures applied_one(a, path[0].0@, f, b, r),
{
    reveal_with_fuel(applied, 3);
}
// slice.split_first()
#[verifier::external_body]
fn vx_split_first<'a, 'b>(s: &'a [(&'b str, usize)]) -> (r: Option<(&'a (&'b str, usize), &'a [(&'b str, usize)])>)
    ensures s@.len() > 0 ==> r is Some && *(r->0).0 == s@[0] && (r->0).1@ == s@.skip(1),
{ s.split_first() }
// the next item of iter_mut()
#[verifier::external_body]
fn vx_at(v: &mut VecDeque<HtmlNode>, i: usize) -> (r: &mut HtmlNode)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ &mut v[i] }
impl HtmlNode {
//@item impl HtmlNode :: fn get_element
    pub fn get_element(&mut self) -> «(r:» Option<&mut HtmlElement> «)
        ensures match r {
            Some(e) => *old(self) is Element && *e == old(self)->Element_0 && *final(self) == HtmlNode::Element(*final(e)),
            None => !(*old(self) is Element) && *final(self) == *old(self),
        },»
    {
        match self {
            Self::Element(element) => Some(element),
            _ => None,
        }
    }
//@end
//@item impl HtmlNode :: fn modify
    pub fn modify⟦(⇒<F: FnOnce(&mut HtmlElement)>(⟧
        &mut self,
        path: &[(&str, usize)],
        callback: ⟦impl FnOnce(&mut HtmlElement)⇒F⟧,
    ) -> «(r:» bool «)
        requires forall|e: &mut HtmlElement| e.attr.wf() ==> #[trigger] callback.requires((e,)), mw(*old(self)),
        ensures
            match *old(self) {
                HtmlNode::Element(e) => *final(self) is Element && applied(e, path@, callback, final(self)->Element_0, r)
                    && (path@.len() == 1 && path@[0].1 == 0 ==> applied_one(e, path@[0].0@, callback, final(self)->Element_0, r)),
                _ => !r && *final(self) == *old(self),
            },»
    {
«        let ghost cb = callback;»
        match self {
            Self::Element(element) => «{
                let ghost e0 = *element;
                let r = »element.modify(path, callback)«;
                proof { if path@.len() == 1 && path@[0].1 == 0 { lemma_one(e0, path@, cb, *element, r); } }
                r
            }»,
            _ => false,
        }
    }
//@end
//@item impl From for HtmlNode :: fn from
    fn from(value: HtmlElement) -> «(r:» Self «)
        ensures r == HtmlNode::Element(value),»
    {
        HtmlNode::Element(value)
    }
//@end
}
impl HtmlElement {
//@item impl HtmlElement :: fn new
    pub fn new(name: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.name == name, av(r.attr) == Attrs::empty(), r.attr.wf(), r.children@.len() == 0,»
    {
        let name = name⟦.into()⇒⟧;

⟦        HtmlElement {⇒let r = HtmlElement {⟧
            name,
            attr: OrderedMap::new(),
            children: VecDeque::new(),
        }«;
        proof { assert(av(r.attr) =~= Attrs::empty()); }
        r»
    }
//@end
//@item impl HtmlElement :: fn attr
    pub fn attr(⟦mut self⇒self⟧, name: ⟦impl Into<String>⇒String⟧, value: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        requires self.attr.wf(),
        ensures
            r.name == self.name, r.children == self.children, r.attr.wf(),
            av(r.attr) == with_attr(av(self.attr), name@, value@),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.attr.set(name, value);
«        proof { lemma_set(self.attr, this.attr, name, value); }»
        ⟦self⇒this⟧
    }
//@end
//@item impl HtmlElement :: fn add_attr
    pub fn add_attr(&mut self, name: ⟦impl Into<String>⇒String⟧, value: ⟦impl Into<String>⇒String⟧)
«        requires old(self).attr.wf(),
        ensures
            final(self).name == old(self).name, final(self).children == old(self).children, final(self).attr.wf(),
            av(final(self).attr) == with_attr(av(old(self).attr), name@, value@),»
    {
        self.attr.set(name, value);
«        proof { lemma_set(old(self).attr, self.attr, name, value); }»
    }
//@end
//@item impl HtmlElement :: fn add_first_child
    pub fn add_first_child(&mut self, child: HtmlNode)
«        ensures
            final(self).name == old(self).name, final(self).attr == old(self).attr,
            final(self).children@ == seq![child] + old(self).children@,»
    {
        self.children.push_front(child);
    }
//@end
//@item impl HtmlElement :: fn add_last_child
    pub fn add_last_child(&mut self, child: ⟦impl Into<HtmlNode>⇒HtmlElement⟧)
«        ensures
            final(self).name == old(self).name, final(self).attr == old(self).attr,
            final(self).children@ == old(self).children@.push(HtmlNode::Element(child)),»
    {
        let child = ⟦child.into()⇒HtmlNode::from(child)⟧;
        self.children.push_back(child);
    }
//@end
//@item impl HtmlElement :: fn modify
    fn modify⟦(⇒<F: FnOnce(&mut HtmlElement)>(⟧&mut self, path: &[(&str, usize)], callback: ⟦impl FnOnce(&mut HtmlElement)⇒F⟧) -> «(r:» bool «)
        requires forall|e: &mut HtmlElement| e.attr.wf() ==> #[trigger] callback.requires((e,)), mw(HtmlNode::Element(*old(self))),
        ensures applied(*old(self), path@, callback, *final(self), r),
        decreases path@.len(),»
    {
        if ⟦path.is_empty()⇒path.len() == 0⟧ {
            callback(self);
            return true;
        }

        if let Some(((tag_name, index), rest_path)) = ⟦path.split_first()⇒vx_split_first(path)⟧ {
            let mut current: usize = 0;

«            let ghost s = self.children@;
            let ghost me = *self;
            let ghost tag = path@[0].0@;
            let n = self.children.len();
            let mut i: usize = 0;»
            ⟦for node in self.children.iter_mut()⇒while i < n⟧
«                invariant
                    self.children@ == s, n == s.len(), i <= n, same_but_kids(*self, me), me == *old(self), s == me.children@,
                    mw(HtmlNode::Element(me)), forall|e: &mut HtmlElement| e.attr.wf() ==> #[trigger] callback.requires((e,)),
                    path@.len() > 0, *index == path@[0].1, (*tag_name)@ == tag, tag == path@[0].0@, rest_path@ == path@.skip(1),
                    current == count(s.take(i as int), tag), current <= i,
                    forall|j: int| 0 <= j < i ==> !#[trigger] is_nth(s, tag, *index as nat, j),
                decreases n - i,»
            {
«                proof { lemma_step(s, tag, i as int); lemma_count(s, tag, 0, i as int); assert(mw(s[i as int])); }»
                if let Some(element) = ⟦node⇒vx_at(&mut self.children, i)⟧.get_element() {
                    if ⟦element.name.as_str() == *tag_name⇒vx_str_eq(element.name.as_str(), *tag_name)⟧ {
                        if ⟦&current == index⇒current == *index⟧ {
«                            proof { assert(is_nth(s, tag, *index as nat, i as int)); }»
                            return element.modify(rest_path, callback);
                        }
                        current += 1;
                    }
                }
«                proof { assert(s.update(i as int, s[i as int]) =~= s); }
                i = i + 1;»
            }
«            proof { assert(s.take(0) =~= Seq::empty()); }»
        }

        false
    }
//@end
}
// ---- the answer and its parts ----------------------------------------------------------------------------------------------
enum StatusCode { OK, INTERNAL_SERVER_ERROR }
//@file crates/vertigo-cli/src/serve/response_state.rs
//@item enum ContentType
enum ContentType {
    Plain,
    Html
}
//@end
//@item struct ResponseState
struct ResponseState {
    pub status: StatusCode,
    pub content_type: ContentType,
    pub body: String,
}
//@end
#[verifier::external_body]
fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
spec fn is_error(r: ResponseState) -> bool { r.status == StatusCode::INTERNAL_SERVER_ERROR && r.content_type == ContentType::Plain }
impl ResponseState {
//@item impl ResponseState :: fn html
    pub fn html(body: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.status == StatusCode::OK, r.content_type == ContentType::Html, r.body == body,»
    {
        Self {
            status: StatusCode::OK,
            content_type: ContentType::Html,
            body: body⟦.into()⇒⟧,
        }
    }
//@end
//@item impl ResponseState :: fn plain
    pub fn plain(body: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.status == StatusCode::OK, r.content_type == ContentType::Plain, r.body == body,»
    {
        Self {
            status: StatusCode::OK,
            content_type: ContentType::Plain,
            body: body⟦.into()⇒⟧,
        }
    }
//@end
//@item impl ResponseState :: fn internal_error
    pub fn internal_error(body: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures is_error(r), r.body == body,»
    {
        Self {
            status: StatusCode::INTERNAL_SERVER_ERROR,
            content_type: ContentType::Plain,
            body: body⟦.into()⇒⟧,
        }
    }
//@end
}
//@file crates/vertigo-cli/src/serve/mount_path.rs
//@item struct MountPathConfig
struct MountPathConfig {
    public_path: String,
    dest_dir: String,
    pub run_js: String,
    pub wasm_path: String,
}
//@end

#[verifier::external_body]
struct DomCommand { _x: u8 }
#[verifier::external_body]
struct AllElements { _x: u8 }
// the tree the commands make, and the style nodes they define (C05)
uninterp spec fn tree(c: Seq<DomCommand>) -> N;
uninterp spec fn styles(c: Seq<DomCommand>) -> Seq<N>;
impl AllElements {
    uninterp spec fn view(&self) -> Seq<DomCommand>;
    #[verifier::external_body]
    fn get_response(&self, with_id: bool) -> (r: (HtmlNode, Vec<HtmlNode>))
        ensures !with_id ==> nv(r.0) == tree(self@) && nvs(r.1@) == styles(self@), mw(r.0), forall|i: int| 0 <= i < r.1@.len() ==> mw(#[trigger] r.1@[i]),
    { unimplemented!() }
}
// what is written for a tree, with or without line breaks (C06)
uninterp spec fn written(n: N, lines: bool) -> Seq<char>;
impl HtmlDocument {
//@file crates/vertigo-cli/src/serve/html/html_element.rs
//@item impl HtmlDocument :: fn new
    pub fn new(root: HtmlNode) -> «(r:» HtmlDocument «)
        ensures r.root == root,»
    {
        HtmlDocument { root }
    }
//@end
    #[verifier::external_body]
    fn convert_to_string(self, format: bool) -> (r: String)
        requires mw(self.root),
        ensures r@ == written(nv(self.root), format),
    { unimplemented!() }
}
#[verifier::external_body]
struct Sender { _x: u8 }
#[verifier::external_body]
struct Guest { _x: u8 }
#[verifier::external_body]
struct Fetches { _x: u8 }
//@file crates/vertigo-cli/src/serve/html/html_response.rs
//@item struct HtmlResponse
struct HtmlResponse {
    sender: ⟦UnboundedSender<Message>⇒Sender⟧,
    mount_path: MountPathConfig,
    inst: ⟦WasmInstance⇒Guest⟧,
    all_elements: AllElements,
    fetch: ⟦HashMap<Arc<FetchRequest>, FetchStatus>⇒Fetches⟧,
    env: HashMap<String, String>,
}
//@end

// ---- the page ------------------------------------------------------------------------------------------------------------------
spec fn env_attr(name: Seq<char>) -> Seq<char> { "data-env-"@ + name }
// the environment, name by name
spec fn with_env(a: Attrs, names: Seq<String>, env: Map<String, String>, n: int) -> Attrs
    decreases n,
{
    if n <= 0 { a } else { with_attr(with_env(a, names, env, n - 1), env_attr(names[n - 1]@), env[names[n - 1]]@) }
}
spec fn lists_all(names: Seq<String>, env: Map<String, String>) -> bool {
    names.no_duplicates() && forall|k: String| #[trigger] names.contains(k) <==> env.contains_key(k)
}
spec fn bootstrap(mount: MountPathConfig) -> N {
    N::El {
        name: "script"@,
        attrs: with_attr(with_attr(with_attr(Attrs::empty(), "type"@, "module"@), "data-vertigo-run-wasm"@, mount.wasm_path@), "src"@, mount.run_js@),
        kids: Seq::empty(),
    }
}
// the body with the styles before, and the script behind its children
spec fn full_body(b: N, css: Seq<N>, mount: MountPathConfig) -> N {
    N::El { name: b->name, attrs: b->attrs, kids: css + b->kids + seq![bootstrap(mount)] }
}
spec fn is_body(n: N) -> bool { n matches N::El { name, .. } && name == "body"@ }
// child i is the first body
spec fn first_body(kids: Seq<N>, i: int) -> bool { 0 <= i < kids.len() && is_body(kids[i]) && forall|j: int| 0 <= j < i ==> !is_body(#[trigger] kids[j]) }
spec fn page(t: N, css: Seq<N>, names: Seq<String>, env: Map<String, String>, mount: MountPathConfig, i: int) -> N {
    N::El { name: t->name, attrs: with_env(t->attrs, names, env, names.len() as int), kids: t->kids.update(i, full_body(t->kids[i], css, mount)) }
}
spec fn is_page(t: N, css: Seq<N>, mount: MountPathConfig, env: Map<String, String>, r: ResponseState) -> bool {
    if !(t is El) {
        is_error(r) && r.body@ == "Missing <html> element"@
    } else if t->name != "html"@ {
        is_error(r) && r.body@ == "Missing <html> element, found "@ + t->name + " instead"@
    } else if exists|i: int| first_body(t->kids, i) {
        &&& r.status == StatusCode::OK && r.content_type == ContentType::Html
        &&& exists|names: Seq<String>, i: int| lists_all(names, env) && first_body(t->kids, i) && r.body@ == written(#[trigger] page(t, css, names, env, mount, i), true)
    } else {
        is_error(r) && r.body@ == "Missing <body> element"@
    }
}
spec fn refs(r: Seq<(&String, &String)>, names: Seq<String>, m: Map<String, String>) -> bool {
    &&& r.len() == names.len()
    &&& forall|i: int| 0 <= i < names.len() ==> *(#[trigger] r[i]).0 == names[i] && m.contains_key(names[i]) && *r[i].1 == m[names[i]]
}
// the entries of a map in an order of its own, each once
#[verifier::external_body]
fn vx_entries(m: &HashMap<String, String>) -> (r: Vec<(&String, &String)>)
    ensures exists|names: Seq<String>| #[trigger] refs(r@, names, m@) && lists_all(names, m@),
{ m.iter().collect() }
// format!("data-env-{name}")
#[verifier::external_body]
fn vx_env_attr(name: &String) -> (r: String) ensures r@ == env_attr(name@) { format!("data-env-{name}") }
// format!("Missing <html> element, found {} instead", name)
#[verifier::external_body]
fn vx_found(name: &String) -> (r: String) ensures r@ == "Missing <html> element, found "@ + name@ + " instead"@ { unimplemented!() }
// v.into_iter().collect()
#[verifier::external_body]
fn vx_deque(v: Vec<HtmlNode>) -> (r: VecDeque<HtmlNode>) ensures r@ == v@ { v.into_iter().collect() }
// v.into_iter().rev(), in the order it goes
#[verifier::external_body]
fn vx_backwards(v: VecDeque<HtmlNode>) -> (r: Vec<HtmlNode>) ensures r@ == v@.reverse() { v.into_iter().rev().collect() }
#[verifier::external_body]
fn vx_str_ne(a: &String, b: &str) -> (r: bool) ensures r == (a@ != b@) { a != b }

proof fn lemma_bodies(kids: Seq<HtmlNode>, i: int)
    ensures first_body(nvs(kids), i) <==> is_nth(kids, "body"@, 0, i),
{
    if 0 <= i < kids.len() {
        assert(is_body(nvs(kids)[i]) <==> named(kids[i], "body"@));
        lemma_none(kids, i);
    }
}
proof fn lemma_none(kids: Seq<HtmlNode>, i: int)
    requires 0 <= i <= kids.len(),
    ensures count(kids.take(i), "body"@) == 0 <==> forall|j: int| 0 <= j < i ==> !is_body(#[trigger] nvs(kids)[j]),
    decreases i,
{
    if i > 0 {
        lemma_none(kids, i - 1);
        lemma_step(kids, "body"@, i - 1);
        assert(is_body(nvs(kids)[i - 1]) <==> named(kids[i - 1], "body"@));
    }
}
proof fn lemma_kids_wf(kids: Seq<HtmlNode>, css: Seq<HtmlNode>, n: int, b: Seq<HtmlNode>)
    requires 0 <= n <= css.len(), b == css.skip(css.len() - n) + kids,
    ensures n < css.len() ==> seq![css[css.len() - n - 1]] + b == css.skip(css.len() - n - 1) + kids,
{
    if n < css.len() {
        assert(seq![css[css.len() - n - 1]] + b =~= css.skip(css.len() - n - 1) + kids);
    }
}
// what is done to the body
spec fn dressed(a: HtmlElement, css: Seq<HtmlNode>, s: HtmlElement, b: HtmlElement) -> bool {
    same_but_kids(a, b) && b.children@ == css + a.children@.push(HtmlNode::Element(s))
}
proof fn lemma_page(a: HtmlElement, b: HtmlElement, css: Seq<HtmlNode>, s: HtmlElement, i: int, names: Seq<String>, env: Map<String, String>, mount: MountPathConfig)
    requires
        is_nth(a.children@, "body"@, 0, i), b.name == a.name, b.attr.wf(), av(b.attr) == with_env(av(a.attr), names, env, names.len() as int),
        b.children@ == a.children@.update(i, b.children@[i]), b.children@[i] is Element,
        dressed(a.children@[i]->Element_0, css, s, b.children@[i]->Element_0), ne(s) == bootstrap(mount), s.attr.wf(), s.children@.len() == 0,
        mw(HtmlNode::Element(a)), forall|i: int| 0 <= i < css.len() ==> mw(#[trigger] css[i]),
    ensures
        first_body(ne(a)->kids, i), nv(HtmlNode::Element(b)) == page(ne(a), nvs(css), names, env, mount, i), mw(HtmlNode::Element(b)),
{
    let x = a.children@[i]->Element_0;
    let y = b.children@[i]->Element_0;
    lemma_bodies(a.children@, i);
    lemma_nv(a); lemma_nv(b); lemma_nv(x); lemma_nv(y); lemma_nv(s);
    lemma_nvs_update(a.children@, i, b.children@[i]);
    assert(mw(a.children@[i]));
    assert(nvs(y.children@) =~= nvs(css) + nvs(x.children@) + seq![bootstrap(mount)]);
    assert(mw(HtmlNode::Element(s)));
    assert forall|j: int| 0 <= j < y.children@.len() implies mw(#[trigger] y.children@[j]) by {
        if css.len() <= j < css.len() + x.children@.len() { assert(mw(x.children@[j - css.len()])); }
    }
    assert(mw(b.children@[i]));
    assert forall|j: int| 0 <= j < b.children@.len() implies mw(#[trigger] b.children@[j]) by {
        if j != i { assert(mw(a.children@[j])); }
    }
    assert(nv(HtmlNode::Element(b)) =~= page(ne(a), nvs(css), names, env, mount, i));
}
impl HtmlResponse {
//@item impl HtmlResponse :: fn build_response
    pub fn build_response(&self) -> «(r:» ResponseState «)
        ensures is_page(tree(self.all_elements@), styles(self.all_elements@), self.mount_path, self.env@, r),»
    {
        let (mut root_html, css) = self.all_elements.get_response(false);
«        let ghost t = nv(root_html);
        let ghost t0 = root_html;
        let ghost cs = css@;
        let ghost names: Seq<String> = Seq::empty();»

        let css = ⟦css.into_iter().collect::<VecDeque<_>>()⇒vx_deque(css)⟧;

        if let HtmlNode::Element(html) = &mut root_html {
«            proof { lemma_nv(*html); }»
            if ⟦html.name != "html"⇒vx_str_ne(&html.name, "html")⟧ {
                return ResponseState::internal_error(
                    ⟦format!("Missing <html> element, found {} instead", html.name)⇒vx_found(&html.name)⟧,
                );
            }
«            let ghost e0 = *html;
            let es = vx_entries(&self.env);
            proof { names = choose|names: Seq<String>| #[trigger] refs(es@, names, self.env@) && lists_all(names, self.env@); }»

            for (env_name, env_value) in «it:» ⟦&self.env⇒es⟧
«                invariant
                    refs(it.seq(), names, self.env@), html.attr.wf(), html.name == e0.name, html.children == e0.children,
                    av(html.attr) == with_env(av(e0.attr), names, self.env@, it.index@ as int),»
            {
                html.add_attr(⟦format!("data-env-{env_name}")⇒vx_env_attr(env_name)⟧, ⟦env_value⇒vx_string_clone(env_value)⟧);
            }
        } else {
            return ResponseState::internal_error(⟦"Missing <html> element"⇒vx_text("Missing <html> element")⟧);
        }
«        let ghost t1 = root_html;
        let ghost e1 = root_html->Element_0;
        proof { assert(mw(t1)); }»

        let head_exists = root_html.modify(&[("head", 0)], move |_head«: &mut HtmlElement»| «ensures *final(_head) == *old(_head) »{});
«        let ghost e2 = root_html->Element_0;
        proof { assert(e2.children@ =~= e1.children@ && same_but_kids(e1, e2)); }»

        if !head_exists {
        }

        let script = HtmlElement::new(⟦"script"⇒vx_text("script")⟧)
            .attr(⟦"type"⇒vx_text("type")⟧, ⟦"module"⇒vx_text("module")⟧)
            .attr(⟦"data-vertigo-run-wasm"⇒vx_text("data-vertigo-run-wasm")⟧, ⟦&self.mount_path.wasm_path⇒vx_string_clone(&self.mount_path.wasm_path)⟧)
            .attr(⟦"src"⇒vx_text("src")⟧, ⟦&self.mount_path.run_js⇒vx_string_clone(&self.mount_path.run_js)⟧);
«        let ghost sc = script;
        proof { assert(nvs(sc.children@) =~= Seq::empty()); assert(ne(sc) == bootstrap(self.mount_path)); }»

        let success = root_html.modify(&[("body", 0)], move |body«: &mut HtmlElement»| «ensures dressed(*old(body), cs, sc, *final(body)) »{
«            let ghost b0 = *body;
            proof { assert(cs.skip(cs.len() as int) + b0.children@ =~= b0.children@); }»
            for css_node in «it:» ⟦css.into_iter().rev()⇒vx_backwards(css)⟧
«                invariant
                    it.seq() == cs.reverse(), same_but_kids(*body, b0), 0 <= it.index@ <= cs.len(),
                    body.children@ == cs.skip(cs.len() - it.index@) + b0.children@,»
            {
«                proof { lemma_kids_wf(b0.children@, cs, it.index@ as int, body.children@); }»
                body.add_first_child(css_node);
            }
«            proof { assert(cs.skip(0) =~= cs); }»

            body.add_last_child(script);
«            proof { assert((cs + b0.children@).push(HtmlNode::Element(sc)) =~= cs + b0.children@.push(HtmlNode::Element(sc))); }»
        });
«        let ghost e3 = root_html->Element_0;
        proof {
            let kids = e1.children@;
            lemma_nv(e1);
            assert(t == ne(t0->Element_0));
            if success {
                let i = choose|i: int| #[trigger] is_nth(kids, "body"@, 0, i) && e3.children@.len() == kids.len() && e3.children@ == kids.update(i, e3.children@[i])
                    && e3.children@[i] is Element && dressed(kids[i]->Element_0, cs, sc, e3.children@[i]->Element_0);
                lemma_page(t0->Element_0, e3, cs, sc, i, names, self.env@, self.mount_path);
            } else {
                assert forall|i: int| !first_body(t->kids, i) by { lemma_bodies(kids, i); }
            }
        }»

        if success {
            let document = HtmlDocument::new(root_html);
            ResponseState::html(document.convert_to_string(true))
        } else {
            ResponseState::internal_error(⟦"Missing <body> element"⇒vx_text("Missing <body> element")⟧)
        }
    }
//@end
}
} // verus!
fn main() {}
