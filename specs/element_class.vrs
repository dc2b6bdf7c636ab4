#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;

verus! {

//@include struct_mut.inc
//@include strings.inc
//@include dom_id.inc

// ---- trusted: std ----------------------------------------------------------------------------------------------------
pub open spec fn joins(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joins(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn sv(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body]
fn vx_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joins(sv(v@), sep@) { v.join(sep) }
spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body]
fn vx_ne(a: &Option<String>, b: &Option<String>) -> (r: bool) ensures r == (text(*a) != text(*b)) { a != b }
#[verifier::external_body]
fn vx_clone_from(a: &mut Option<String>, b: &Option<String>) ensures *final(a) == *b { a.clone_from(b); }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }

// ---- trusted: the driver (under contract in the units suspense and dom_batch), the names of styles (unit css) -------------
#[verifier::external_body]
pub struct StaticString(());
impl StaticString {
    pub uninterp spec fn view(self) -> Seq<char>;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Css(());
pub uninterp spec fn class_name(c: Css) -> Seq<char>;
#[verifier::external_body]
fn vx_class_name(c: &Css) -> (r: String) ensures r@ == class_name(*c) { unimplemented!() }
// a function from "is loading" to a style
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CssFn(());
pub uninterp spec fn css_for(f: CssFn, loading: bool) -> Css;
impl CssFn {
    #[verifier::external_body]
    fn call(&self, loading: bool) -> (r: Css) ensures r == css_for(*self, loading) { unimplemented!() }
}
pub enum Change { Set(DomId, Seq<char>, Seq<char>), Remove(DomId, Seq<char>) }
// what is recorded for the host, and which elements have a callback registered
pub struct Driver { pub ghost log: Seq<Change>, pub ghost layers: Set<DomId> }
impl Driver {
    #[verifier::external_body]
    fn set_attr(&mut self, id: DomId, name: &str, value: &str)
        ensures final(self).log == old(self).log.push(Change::Set(id, name@, value@)), final(self).layers == old(self).layers,
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_attr(&mut self, id: DomId, name: &str)
        ensures final(self).log == old(self).log.push(Change::Remove(id, name@)), final(self).layers == old(self).layers,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct DropResource { _p: () }
impl DropResource { pub uninterp spec fn releases(self) -> DomId; }
// assigning None or Some to the place of a handle: the handle that was there is dropped afterwards, which runs it
#[verifier::external_body]
fn vx_assign_handle(p: &mut Option<DropResource>, n: Option<DropResource>, d: &mut Driver)
    ensures
        *final(p) == n, final(d).log == old(d).log,
        final(d).layers == (match *old(p) { Some(h) => old(d).layers.remove(h.releases()), None => old(d).layers }),
{ unimplemented!() }

//@file crates/vertigo/src/dom/dom_element_class.rs
//@item struct DomElementClassMergeInner
struct DomElementClassMergeInner {
    driver: Driver,
    id_dom: DomId,
    css_name: Option<Css>,
    attr_name: Option<String>,
    _suspense_drop: Option<DropResource>,
    suspense_css: Option<Css>,
    command_last_sent: Option<String>,
}
//@end
// the classes an element has: its class attribute, its style, and the style it has while something in it is unfinished or not
spec fn parts(attr: Option<String>, css: Option<Css>, suspense: Option<Css>) -> Seq<Seq<char>> {
    (match attr { Some(a) => seq![a@], None => seq![] })
        + (match css { Some(c) => seq![class_name(c)], None => seq![] })
        + (match suspense { Some(c) => seq![class_name(c)], None => seq![] })
}
spec fn command(attr: Option<String>, css: Option<Css>, suspense: Option<Css>) -> Option<Seq<char>> {
    let p = parts(attr, css, suspense);
    if p.len() == 0 { None } else { Some(joins(p, " "@)) }
}
spec fn said(c: Option<Seq<char>>) -> Seq<char> { match c { Some(s) => s, None => ""@ } }
// the class that the changes recorded so far leave on the element
spec fn shown(log: Seq<Change>, id: DomId) -> Option<Seq<char>>
    decreases log.len(),
{
    if log.len() == 0 { None } else {
        match log.last() {
            Change::Set(i, n, v) => if i == id && n == "class"@ { Some(v) } else { shown(log.drop_last(), id) },
            Change::Remove(i, n) => if i == id && n == "class"@ { None } else { shown(log.drop_last(), id) },
        }
    }
}
type Inner = DomElementClassMergeInner;
impl DomElementClassMergeInner {
    spec fn want(self) -> Option<Seq<char>> { command(self.attr_name, self.css_name, self.suspense_css) }
    // the page shows the classes of the element
    spec fn wf(self) -> bool {
        &&& text(self.command_last_sent) == self.want()
        &&& said(shown(self.driver.log, self.id_dom)) == said(self.want())
    }
    // sent as one change, and only if it is one
    spec fn sent(self, o: Self) -> bool {
        &&& self.id_dom == o.id_dom && self.driver.layers == o.driver.layers && self._suspense_drop == o._suspense_drop
        &&& self.driver.log == (if self.want() == o.want() { o.driver.log } else { o.driver.log.push(Change::Set(self.id_dom, "class"@, said(self.want()))) })
    }
//@item impl DomElementClassMergeInner :: fn new
    fn new(driver: Driver, id_dom: DomId) -> «(r:» Self«)
        ensures
            r.id_dom == id_dom, r.driver == driver, r.attr_name is None, r.css_name is None, r.suspense_css is None, r._suspense_drop is None,
            shown(driver.log, id_dom) is None ==> r.wf(),»
    {
        Self {
            driver,
            id_dom,
            css_name: None,
            attr_name: None,
            _suspense_drop: None,
            suspense_css: None,
            command_last_sent: None,
        }
    }
//@end
//@item impl DomElementClassMergeInner :: fn get_new_command
    fn get_new_command(&self) -> «(r:» Option<String>«)
        ensures text(r) == self.want(),»
    {
        let mut result«: Vec<String>» = Vec::new();

        if let Some(attr) = &self.attr_name {
            result.push(⟦attr.clone()⇒vx_string_clone(attr)⟧);
        }
«        assert(sv(result@) =~= parts(self.attr_name, None, None));»

        if let Some(css) = &self.css_name {
            let css = ⟦get_driver().inner.css_manager.get_class_name⇒vx_class_name⟧(css);
            result.push(css);
        }
«        assert(sv(result@) =~= parts(self.attr_name, self.css_name, None));»

        if let Some(suspense_css) = &self.suspense_css {
            let suspense_css = ⟦get_driver().inner.css_manager.get_class_name⇒vx_class_name⟧(suspense_css);
            result.push(suspense_css);
        }
«        assert(sv(result@) =~= parts(self.attr_name, self.css_name, self.suspense_css));»

        if result.is_empty() {
            None
        } else {
            Some(⟦result.join(⇒vx_join(&result, ⟧" "))
        }
    }
//@end
//@item impl DomElementClassMergeInner :: fn refresh_dom
    fn refresh_dom(&mut self)
«        requires said(shown(old(self).driver.log, old(self).id_dom)) == said(text(old(self).command_last_sent)),
        ensures
            final(self).wf(), final(self).attr_name == old(self).attr_name, final(self).css_name == old(self).css_name, final(self).suspense_css == old(self).suspense_css,
            final(self).id_dom == old(self).id_dom, final(self).driver.layers == old(self).driver.layers, final(self)._suspense_drop == old(self)._suspense_drop,
            final(self).driver.log == (if final(self).want() == text(old(self).command_last_sent) { old(self).driver.log } else { old(self).driver.log.push(Change::Set(final(self).id_dom, "class"@, said(final(self).want()))) }),»
    {
        let new_command = self.get_new_command();

        if ⟦self.command_last_sent != new_command⇒vx_ne(&self.command_last_sent, &new_command)⟧ {
            ⟦self.command_last_sent.clone_from(&new_command)⇒vx_clone_from(&mut self.command_last_sent, &new_command)⟧;

            let new_command = match new_command {
                Some(new_command) => new_command,
                None => ⟦"".to_string()⇒vx_owned("")⟧,
            };

            self.driver
                ⟦.inner
                .dom⇒⟧
                .set_attr(self.id_dom, "class", &new_command);
«            assert(self.driver.log.drop_last() =~= old(self).driver.log);»
        }
    }
//@end
}

//@item struct DomElementClassMerge
pub struct DomElementClassMerge {
    inner: ⟦Rc<ValueMut<DomElementClassMergeInner>>⇒ValueMut<DomElementClassMergeInner>⟧,
}
//@end
// an attribute is set or removed: the class is one of the parts of the class, anything else is recorded as it is
spec fn attribute(a: Inner, b: Inner, name: Seq<char>, value: Option<String>) -> bool {
    if name == "class"@ {
        &&& b.wf() && b.sent(a)
        &&& b.css_name == a.css_name && b.suspense_css == a.suspense_css && text(b.attr_name) == text(value)
    } else {
        &&& b.driver.log == a.driver.log.push(match value { Some(v) => Change::Set(a.id_dom, name, v@), None => Change::Remove(a.id_dom, name) })
        &&& (a.wf() ==> b.wf())
        &&& b.same(a)
    }
}
impl DomElementClassMergeInner {
    spec fn same(self, a: Self) -> bool {
        &&& self.attr_name == a.attr_name && self.css_name == a.css_name && self.suspense_css == a.suspense_css
        &&& self.id_dom == a.id_dom && self.driver.layers == a.driver.layers && self._suspense_drop == a._suspense_drop
    }
}
// told of loading or not: the style for it is part of the class from then on
spec fn told(a: Inner, b: Inner, callback: CssFn, loading: bool) -> bool {
    &&& b.wf() && b.sent(a)
    &&& b.attr_name == a.attr_name && b.css_name == a.css_name && b.suspense_css == Some(css_for(callback, loading))
}
// registering a callback: it is told at once, and perhaps once more, and from then on (unit suspense)
#[verifier::external_body]
fn vx_how_often() -> (r: Vec<bool>) ensures 1 <= r@.len() { unimplemented!() }
#[verifier::external_body]
fn vx_registered(d: &mut Driver, id: DomId) -> (r: DropResource)
    ensures r.releases() == id, final(d).log == old(d).log, final(d).layers == old(d).layers.insert(id),
{ unimplemented!() }
fn set_layer_callback<F: Fn(bool, &mut Inner)>(state: &mut Inner, id: DomId, f: F, Ghost(callback): Ghost<CssFn>) -> (r: DropResource)
    requires
        old(state).wf(),
        forall|b: bool, s: &mut Inner| (*s).wf() ==> #[trigger] call_requires(f, (b, s)),
        forall|b: bool, s: &mut Inner| #[trigger] call_ensures(f, (b, s), ()) ==> told(*s, *final(s), callback, b),
    ensures
        r.releases() == id, final(state).driver.layers == old(state).driver.layers.insert(id),
        final(state).wf(), final(state)._suspense_drop == old(state)._suspense_drop, final(state).id_dom == old(state).id_dom,
        final(state).attr_name == old(state).attr_name, final(state).css_name == old(state).css_name,
        exists|b: bool| final(state).suspense_css == Some(#[trigger] css_for(callback, b)),
{
    let h = vx_registered(&mut state.driver, id);
    let bs = vx_how_often();
    for b in it: bs
        invariant
            bs@.len() > 0, it.seq() == bs@,
            state.wf(), state._suspense_drop == old(state)._suspense_drop, state.id_dom == old(state).id_dom,
            state.attr_name == old(state).attr_name, state.css_name == old(state).css_name,
            state.driver.layers == old(state).driver.layers.insert(id),
            it.index@ > 0 ==> exists|b: bool| state.suspense_css == Some(#[trigger] css_for(callback, b)),
            forall|b: bool, s: &mut Inner| (*s).wf() ==> #[trigger] call_requires(f, (b, s)),
            forall|b: bool, s: &mut Inner| #[trigger] call_ensures(f, (b, s), ()) ==> told(*s, *final(s), callback, b),
    {
        f(b, state);
    }
    h
}
impl DomElementClassMerge {
    spec fn view(self) -> Inner { self.inner@ }
//@item impl DomElementClassMerge :: fn new
    pub fn new(driver: Driver, id_dom: DomId) -> «(r:» Self«)
        ensures
            r@.id_dom == id_dom, r@.driver == driver, r@.attr_name is None, r@.css_name is None, r@.suspense_css is None, r@._suspense_drop is None,
            shown(driver.log, id_dom) is None ==> r@.wf(),»
    {
        Self {
            inner: ⟦Rc::new(ValueMut::new(DomElementClassMergeInner::new(
                driver, id_dom,
            )))⇒ValueMut::new(DomElementClassMergeInner::new(driver, id_dom))⟧,
        }
    }
//@end
//@item impl DomElementClassMerge :: fn set_attribute
    pub fn set_attribute(⟦&self⇒&mut self⟧, new_value: String)
«        requires old(self)@.wf(),
        ensures attribute(old(self)@, final(self)@, "class"@, Some(new_value)),»
    {
        self.inner.change(|state«: &mut Inner»| «requires old(state).wf(), ensures attribute(*old(state), *final(state), "class"@, Some(new_value)),» {
            state.attr_name = Some(new_value);
            state.refresh_dom();
        });
    }
//@end
//@item impl DomElementClassMerge :: fn remove_attribute
    pub fn remove_attribute(⟦&self⇒&mut self⟧)
«        requires old(self)@.wf(),
        ensures attribute(old(self)@, final(self)@, "class"@, None),»
    {
        self.inner.change(|state«: &mut Inner»| «requires old(state).wf(), ensures attribute(*old(state), *final(state), "class"@, None),» {
            state.attr_name = None;
            state.refresh_dom();
        });
    }
//@end
//@item impl DomElementClassMerge :: fn set_css
    pub fn set_css(⟦&self⇒&mut self⟧, new_value: Css)
«        requires old(self)@.wf(),
        ensures styled(old(self)@, final(self)@, new_value),»
    {
        self.inner.change(|state«: &mut Inner»| «requires old(state).wf(), ensures styled(*old(state), *final(state), new_value),» {
            state.css_name = Some(new_value);
            state.refresh_dom();
        });
    }
//@end
//@item impl DomElementClassMerge :: fn set_suspense_attr
    pub fn set_suspense_attr(⟦&self⇒&mut self⟧, callback: ⟦Option<fn(bool) -> Css>⇒Option<CssFn>⟧)
«        requires old(self)@.wf(), old(self)@.handle_wf(),
        ensures suspended(old(self)@, final(self)@, callback),»
    {
        self.inner.change(|state«: &mut Inner»| «requires old(state).wf(), old(state).handle_wf(), ensures suspended(*old(state), *final(state), callback),» {
            let Some(callback) = callback else {
                ⟦state._suspense_drop = None;⇒vx_assign_handle(&mut state._suspense_drop, None, &mut state.driver);⟧
                return;
            };

            ⟦state._suspense_drop = None;⇒vx_assign_handle(&mut state._suspense_drop, None, &mut state.driver);⟧

            let drop = ⟦get_driver()
                .inner
                .dom
                .dom_suspense
                .set_layer_callback(state.id_dom, {⇒{ let id = state.id_dom; let ghost cb = callback; let f = {⟧
                    ⟦let self_clone = self.clone();⇒⟧

                    move |is_loading: bool«, state: &mut Inner»| «requires old(state).wf(), ensures told(*old(state), *final(state), callback, is_loading),» {
                        let css = callback⟦(is_loading)⇒.call(is_loading)⟧;

                        ⟦self_clone.inner.change(|state| {⇒{⟧
                            state.suspense_css = Some(css);
                            state.refresh_dom();
                        ⟦});⇒}⟧
                    }
                ⟦});⇒}; set_layer_callback(state, id, f, Ghost(cb)) };⟧

            ⟦state._suspense_drop = Some(drop);⇒vx_assign_handle(&mut state._suspense_drop, Some(drop), &mut state.driver);⟧
        });
    }
//@end
//@item impl DomElementClassMerge :: fn set_attr_value
    pub fn set_attr_value(⟦&self⇒&mut self⟧, name: StaticString, value: Option<String>)
«        requires old(self)@.wf(),
        ensures attribute(old(self)@, final(self)@, name@, value),»
    {
        if ⟦name.as_str() == "class"⇒vx_str_eq(name.as_str(), "class")⟧ {
            match value {
                Some(value) => {
                    self.set_attribute(value);
                }
                None => {
                    self.remove_attribute();
                }
            }
            return;
        }

        ⟦let driver = get_driver();⇒⟧
        let id = self.inner.map(|state«: &Inner»| «-> (o: DomId) ensures o == state.id_dom {» state.id_dom «}»);
«        let ghost old_inner = self@;»

        match value {
            Some(value) => {
                ⟦driver.inner.dom.set_attr(id, name, &value)⇒self.inner.value.value.driver.set_attr(id, name.as_str(), &value)⟧;
            }
            None => {
                ⟦driver.inner.dom.remove_attr(id, name)⇒self.inner.value.value.driver.remove_attr(id, name.as_str())⟧;
            }
        }
«        assert(self@.driver.log.drop_last() =~= old_inner.driver.log);»
    }
//@end
}
impl DomElementClassMergeInner {
    // the handle that is kept is the one of this element
    spec fn handle_wf(self) -> bool {
        match self._suspense_drop { Some(h) => h.releases() == self.id_dom && self.driver.layers.contains(self.id_dom), None => true }
    }
}
spec fn styled(a: Inner, b: Inner, css: Css) -> bool {
    &&& b.wf() && b.sent(a)
    &&& b.css_name == Some(css) && b.attr_name == a.attr_name && b.suspense_css == a.suspense_css
}
// the element has the callback and no other, or none
spec fn suspended(a: Inner, b: Inner, callback: Option<CssFn>) -> bool {
    &&& b.wf() && b.handle_wf() && b.id_dom == a.id_dom
    &&& b.attr_name == a.attr_name && b.css_name == a.css_name
    &&& match callback {
        Some(f) => b._suspense_drop is Some && b.driver.layers.contains(b.id_dom) && exists|l: bool| b.suspense_css == Some(#[trigger] css_for(f, l)),
        None => b._suspense_drop is None && (a._suspense_drop is Some ==> !b.driver.layers.contains(b.id_dom)) && b.driver.log == a.driver.log,
    }
}
// ---- elements: what an attribute or a style given as a value does each time the value changes -------------------------------
pub enum Does { Attribute(Seq<char>), Style }
trait Given: Sized { spec fn given(self, a: Inner, b: Inner, does: Does) -> bool; }
impl Given for String {
    spec fn given(self, a: Inner, b: Inner, does: Does) -> bool { does matches Does::Attribute(n) && attribute(a, b, n, Some(self)) }
}
impl Given for Option<String> {
    spec fn given(self, a: Inner, b: Inner, does: Does) -> bool { does matches Does::Attribute(n) && attribute(a, b, n, self) }
}
impl Given for Css {
    spec fn given(self, a: Inner, b: Inner, does: Does) -> bool { does is Style && styled(a, b, self) }
}
// ---- trusted: subscriptions (C08, C12): the function is run with the value it has now and with every new one -----------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Value<T> { _p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Computed<T> { _p: std::marker::PhantomData<T> }
impl<T> Value<T> {
    pub uninterp spec fn what(self) -> int;
    #[verifier::external_body]
    fn to_computed(self) -> (r: Computed<T>) ensures r.what() == self.what() { unimplemented!() }
}
pub struct Subscription { pub of: Ghost<int>, pub does: Ghost<Does> }
impl<T> Computed<T> {
    pub uninterp spec fn what(self) -> int;
}
impl<T: Given> Computed<T> {
    #[verifier::external_body]
    fn subscribe<F: Fn(T, &mut DomElementClassMerge)>(self, call: F, m: &mut DomElementClassMerge, does: Ghost<Does>) -> (r: Subscription)
        requires
            old(m)@.wf(),
            forall|v: T, s: &mut DomElementClassMerge| (*s)@.wf() ==> #[trigger] call_requires(call, (v, s)),
            forall|v: T, s: &mut DomElementClassMerge| #[trigger] call_ensures(call, (v, s), ()) ==> v.given((*s)@, (*final(s))@, does@),
        ensures
            r.of@ == self.what(), r.does == does,
            exists|v: T| #[trigger] v.given(old(m)@, final(m)@, does@),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ChildNodes(());
#[verifier::external_body]
fn vx_clone_name(s: &StaticString) -> (r: StaticString) ensures r == *s { unimplemented!() }

//@file crates/vertigo/src/dom/attr_value.rs
//@item enum AttrValue
pub enum AttrValue {
    String(String),
    Computed(Computed<String>),
    ComputedOpt(Computed<Option<String>>),
    Value(Value<String>),
    ValueOpt(Value<Option<String>>),
}
//@end
//@item enum CssAttrValue
pub enum CssAttrValue {
    Css(Css),
    Computed(Computed<Css>),
}
//@end
spec fn watched(v: AttrValue) -> Option<int> {
    match v {
        AttrValue::String(_) => None,
        AttrValue::Computed(c) => Some(c.what()),
        AttrValue::ComputedOpt(c) => Some(c.what()),
        AttrValue::Value(c) => Some(c.what()),
        AttrValue::ValueOpt(c) => Some(c.what()),
    }
}
// the text a thing is shown as
uninterp spec fn shown_as<K>(x: K) -> String;
#[verifier::external_body]
fn vx_to_string<K>(x: &K) -> (r: String) ensures r == shown_as(*x) { unimplemented!() }
#[verifier::external_body]
fn vx_clone_value<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
// what an attribute is given as: a text, or something to follow
impl AttrValue {
//@item impl From for AttrValue [From<K>for] :: fn from
    fn ⟦from⇒from_shown<K>⟧(value: K) -> «(r:» Self «)
        ensures r == AttrValue::String(shown_as(value)),»
    {
        AttrValue::String(⟦value.to_string()⇒vx_to_string(&value)⟧)
    }
//@end
//@item impl From for AttrValue [From<Computed<String>>for] :: fn from
    fn ⟦from⇒from_computed⟧(value: Computed<String>) -> «(r:» Self «)
        ensures watched(r) == Some(value.what()), r is Computed,»
    {
        AttrValue::Computed(value)
    }
//@end
//@item impl From for AttrValue [From<Computed<Option<String>>>for] :: fn from
    fn ⟦from⇒from_computed_opt⟧(value: Computed<Option<String>>) -> «(r:» Self «)
        ensures watched(r) == Some(value.what()), r is ComputedOpt,»
    {
        AttrValue::ComputedOpt(value)
    }
//@end
//@item impl From for AttrValue [From<&Computed<Option<String>>>for] :: fn from
    fn ⟦from⇒from_computed_opt_ref⟧(value: &Computed<Option<String>>) -> «(r:» Self «)
        ensures watched(r) == Some(value.what()), r is ComputedOpt,»
    {
        AttrValue::ComputedOpt(⟦value.clone()⇒vx_clone_value(value)⟧)
    }
//@end
//@item impl From for AttrValue [From<Value<String>>for] :: fn from
    fn ⟦from⇒from_value⟧(value: Value<String>) -> «(r:» Self «)
        ensures watched(r) == Some(value.what()), r is Value,»
    {
        AttrValue::Value(value)
    }
//@end
//@item impl From for AttrValue [From<Value<Option<String>>>for] :: fn from
    fn ⟦from⇒from_value_opt⟧(value: Value<Option<String>>) -> «(r:» Self «)
        ensures watched(r) == Some(value.what()), r is ValueOpt,»
    {
        AttrValue::ValueOpt(value)
    }
//@end
//@item impl From for AttrValue [From<&Value<String>>for] :: fn from
    fn ⟦from⇒from_value_ref⟧(value: &Value<String>) -> «(r:» Self «)
        ensures watched(r) == Some(value.what()), r is Value,»
    {
        AttrValue::Value(⟦value.clone()⇒vx_clone_value(value)⟧)
    }
//@end
//@item impl From for AttrValue [From<&Value<Option<String>>>for] :: fn from
    fn ⟦from⇒from_value_opt_ref⟧(value: &Value<Option<String>>) -> «(r:» Self «)
        ensures watched(r) == Some(value.what()), r is ValueOpt,»
    {
        AttrValue::ValueOpt(⟦value.clone()⇒vx_clone_value(value)⟧)
    }
//@end
}
impl CssAttrValue {
//@item impl From for CssAttrValue [From<Css>for] :: fn from
    fn ⟦from⇒from_css⟧(value: Css) -> «(r:» Self «)
        ensures r == CssAttrValue::Css(value),»
    {
        CssAttrValue::Css(value)
    }
//@end
//@item impl From for CssAttrValue [From<Computed<Css>>for] :: fn from
    fn ⟦from⇒from_computed_css⟧(value: Computed<Css>) -> «(r:» Self «)
        ensures r == CssAttrValue::Computed(value),»
    {
        CssAttrValue::Computed(value)
    }
//@end
}
// an attribute is given to an element: a text is set, a value is subscribed to, and shown from the start
spec fn installed(a: DomElement, b: DomElement, name: Seq<char>, v: AttrValue) -> bool {
    match watched(v) {
        None => b.subscriptions@ == a.subscriptions@ && (v matches AttrValue::String(s) && attribute(a.class_manager@, b.class_manager@, name, Some(s))),
        Some(i) => {
            &&& b.subscriptions@.len() == a.subscriptions@.len() + 1 && b.subscriptions@.drop_last() == a.subscriptions@
            &&& b.subscriptions@.last().of@ == i && b.subscriptions@.last().does@ == Does::Attribute(name)
            &&& if v is Computed || v is Value { exists|s: String| #[trigger] s.given(a.class_manager@, b.class_manager@, Does::Attribute(name)) }
                else { exists|s: Option<String>| #[trigger] s.given(a.class_manager@, b.class_manager@, Does::Attribute(name)) }
        },
    }
}
//@file crates/vertigo/src/dom/dom_element.rs
//@item struct DomElement
pub struct DomElement {
    driver: Driver,
    id_dom: DomId,
    child_node: ⟦VecDequeMut<DomNode>⇒ChildNodes⟧,
    subscriptions: VecMut<⟦DropResource⇒Subscription⟧>,
    class_manager: DomElementClassMerge,
}
//@end
impl DomElement {
//@item impl DomElement :: fn subscribe
    fn subscribe<T: ⟦Clone + PartialEq + 'static⇒Given⟧«, F: Fn(T, &mut DomElementClassMerge)»>(
        ⟦&self⇒&mut self⟧,
        value: Computed<T>,
        call: ⟦impl Fn(T) + 'static⇒F⟧,
«        does: Ghost<Does>,»
    )
«        requires
            old(self).class_manager@.wf(),
            forall|v: T, s: &mut DomElementClassMerge| (*s)@.wf() ==> #[trigger] call_requires(call, (v, s)),
            forall|v: T, s: &mut DomElementClassMerge| #[trigger] call_ensures(call, (v, s), ()) ==> v.given((*s)@, (*final(s))@, does@),
        ensures
            final(self).subscriptions@.len() == old(self).subscriptions@.len() + 1, final(self).subscriptions@.drop_last() == old(self).subscriptions@,
            final(self).subscriptions@.last().of@ == value.what(), final(self).subscriptions@.last().does == does,
            exists|v: T| #[trigger] v.given(old(self).class_manager@, final(self).class_manager@, does@),»
    {
        let client = value.subscribe(call«, &mut self.class_manager, does»);
        self.subscriptions.push(client);
«        assert(self.subscriptions@.drop_last() =~= old(self).subscriptions@);»
    }
//@end
//@item impl DomElement :: fn css
    pub fn css(self, css: ⟦impl Into<CssAttrValue>⇒CssAttrValue⟧) -> «(r:» Self«)
        requires self.class_manager@.wf(),
        ensures
            css matches CssAttrValue::Css(c) ==> styled(self.class_manager@, r.class_manager@, c) && r.subscriptions@ == self.subscriptions@,
            css matches CssAttrValue::Computed(c) ==> {
                &&& r.subscriptions@.len() == self.subscriptions@.len() + 1 && r.subscriptions@.drop_last() == self.subscriptions@
                &&& r.subscriptions@.last().of@ == c.what() && r.subscriptions@.last().does@ == Does::Style
                &&& exists|v: Css| #[trigger] v.given(self.class_manager@, r.class_manager@, Does::Style)
            },»
    {
«        let mut this = self;»
        let css = css⟦.into()⇒⟧;

        match css {
            CssAttrValue::Css(css) => {
                ⟦self⇒this⟧.class_manager.set_css(css);
            }
            CssAttrValue::Computed(css) => {
                ⟦let class_manager = self.class_manager.clone();⇒⟧

                ⟦self⇒this⟧.subscribe(css, move |css«: Css, class_manager: &mut DomElementClassMerge»| «requires old(class_manager)@.wf(), ensures css.given(old(class_manager)@, final(class_manager)@, Does::Style),» {
                    class_manager.set_css(css);
                }«, Ghost(Does::Style)»);
            }
        }
        ⟦self⇒this⟧
    }
//@end
//@item impl DomElement :: fn suspense
    pub fn suspense(self, callback: ⟦Option<fn(bool) -> Css>⇒Option<CssFn>⟧) -> «(r:» Self«)
        requires self.class_manager@.wf(), self.class_manager@.handle_wf(),
        ensures suspended(self.class_manager@, r.class_manager@, callback), r.subscriptions@ == self.subscriptions@,»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.class_manager.set_suspense_attr(callback);
        ⟦self⇒this⟧
    }
//@end
//@item impl DomElement :: fn add_attr
    pub fn add_attr(⟦&self⇒&mut self⟧, name: ⟦impl Into<StaticString>⇒StaticString⟧, value: ⟦impl Into<AttrValue>⇒AttrValue⟧)
«        requires old(self).class_manager@.wf(),
        ensures installed(*old(self), *final(self), name@, value),»
    {
        let name = name⟦.into()⇒⟧;
        let value = value⟦.into()⇒⟧;

        match value {
            AttrValue::String(value) => {
                self.class_manager.set_attr_value(name, Some(value));
            }
            AttrValue::Computed(computed) => {
                ⟦let class_manager = self.class_manager.clone();⇒⟧

«                let ghost n = name@;»
                self.subscribe(computed, move |value«: String, class_manager: &mut DomElementClassMerge»| «requires old(class_manager)@.wf(), ensures value.given(old(class_manager)@, final(class_manager)@, Does::Attribute(name@)),» {
                    class_manager.set_attr_value(⟦name.clone()⇒vx_clone_name(&name)⟧, Some(value));
                }«, Ghost(Does::Attribute(n))»);
            }
            AttrValue::ComputedOpt(computed) => {
                ⟦let class_manager = self.class_manager.clone();⇒⟧

«                let ghost n = name@;»
                self.subscribe(computed, move |value«: Option<String>, class_manager: &mut DomElementClassMerge»| «requires old(class_manager)@.wf(), ensures value.given(old(class_manager)@, final(class_manager)@, Does::Attribute(name@)),» {
                    class_manager.set_attr_value(⟦name.clone()⇒vx_clone_name(&name)⟧, value);
                }«, Ghost(Does::Attribute(n))»);
            }
            AttrValue::Value(value) => {
                ⟦let class_manager = self.class_manager.clone();⇒⟧

«                let ghost n = name@;»
                self.subscribe(value.to_computed(), move |value«: String, class_manager: &mut DomElementClassMerge»| «requires old(class_manager)@.wf(), ensures value.given(old(class_manager)@, final(class_manager)@, Does::Attribute(name@)),» {
                    class_manager.set_attr_value(⟦name.clone()⇒vx_clone_name(&name)⟧, Some(value));
                }«, Ghost(Does::Attribute(n))»);
            }
            AttrValue::ValueOpt(value) => {
                ⟦let class_manager = self.class_manager.clone();⇒⟧

«                let ghost n = name@;»
                self.subscribe(value.to_computed(), move |value«: Option<String>, class_manager: &mut DomElementClassMerge»| «requires old(class_manager)@.wf(), ensures value.given(old(class_manager)@, final(class_manager)@, Does::Attribute(name@)),» {
                    class_manager.set_attr_value(⟦name.clone()⇒vx_clone_name(&name)⟧, value);
                }«, Ghost(Does::Attribute(n))»);
            }
        };
    }
//@end
//@item impl DomElement :: fn attr
    pub fn attr(self, name: ⟦impl Into<StaticString>⇒StaticString⟧, value: ⟦impl Into<AttrValue>⇒AttrValue⟧) -> «(r:» Self«)
        requires self.class_manager@.wf(),
        ensures installed(self, r, name@, value),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.add_attr(name, value);
        ⟦self⇒this⟧
    }
//@end
}
} // verus!
fn main() {}
