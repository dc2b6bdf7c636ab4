#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use std::rc::Rc;
use std::collections::VecDeque;
use std::collections::HashMap;
verus! {

broadcast use {vstd::std_specs::vec::group_vec_axioms};

#[verifier::external_body] fn vx_string() -> String { String::new() }
//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
//@item enum JsJson
«pub» enum JsJson {
    True,
    False,
    Null,
    String(String),
    Number(f64),
    List(Vec<JsJson>),
    Object(HashMap<String, JsJson>),
}
//@end
//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
//@item enum JsValue
«pub» enum JsValue {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F64(f64),

    True,
    False,
    Null,
    Undefined,

    Vec(Vec<u8>),       // type, length, sequence of bytes
    String(String),     // type, length, sequence of chars
    List(Vec<JsValue>), // type, length
    Object(HashMap<String, JsValue>),

    Json(JsJson),
}
//@end
//@include decoder.inc
//@include struct_mut.inc
//@include dom_id.inc

#[verifier::external_body]
fn vx_unreachable() -> (r: !) requires false { loop {} }

//@file crates/vertigo/src/dom/types.rs
//@item struct KeyDownEvent
pub struct KeyDownEvent {
    pub key: String,
    pub code: String,
    pub alt_key: bool,
    pub ctrl_key: bool,
    pub shift_key: bool,
    pub meta_key: bool,
}
//@end
//@item struct DropFileItem
pub struct DropFileItem {
    pub name: String,
    pub data: Rc<Vec<u8>>,
}
//@end
impl DropFileItem {
//@item impl DropFileItem :: fn new
    pub fn new(name: String, data: Vec<u8>) -> «(r:» DropFileItem«)
        ensures r.name == name, *r.data == data,»
    {
        DropFileItem {
            name,
            data: Rc::new(data),
        }
    }
//@end
}
//@item struct DropFileEvent
pub struct DropFileEvent {
    pub items: Vec<DropFileItem>,
}
//@end
impl DropFileEvent {
//@item impl DropFileEvent :: fn new
    pub fn new(items: Vec<DropFileItem>) -> «(r:» DropFileEvent«)
        ensures r.items == items,»
    {
        DropFileEvent { items }
    }
//@end
}

// ---- trusted: functions of the program.  Running one is recorded: which, what it was told, what it said. ----------------------
pub enum Who { Fixed(int), Present(int) }
pub enum Tell { Nothing, Text(String), Key(KeyDownEvent), Files(DropFileEvent) }
pub enum Say { Nothing, Bool(bool) }
pub struct Ran { pub who: Who, pub data: Tell, pub said: Say }
pub struct Log { pub ran: Ghost<Seq<Ran>> }
pub trait Told: Sized { spec fn told(self) -> Tell; }
pub trait Says: Sized { spec fn said(self) -> Say; }
impl Told for () { open spec fn told(self) -> Tell { Tell::Nothing } }
impl Told for String { open spec fn told(self) -> Tell { Tell::Text(self) } }
impl Told for KeyDownEvent { open spec fn told(self) -> Tell { Tell::Key(self) } }
impl Told for DropFileEvent { open spec fn told(self) -> Tell { Tell::Files(self) } }
impl Says for () { open spec fn said(self) -> Say { Say::Nothing } }
impl Says for bool { open spec fn said(self) -> Say { Say::Bool(self) } }
pub open spec fn once(a: Log, b: Log, who: Who, data: Tell, said: Say) -> bool { b.ran@ == a.ran@.push(Ran { who, data, said }) }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Handler<T, R> { _p: std::marker::PhantomData<(T, R)> }
impl<T: Told, R: Says> Handler<T, R> {
    pub uninterp spec fn who(self) -> Who;
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn call(&self, t: T, log: &mut Log) -> (r: R)
        ensures once(*old(log), *final(log), self.who(), t.told(), r.said()),
    { unimplemented!() }
    // Rc::new of a function that runs the one which is kept in a place that follows a computed value:
    // each time, the present one.
    #[verifier::external_body]
    fn present<F: Fn(T, &ValueMut<Option<Handler<T, R>>>, &mut Log) -> R>(f: F, current: ValueMut<Option<Handler<T, R>>>, what: Ghost<int>) -> (r: Self)
        requires
            current@ is Some,
            forall|t: T, c: &ValueMut<Option<Handler<T, R>>>, log: &mut Log| c@ is Some ==> #[trigger] call_requires(f, (t, c, log)),
            forall|t: T, c: &ValueMut<Option<Handler<T, R>>>, log: &mut Log, r: R| #[trigger] call_ensures(f, (t, c, log), r) ==> once(*log, *final(log), c@->0.who(), t.told(), r.said()),
        ensures r.who() == Who::Present(what@),
    { unimplemented!() }
}
// ValueMut::get
fn vx_get<T: Told, R: Says>(c: &ValueMut<Option<Handler<T, R>>>) -> (r: Option<Handler<T, R>>)
    ensures r == c@,
{ c.map(|x: &Option<Handler<T, R>>| -> (r: Option<Handler<T, R>>) ensures r == *x { match x { Some(h) => Some(h.clone()), None => None } }) }

// ---- trusted: subscriptions (C08, C12), the store of callbacks (C18), the commands (C05) -----------------------------------------
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct CallbackId(u64);
pub enum Releases { Handler(CallbackId), Listener(DomId, Seq<char>, CallbackId), Follows(int) }
pub struct DropResource { pub what: Ghost<Releases> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Computed<T> { _p: std::marker::PhantomData<T> }
impl<T: Told, R: Says> Computed<Handler<T, R>> {
    pub uninterp spec fn what(self) -> int;
    // the function is run with the value there is now, and with every new one
    #[verifier::external_body]
    fn subscribe_all<F: Fn(Handler<T, R>, &mut ValueMut<Option<Handler<T, R>>>)>(self, call: F, c: &mut ValueMut<Option<Handler<T, R>>>) -> (r: DropResource)
        requires
            forall|v: Handler<T, R>, c: &mut ValueMut<Option<Handler<T, R>>>| #[trigger] call_requires(call, (v, c)),
            forall|v: Handler<T, R>, c: &mut ValueMut<Option<Handler<T, R>>>| #[trigger] call_ensures(call, (v, c), ()) ==> (*final(c))@ == Some(v),
        ensures final(c)@ is Some, r.what@ == Releases::Follows(self.what()),
    { unimplemented!() }
}
// what is to happen when an event comes
pub enum Kind { Plain, Prevents, Text, Key, Files }
pub struct On { pub kind: Kind, pub who: Who }
pub struct Driver { pub ghost handlers: Map<CallbackId, On>, pub ghost listens: Set<(DomId, Seq<char>, CallbackId)> }
pub closed spec fn key_of(data: JsValue) -> Option<KeyDownEvent> {
    let l = data->List_0@;
    if data is List && l.len() == 6 && l[0] is String && l[1] is String && flag(l[2]) && flag(l[3]) && flag(l[4]) && flag(l[5]) {
        Some(KeyDownEvent { key: l[0]->String_0, code: l[1]->String_0, alt_key: l[2] is True, ctrl_key: l[3] is True, shift_key: l[4] is True, meta_key: l[5] is True })
    } else { None }
}
pub open spec fn flag(v: JsValue) -> bool { v is True || v is False }
// a file is a name and its bytes (what else comes with it is not looked at)
pub closed spec fn is_file(v: JsValue) -> bool { v is List && v->List_0@.len() >= 2 && v->List_0@[0] is String && v->List_0@[1] is Vec }
pub closed spec fn file_of(v: JsValue, f: DropFileItem) -> bool { is_file(v) && f.name == v->List_0@[0]->String_0 && *f.data == v->List_0@[1]->Vec_0 }
pub closed spec fn are_files(data: JsValue) -> bool {
    &&& data is List && data->List_0@.len() >= 1 && data->List_0@[0] is List
    &&& forall|i: int| 0 <= i < data->List_0@[0]->List_0@.len() ==> is_file(#[trigger] data->List_0@[0]->List_0@[i])
}
pub closed spec fn files_of(data: JsValue, e: DropFileEvent) -> bool {
    &&& are_files(data) && e.items@.len() == data->List_0@[0]->List_0@.len()
    &&& forall|i: int| 0 <= i < e.items@.len() ==> file_of(#[trigger] data->List_0@[0]->List_0@[i], e.items@[i])
}
pub closed spec fn truth(b: bool) -> JsValue { if b { JsValue::True } else { JsValue::False } }
// the function of the program runs once, and what it answers goes back; it does not run on what is not such an event
pub closed spec fn answers(on: On, data: JsValue, a: Log, b: Log, r: JsValue) -> bool {
    match on.kind {
        Kind::Plain => once(a, b, on.who, Tell::Nothing, Say::Nothing) && r == JsValue::Undefined,
        Kind::Prevents => exists|s: bool| #[trigger] once(a, b, on.who, Tell::Nothing, Say::Bool(s)) && r == truth(s),
        Kind::Text => r == JsValue::Undefined && if data is String { once(a, b, on.who, Tell::Text(data->String_0), Say::Nothing) } else { a == b },
        Kind::Key => match key_of(data) {
            Some(k) => exists|s: bool| #[trigger] once(a, b, on.who, Tell::Key(k), Say::Bool(s)) && r == truth(s),
            None => a == b && r == JsValue::False,
        },
        Kind::Files => r == JsValue::Undefined && if are_files(data) {
            exists|e: DropFileEvent| files_of(data, e) && #[trigger] once(a, b, on.who, Tell::Files(e), Say::Nothing)
        } else { a == b },
    }
}
impl Driver {
    // CallbackStore::register (unit callbacks)
    #[verifier::external_body]
    fn register<C: Fn(JsValue, &mut Log) -> JsValue>(&mut self, callback: C, on: Ghost<On>) -> (r: (CallbackId, DropResource))
        requires
            forall|v: JsValue, log: &mut Log| #[trigger] call_requires(callback, (v, log)),
            forall|v: JsValue, log: &mut Log, r: JsValue| #[trigger] call_ensures(callback, (v, log), r) ==> answers(on@, v, *log, *final(log), r),
        ensures
            !old(self).handlers.contains_key(r.0), final(self).handlers == old(self).handlers.insert(r.0, on@), final(self).listens == old(self).listens,
            r.1.what@ == Releases::Handler(r.0),
    { unimplemented!() }
    #[verifier::external_body]
    fn callback_add(&mut self, id: DomId, name: &'static str, callback_id: CallbackId)
        ensures final(self).handlers == old(self).handlers, final(self).listens == old(self).listens.insert((id, name@, callback_id)),
    { unimplemented!() }
    #[verifier::external_body]
    fn callback_remove(&mut self, id: DomId, name: &'static str, callback_id: CallbackId)
        ensures final(self).handlers == old(self).handlers, final(self).listens == old(self).listens.remove((id, name@, callback_id)),
    { unimplemented!() }
}
spec fn released(what: Releases, a: Driver, b: Driver) -> bool {
    match what {
        Releases::Handler(c) => b.handlers == a.handlers.remove(c) && b.listens == a.listens,
        Releases::Listener(id, name, c) => b.handlers == a.handlers.remove(c) && b.listens == a.listens.remove((id, name, c)),
        Releases::Follows(_) => b == a,
    }
}
impl DropResource {
    #[verifier::external_body]
    fn new<F: FnOnce(&mut Driver)>(f: F, what: Ghost<Releases>) -> (r: Self)
        requires
            forall|d: &mut Driver| #[trigger] call_requires(f, (d,)),
            forall|d: &mut Driver| #[trigger] call_ensures(f, (d,), ()) ==> released(what@, *d, *final(d)),
        ensures r.what@ == what@,
    { unimplemented!() }
    #[verifier::external_body]
    fn off(self, d: &mut Driver)
        ensures released(self.what@, *old(d), *final(d)),
    { unimplemented!() }
}

//@file crates/vertigo/src/dom/callback.rs
spec fn matches_follows(d: Option<DropResource>, f: Option<int>) -> bool { match f { Some(c) => d matches Some(d) && d.what@ == Releases::Follows(c), None => d is None } }
#[verifier::reject_recursive_types(R)]
//@item enum Callback
pub enum Callback<R> {
    Basic(⟦Rc<dyn Fn() -> R + 'static>⇒Handler<(), R>⟧),
    Computed(Computed<⟦Rc<dyn Fn() -> R + 'static>⇒Handler<(), R>⟧>),
}
//@end
impl<R: Says> Callback<R> {
    pub closed spec fn who(self) -> Who { match self { Self::Basic(h) => h.who(), Self::Computed(c) => Who::Present(c.what()) } }
    pub closed spec fn follows(self) -> Option<int> { match self { Self::Computed(c) => Some(c.what()), _ => None } }
//@item impl Callback :: fn subscribe
    pub fn subscribe(self) -> «(r:» (⟦Rc<dyn Fn() -> R + 'static>⇒Handler<(), R>⟧, Option<DropResource>)«)
        ensures r.0.who() == self.who(), matches_follows(r.1, self.follows()),»
    {
        match self {
            Self::Basic(func) => (func, None),
            Self::Computed(computed) => {
                let ⟦current⇒mut current⟧ = ⟦Rc::new(ValueMut::new(None))⇒ValueMut::new(None)⟧;
«                let ghost what = computed.what();»

                let drop = computed.subscribe_all(⟦bind!(current, |new_fn| {⇒|new_fn: Handler<(), R>, current: &mut ValueMut<Option<Handler<(), R>>>| ensures (*final(current))@ == Some(new_fn) {⟧
                    current.set(Some(new_fn));
                }⟦)⇒⟧«, &mut current»);

                let callback = ⟦Rc::new⇒Handler::present⟧(move |«unit: (), current: &ValueMut<Option<Handler<(), R>>>, log: &mut Log»| -> «(r:» R «) requires current@ is Some ensures once(*old(log), *final(log), current@->0.who(), unit.told(), r.said())» {
                    let callback = ⟦current.get()⇒vx_get(current)⟧;

                    let Some(callback) = callback else {
                        ⟦unreachable!()⇒vx_unreachable()⟧;
                    };

                    callback⟦(⇒.call(⟧«(), log»)
                }«, current, Ghost(what)»);

                (callback, Some(drop))
            }
        }
    }
//@end
}
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
//@item enum Callback1
pub enum Callback1<T, R> {
    Basic(⟦Rc<dyn Fn(T) -> R + 'static>⇒Handler<T, R>⟧),
    Rc(⟦Rc<dyn Fn(T) -> R + 'static>⇒Handler<T, R>⟧),
    Computed(Computed<⟦Rc<dyn Fn(T) -> R + 'static>⇒Handler<T, R>⟧>),
}
//@end
impl<T: Told, R: Says> Callback1<T, R> {
    pub closed spec fn who(self) -> Who { match self { Self::Basic(h) => h.who(), Self::Rc(h) => h.who(), Self::Computed(c) => Who::Present(c.what()) } }
    pub closed spec fn follows(self) -> Option<int> { match self { Self::Computed(c) => Some(c.what()), _ => None } }
//@item impl Callback1 :: fn subscribe
    pub fn subscribe(self) -> «(r:» (⟦Rc<dyn Fn(T) -> R + 'static>⇒Handler<T, R>⟧, Option<DropResource>)«)
        ensures r.0.who() == self.who(), matches_follows(r.1, self.follows()),»
    {
        match self {
            Self::Basic(func) => (func, None),
            Self::Rc(func) => (func, None),
            Self::Computed(computed) => {
                let ⟦current⇒mut current⟧ = ⟦Rc::new(ValueMut::new(None))⇒ValueMut::new(None)⟧;
«                let ghost what = computed.what();»

                let drop = computed.subscribe_all(⟦bind!(current, |new_fn| {⇒|new_fn: Handler<T, R>, current: &mut ValueMut<Option<Handler<T, R>>>| ensures (*final(current))@ == Some(new_fn) {⟧
                    current.set(Some(new_fn));
                }⟦)⇒⟧«, &mut current»);

                let callback = ⟦Rc::new⇒Handler::present⟧(move |param: T«, current: &ValueMut<Option<Handler<T, R>>>, log: &mut Log»| -> «(r:» R «) requires current@ is Some ensures once(*old(log), *final(log), current@->0.who(), param.told(), r.said())» {
                    let callback = ⟦current.get()⇒vx_get(current)⟧;

                    let Some(callback) = callback else {
                        ⟦unreachable!()⇒vx_unreachable()⟧;
                    };

                    callback⟦(⇒.call(⟧param«, log»)
                }«, current, Ghost(what)»);

                (callback, Some(drop))
            }
        }
    }
//@end
}

//@file crates/vertigo/src/dom/dom_element.rs
// (the children and the classes of an element: units dom_nodes, element_class)
pub struct DomElement { id_dom: DomId, subscriptions: VecMut<DropResource> }
// what an element holds: nothing is given back, and what is added is
spec fn kept(a: DomElement, b: DomElement, more: Seq<Releases>) -> bool {
    &&& b.id_dom == a.id_dom && b.subscriptions@.len() == a.subscriptions@.len() + more.len()
    &&& b.subscriptions@.take(a.subscriptions@.len() as int) =~= a.subscriptions@
    &&& forall|i: int| 0 <= i < more.len() ==> (#[trigger] b.subscriptions@[a.subscriptions@.len() + i]).what@ == more[i]
}
spec fn following(f: Option<int>) -> Seq<Releases> { match f { Some(c) => seq![Releases::Follows(c)], None => Seq::empty() } }
// From here on, as long as the element is there, an event with this name is answered by it.  Both ends stand for the same handler,
// which was not there before; all of it is given back with the element.
spec fn heard(a: DomElement, b: DomElement, d: Driver, e: Driver, name: Seq<char>, on: On, follows: Option<int>) -> bool {
    exists|c: CallbackId| #[trigger] heard_as(a, b, d, e, name, on, follows, c)
}
spec fn heard_as(a: DomElement, b: DomElement, d: Driver, e: Driver, name: Seq<char>, on: On, follows: Option<int>, c: CallbackId) -> bool {
    &&& !d.handlers.contains_key(c) && e.handlers == d.handlers.insert(c, on)
    &&& e.listens == d.listens.insert((a.id_dom, name, c))
    &&& kept(a, b, following(follows) + seq![Releases::Listener(a.id_dom, name, c)])
}
impl DomElement {
//@item impl DomElement :: fn add_event_listener
    fn add_event_listener«<F: Fn(JsValue, &mut Log) -> JsValue>»(
        self,
        name: &'static str,
        callback: ⟦impl Fn(JsValue) -> JsValue + 'static⇒F⟧,
«        d: &mut Driver, on: Ghost<On>,»
    ) -> «(r:» Self«)
        requires
            forall|v: JsValue, log: &mut Log| #[trigger] call_requires(callback, (v, log)),
            forall|v: JsValue, log: &mut Log, r: JsValue| #[trigger] call_ensures(callback, (v, log), r) ==> answers(on@, v, *log, *final(log), r),
        ensures heard(self, r, *old(d), *final(d), name@, on@, None),»
    {
«        let mut this = self;
        let id_dom = this.id_dom;»
        let (callback_id, drop) = ⟦self.driver.inner.api.callback_store⇒d⟧.register(callback«, on»);
«        let ghost what = Releases::Listener(id_dom, name@, callback_id);»

        let drop_event = DropResource::new(move |«d: &mut Driver»| «ensures released(what, *old(d), *final(d))» {
            ⟦self.driver
                .inner
                .dom⇒d⟧
                .callback_remove(⟦self.id_dom⇒id_dom⟧, name, callback_id);
            drop.off(«d»);
        }«, Ghost(what)»);

        ⟦self.driver
            .inner
            .dom⇒d⟧
            .callback_add(⟦self.id_dom⇒id_dom⟧, name, callback_id);
        ⟦self⇒this⟧.subscriptions.push(drop_event);
«        assert(heard_as(self, this, *old(d), *d, name@, on@, None, callback_id));»
        ⟦self⇒this⟧
    }
//@end
//@item impl DomElement :: fn install_callback
    fn install_callback<R: ⟦'static⇒Says⟧>(
        ⟦&self⇒&mut self⟧,
        callback: ⟦impl Into<Callback<R>>⇒Callback<R>⟧,
    ) -> ⟦Rc<dyn Fn() -> R + 'static>⇒(r: Handler<(), R>)
        ensures r.who() == callback.who(), kept(*old(self), *final(self), following(callback.follows())),⟧
    {
«        let ghost cb = callback;»
        let callback: Callback<R> = callback⟦.into()⇒⟧;
        let (callback, drop) = callback.subscribe();
        if let Some(drop) = drop {
            self.subscriptions.push(drop);
        }
        callback
    }
//@end
//@item impl DomElement :: fn install_callback1
    fn install_callback1<T: ⟦'static⇒Told⟧, R: ⟦'static⇒Says⟧>(
        ⟦&self⇒&mut self⟧,
        callback: ⟦impl Into<Callback1<T, R>>⇒Callback1<T, R>⟧,
    ) -> ⟦Rc<dyn Fn(T) -> R + 'static>⇒(r: Handler<T, R>)
        ensures r.who() == callback.who(), kept(*old(self), *final(self), following(callback.follows())),⟧
    {
«        let ghost cb = callback;»
        let callback: Callback1<T, R> = callback⟦.into()⇒⟧;
        let (callback, drop) = callback.subscribe();
        if let Some(drop) = drop {
            self.subscriptions.push(drop);
        }
        callback
    }
//@end
//@item impl DomElement :: fn on_click
    pub fn on_click(self, on_click: ⟦impl Into<Callback<()>>⇒Callback<()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "click"@, On { kind: Kind::Plain, who: on_click.who() }, on_click.follows()),»
    {
«        let mut this = self; let ghost follows = on_click.follows();
        let ghost on = On { kind: Kind::Plain, who: on_click.who() };»
        let on_click = ⟦self⇒this⟧.install_callback(on_click);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_click.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("click", move |⟦_data⇒_data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, _data, *old(log), *final(log), r)» {
            on_click⟦(⇒.call(⟧«(), log»);
            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "click"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_mouse_down
    pub fn on_mouse_down(self, on_mouse_down: ⟦impl Into<Callback<bool>>⇒Callback<bool>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "mousedown"@, On { kind: Kind::Prevents, who: on_mouse_down.who() }, on_mouse_down.follows()),»
    {
«        let mut this = self; let ghost follows = on_mouse_down.follows();
        let ghost on = On { kind: Kind::Prevents, who: on_mouse_down.who() };»
        let on_mouse_down = ⟦self⇒this⟧.install_callback(on_mouse_down);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_mouse_down.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("mousedown", move |⟦_data⇒_data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, _data, *old(log), *final(log), r)» {
            if on_mouse_down⟦(⇒.call(⟧«(), log») {
                JsValue::True
            } else {
                JsValue::False
            }
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "mousedown"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_mouse_up
    pub fn on_mouse_up(self, on_mouse_up: ⟦impl Into<Callback<bool>>⇒Callback<bool>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "mouseup"@, On { kind: Kind::Prevents, who: on_mouse_up.who() }, on_mouse_up.follows()),»
    {
«        let mut this = self; let ghost follows = on_mouse_up.follows();
        let ghost on = On { kind: Kind::Prevents, who: on_mouse_up.who() };»
        let on_mouse_up = ⟦self⇒this⟧.install_callback(on_mouse_up);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_mouse_up.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("mouseup", move |⟦_data⇒_data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, _data, *old(log), *final(log), r)» {
            if on_mouse_up⟦(⇒.call(⟧«(), log») {
                JsValue::True
            } else {
                JsValue::False
            }
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "mouseup"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_mouse_enter
    pub fn on_mouse_enter(self, on_mouse_enter: ⟦impl Into<Callback<()>>⇒Callback<()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "mouseenter"@, On { kind: Kind::Plain, who: on_mouse_enter.who() }, on_mouse_enter.follows()),»
    {
«        let mut this = self; let ghost follows = on_mouse_enter.follows();
        let ghost on = On { kind: Kind::Plain, who: on_mouse_enter.who() };»
        let on_mouse_enter = ⟦self⇒this⟧.install_callback(on_mouse_enter);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_mouse_enter.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("mouseenter", move |⟦_data⇒_data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, _data, *old(log), *final(log), r)» {
            on_mouse_enter⟦(⇒.call(⟧«(), log»);
            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "mouseenter"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_mouse_leave
    pub fn on_mouse_leave(self, on_mouse_leave: ⟦impl Into<Callback<()>>⇒Callback<()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "mouseleave"@, On { kind: Kind::Plain, who: on_mouse_leave.who() }, on_mouse_leave.follows()),»
    {
«        let mut this = self; let ghost follows = on_mouse_leave.follows();
        let ghost on = On { kind: Kind::Plain, who: on_mouse_leave.who() };»
        let on_mouse_leave = ⟦self⇒this⟧.install_callback(on_mouse_leave);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_mouse_leave.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("mouseleave", move |⟦_data⇒_data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, _data, *old(log), *final(log), r)» {
            on_mouse_leave⟦(⇒.call(⟧«(), log»);
            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "mouseleave"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_input
    pub fn on_input(self, on_input: ⟦impl Into<Callback1<String, ()>>⇒Callback1<String, ()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "input"@, On { kind: Kind::Text, who: on_input.who() }, on_input.follows()),»
    {
«        let mut this = self; let ghost follows = on_input.follows();
        let ghost on = On { kind: Kind::Text, who: on_input.who() };»
        let on_input = ⟦self⇒this⟧.install_callback1(on_input);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_input.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("input", move |⟦data⇒data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, data, *old(log), *final(log), r)» {
            if let JsValue::String(text) = data {
                on_input⟦(⇒.call(⟧text«, log»);
            } else {
            }

            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "input"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_change
    pub fn on_change(self, on_change: ⟦impl Into<Callback1<String, ()>>⇒Callback1<String, ()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "change"@, On { kind: Kind::Text, who: on_change.who() }, on_change.follows()),»
    {
«        let mut this = self; let ghost follows = on_change.follows();
        let ghost on = On { kind: Kind::Text, who: on_change.who() };»
        let on_change = ⟦self⇒this⟧.install_callback1(on_change);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_change.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("change", move |⟦data⇒data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, data, *old(log), *final(log), r)» {
            if let JsValue::String(text) = data {
                on_change⟦(⇒.call(⟧text«, log»);
            } else {
            }

            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "change"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_blur
    pub fn on_blur(self, on_blur: ⟦impl Into<Callback<()>>⇒Callback<()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "blur"@, On { kind: Kind::Plain, who: on_blur.who() }, on_blur.follows()),»
    {
«        let mut this = self; let ghost follows = on_blur.follows();
        let ghost on = On { kind: Kind::Plain, who: on_blur.who() };»
        let on_blur = ⟦self⇒this⟧.install_callback(on_blur);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_blur.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("blur", move |⟦_data⇒_data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, _data, *old(log), *final(log), r)» {
            on_blur⟦(⇒.call(⟧«(), log»);
            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "blur"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_key_down
    pub fn on_key_down(self, on_key_down: ⟦impl Into<Callback1<KeyDownEvent, bool>>⇒Callback1<KeyDownEvent, bool>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "keydown"@, On { kind: Kind::Key, who: on_key_down.who() }, on_key_down.follows()),»
    {
«        let mut this = self; let ghost follows = on_key_down.follows();
        let ghost on = On { kind: Kind::Key, who: on_key_down.who() };»
        let on_key_down = ⟦self⇒this⟧.install_callback1(on_key_down);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_key_down.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("keydown", move |⟦data⇒data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, data, *old(log), *final(log), r) {» match get_key_down_event(data) {
            Ok(event) => {
                let prevent_default = on_key_down⟦(⇒.call(⟧event«, log»);

                match prevent_default {
                    true => JsValue::True,
                    false => JsValue::False,
                }
            }
            Err(error) => {
                JsValue::False
            }
        } «}»«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "keydown"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_dropfile
    pub fn on_dropfile(self, on_dropfile: ⟦impl Into<Callback1<DropFileEvent, ()>>⇒Callback1<DropFileEvent, ()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "drop"@, On { kind: Kind::Files, who: on_dropfile.who() }, on_dropfile.follows()),»
    {
«        let mut this = self; let ghost follows = on_dropfile.follows();
        let ghost on = On { kind: Kind::Files, who: on_dropfile.who() };»
        let on_dropfile = ⟦self⇒this⟧.install_callback1(on_dropfile);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_dropfile.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("drop", move |⟦data⇒data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, data, *old(log), *final(log), r)» {
            let params = data.convert(|⟦mut params⇒params: JsValueListDecoder⟧| «-> (o: Result<DropFileEvent, String>) ensures dropped(params.items(), o)» {
«                let mut params = params; let ghost all = params.items();»
                let files = params.get_vec("drop file", |⟦item⇒item: JsValue⟧| «-> (o: Result<DropFileItem, String>) ensures filed(item, o)» {
                    item.convert(|⟦mut item⇒item: JsValueListDecoder⟧| «-> (o: Result<DropFileItem, String>) ensures named(item.items(), o)» {
«                        let mut item = item;»
                        let name = item.get_string("name")?;
                        let data = item.get_buffer("data")?;

                        Ok(DropFileItem::new(name, data))
                    })
                })?;

                Ok(DropFileEvent::new(files))
            });
«            proof { lemma_dropped(data, params); }»

            match params {
                Ok(params) => {
                    on_dropfile⟦(⇒.call(⟧params«, log»);
                }
                Err(error) => {
                }
            };

            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "drop"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn hook_key_down
    pub fn hook_key_down(self, on_hook_key_down: ⟦impl Into<Callback1<KeyDownEvent, bool>>⇒Callback1<KeyDownEvent, bool>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "hook_keydown"@, On { kind: Kind::Key, who: on_hook_key_down.who() }, on_hook_key_down.follows()),»
    {
«        let mut this = self; let ghost follows = on_hook_key_down.follows();
        let ghost on = On { kind: Kind::Key, who: on_hook_key_down.who() };»
        let on_hook_key_down = ⟦self⇒this⟧.install_callback1(on_hook_key_down);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_hook_key_down.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("hook_keydown", move |⟦data⇒data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, data, *old(log), *final(log), r) {» match get_key_down_event(data) {
            Ok(event) => {
                let prevent_default = on_hook_key_down⟦(⇒.call(⟧event«, log»);

                match prevent_default {
                    true => JsValue::True,
                    false => JsValue::False,
                }
            }
            Err(error) => {
                JsValue::False
            }
        } «}»«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "hook_keydown"@, on, follows); }
        r»
    }
//@end
//@item impl DomElement :: fn on_load
    pub fn on_load(self, on_load: ⟦impl Into<Callback<()>>⇒Callback<()>⟧«, d: &mut Driver») -> «(r:» Self«)
        ensures heard(self, r, *old(d), *final(d), "load"@, On { kind: Kind::Plain, who: on_load.who() }, on_load.follows()),»
    {
«        let mut this = self; let ghost follows = on_load.follows();
        let ghost on = On { kind: Kind::Plain, who: on_load.who() };»
        let on_load = ⟦self⇒this⟧.install_callback(on_load);
«        let ghost w1 = this; let ghost d1 = *d;
        let ghost who = on_load.who();»

        «let r = »⟦self⇒this⟧.add_event_listener("load", move |⟦_data⇒_data: JsValue, log: &mut Log⟧| «-> (r: JsValue) ensures answers(on, _data, *old(log), *final(log), r)» {
            on_load⟦(⇒.call(⟧«(), log»);
            JsValue::Undefined
        }«, d, Ghost(on)»)«;
        proof { lemma_heard(self, w1, r, d1, *d, "load"@, on, follows); }
        r»
    }
//@end
}
proof fn lemma_heard(a: DomElement, b: DomElement, c: DomElement, d: Driver, e: Driver, name: Seq<char>, on: On, follows: Option<int>)
    requires kept(a, b, following(follows)), heard(b, c, d, e, name, on, None),
    ensures heard(a, c, d, e, name, on, follows),
{
    let id = choose|id: CallbackId| #[trigger] heard_as(b, c, d, e, name, on, None, id);
    let l = Releases::Listener(a.id_dom, name, id);
    let n = a.subscriptions@.len() as int;
    let more = following(follows) + seq![l];
    assert(following(None) + seq![l] =~= seq![l]);
    let m = b.subscriptions@.len() as int;
    assert(c.subscriptions@.take(m) =~= b.subscriptions@);
    assert forall|i: int| 0 <= i < more.len() implies (#[trigger] c.subscriptions@[n + i]).what@ == more[i] by {
        if i < following(follows).len() {
            assert(c.subscriptions@.take(m)[n + i] == c.subscriptions@[n + i]);
            assert(b.subscriptions@[n + i].what@ == following(follows)[i]);
        } else {
            assert(n + i == m + 0);
            assert(c.subscriptions@[m + 0].what@ == seq![l][0]);
        }
    }
    assert(c.subscriptions@.take(n) =~= a.subscriptions@) by {
        assert forall|i: int| 0 <= i < n implies c.subscriptions@[i] == a.subscriptions@[i] by {
            assert(c.subscriptions@.take(m)[i] == c.subscriptions@[i]);
            assert(b.subscriptions@.take(n)[i] == b.subscriptions@[i]);
        }
    }
    assert(heard_as(a, c, d, e, name, on, follows, id));
}
// reading a list of files
spec fn named(l: Seq<JsValue>, o: Result<DropFileItem, String>) -> bool {
    let ok = l.len() >= 2 && l[0] is String && l[1] is Vec;
    &&& o is Ok == ok
    &&& o matches Ok(f) ==> f.name == l[0]->String_0 && *f.data == l[1]->Vec_0
}
spec fn filed(v: JsValue, o: Result<DropFileItem, String>) -> bool { &&& o is Ok == is_file(v) &&& o matches Ok(f) ==> file_of(v, f) }
spec fn dropped(l: Seq<JsValue>, o: Result<DropFileEvent, String>) -> bool {
    let ok = l.len() >= 1 && l[0] is List && forall|i: int| 0 <= i < l[0]->List_0@.len() ==> is_file(#[trigger] l[0]->List_0@[i]);
    &&& o is Ok == ok
    &&& o matches Ok(e) ==> e.items@.len() == l[0]->List_0@.len() && forall|i: int| 0 <= i < e.items@.len() ==> file_of(#[trigger] l[0]->List_0@[i], e.items@[i])
}
proof fn lemma_dropped(data: JsValue, o: Result<DropFileEvent, String>)
    requires data is List ==> dropped(data->List_0@, o), !(data is List) ==> o is Err,
    ensures o is Ok == are_files(data), o matches Ok(e) ==> files_of(data, e),
{
}
//@item fn get_key_down_event
fn get_key_down_event(data: JsValue) -> «(r:» Result<KeyDownEvent, String>«)
    ensures match key_of(data) { Some(k) => r == Ok::<KeyDownEvent, String>(k), None => r is Err },»
{
    data.convert(|⟦mut params⇒params: JsValueListDecoder⟧| «-> (o: Result<KeyDownEvent, String>)
        ensures match key_in(params.items()) { Some(k) => o == Ok::<KeyDownEvent, String>(k), None => o is Err }» {
«        let mut params = params; let ghost l = params.items();»
        let key = params.get_string("key")?;
        let code = params.get_string("code")?;
        let alt_key = params.get_bool("altKey")?;
        let ctrl_key = params.get_bool("ctrlKey")?;
        let shift_key = params.get_bool("shiftKey")?;
        let meta_key = params.get_bool("metaKey")?;
        params.expect_no_more()?;

        Ok(KeyDownEvent {
            key,
            code,
            alt_key,
            ctrl_key,
            shift_key,
            meta_key,
        })
    })
}
//@end
pub closed spec fn key_in(l: Seq<JsValue>) -> Option<KeyDownEvent> {
    if l.len() == 6 && l[0] is String && l[1] is String && flag(l[2]) && flag(l[3]) && flag(l[4]) && flag(l[5]) {
        Some(KeyDownEvent { key: l[0]->String_0, code: l[1]->String_0, alt_key: l[2] is True, ctrl_key: l[3] is True, shift_key: l[4] is True, meta_key: l[5] is True })
    } else { None }
}

}
fn main() {}
