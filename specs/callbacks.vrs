#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms, vstd::laws_cmp::group_laws_cmp, cid::axiom_callback_id_key};

//@include struct_mut.inc
//@include hash_map_mut.inc

// ---- the handle: its function is run once ---------------------------------------------------------------------------
// what running the function of a handle does to the store it was given for: it removes one key
pub struct DropResource<K> { pub removes: Ghost<K> }
impl<K> DropResource<K> {
    // the closure body is verified to remove exactly that key from whatever the store holds when it is run
    fn for_hash<V, F: FnOnce(&mut HashMapMut<CallbackId, V>)>(key: Ghost<CallbackId>, f: F) -> (r: DropResource<CallbackId>)
        requires
            forall|m: &mut HashMapMut<CallbackId, V>| call_requires(f, (m,)),
            forall|m: &mut HashMapMut<CallbackId, V>| #[trigger] call_ensures(f, (m,), ()) ==> (*final(m))@ == (*m)@.remove(key@),
        ensures r.removes == key,
    { DropResource { removes: key } }
}

//@include drop_resource.inc
mod cid {
    use super::*;
    pub broadcast axiom fn axiom_callback_id_key()
        ensures #[trigger] obeys_key_model::<CallbackId>();
}
//@file crates/vertigo/src/driver_module/api/callbacks.rs
#[derive(PartialEq, Eq, Hash, Clone, Copy)]
//@item struct CallbackId
pub struct CallbackId(u64);
//@end

// the program-wide source of identifiers, and the log of the calls that were made
pub struct Ids { pub next: u64, pub calls: Ghost<Seq<(Callback, JsValue)>> }
impl Ids {
    fn fetch_add(&mut self, n: u64) -> (r: u64)
        requires old(self).next + n <= u64::MAX,
        ensures r == old(self).next, final(self).next == old(self).next + n, final(self).calls == old(self).calls,
    {
        let r = self.next;
        self.next = r + n;
        r
    }
}
impl CallbackId {
//@item impl CallbackId :: fn new
    pub fn new(«w: &mut Ids») -> «(r:» CallbackId «)
        requires old(w).next < u64::MAX,
        ensures r.0 == old(w).next, final(w).next == old(w).next + 1, final(w).calls == old(w).calls,»
    {
        CallbackId(
            ⟦COUNTER.fetch_add(1, Ordering::Relaxed)⇒w.fetch_add(1)⟧
        )
    }
//@end
//@item impl CallbackId :: fn as_u64
    pub fn as_u64(&self) -> «(r:» u64 «) ensures r == self.0,»
    {
        self.0
    }
//@end
//@item impl CallbackId :: fn from_u64
    pub fn from_u64(id: u64) -> «(r:» Self «) ensures r.0 == id,»
    {
        Self(id)
    }
//@end
}
#[verifier::external_body]
pub struct JsVal { _p: () }
pub enum JsValue { Undefined, Other(JsVal) }

#[verifier::external_body]
pub struct Callback { _p: () }
impl Clone for Callback {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Callback {
    // the callback may register, release and call
    #[verifier::external_body]
    fn call(&self, value: JsValue, data: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids) -> (r: JsValue)
        ensures ran(old(w).calls@, final(w).calls@, *self, value),
    { unimplemented!() }
    // Rc::new of a closure which, when called, calls g
    #[verifier::external_body]
    fn of<F: Fn(JsValue, &mut HashMapMut<CallbackId, Callback>, &mut Ids) -> JsValue>(g: Ghost<Callback>, f: F) -> (r: Callback)
        requires
            forall|v: JsValue, d: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids| call_requires(f, (v, d, w)),
            forall|v: JsValue, d: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids, r: JsValue|
                #[trigger] call_ensures(f, (v, d, w), r) ==> ran((*w).calls@, (*final(w)).calls@, g@, v),
        ensures r == g@,
    { unimplemented!() }
    // the same for a callback that is called once: it also releases its own handle
    #[verifier::external_body]
    fn of_once<F: Fn(JsValue, &mut Slot, &mut HashMapMut<CallbackId, Callback>, &mut Ids) -> JsValue>(g: Ghost<Callback>, f: F) -> (r: Callback)
        requires
            forall|v: JsValue, s: &mut Slot, d: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids| call_requires(f, (v, s, d, w)),
            forall|v: JsValue, s: &mut Slot, d: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids, r: JsValue|
                #[trigger] call_ensures(f, (v, s, d, w), r) ==> ran((*w).calls@, (*final(w)).calls@, g@, v) && (*final(s))@ is None,
        ensures r == once(g@),
    { unimplemented!() }
}
type Slot = ValueMut<Option<DropResource<CallbackId>>>;
pub uninterp spec fn once(c: Callback) -> Callback;
// a callback that is also given its identifier
#[verifier::external_body]
pub struct CallbackWithId { _p: () }
pub uninterp spec fn bound(c: CallbackWithId, id: CallbackId) -> Callback;
impl CallbackWithId {
    #[verifier::external_body]
    fn call(&self, id: CallbackId, value: JsValue, data: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids) -> (r: JsValue)
        ensures ran(old(w).calls@, final(w).calls@, bound(*self, id), value),
    { unimplemented!() }
}
// the first thing that happened was this call
pub open spec fn ran(a: Seq<(Callback, JsValue)>, b: Seq<(Callback, JsValue)>, c: Callback, v: JsValue) -> bool {
    b.len() > a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && b[a.len() as int] == (c, v)
}

//@item struct CallbackStore
pub struct CallbackStore {
    data: ⟦Rc<HashMapMut<CallbackId, Rc<CallBackFn>>>⇒HashMapMut<CallbackId, Callback>⟧,
}
//@end
impl CallbackStore {
    // every identifier in the store has been handed out
    spec fn wf(self, w: Ids) -> bool { forall|k: CallbackId| #[trigger] self.data@.contains_key(k) ==> k.0 < w.next }
//@item impl CallbackStore :: fn new
    pub fn new() -> «(r:» CallbackStore «)
        ensures r.data@ == Map::<CallbackId, Callback>::empty(),»
    {
        CallbackStore {
            data: ⟦Rc::new(HashMapMut::new())⇒HashMapMut::new()⟧,
        }
    }
//@end
//@item impl CallbackStore :: fn register
    pub fn register⟦<C: Fn(JsValue) -> JsValue + 'static>⇒⟧(
        ⟦&self⇒&mut self⟧,
        callback: ⟦C⇒Callback⟧,
«        w: &mut Ids,»
    ) -> «(r:» (CallbackId, ⟦DropResource⇒DropResource<CallbackId>⟧)«)
        requires old(self).wf(*old(w)), old(w).next < u64::MAX,
        ensures
            final(self).wf(*final(w)), final(w).next == old(w).next + 1, r.0.0 == old(w).next,
            !old(self).data@.contains_key(r.0),
            final(self).data@ == old(self).data@.insert(r.0, callback),
            r.1.removes@ == r.0,»
    {
        let callback = ⟦Rc::new(callback)⇒callback⟧;
        let id = CallbackId::new(«w»);

        self.data.insert(id, callback);

        let drop = DropResource⟦::new⇒::<CallbackId>::for_hash::<Callback, _>⟧(«Ghost(id), »{
            ⟦let data = self.data.clone();⇒⟧
            move ⟦||⇒|data: &mut HashMapMut<CallbackId, Callback>| ensures final(data)@ == old(data)@.remove(id)⟧ {
                data.remove(&id);
            }
        });

        (id, drop)
    }
//@end
//@item impl CallbackStore :: fn register_with_id
    pub fn register_with_id⟦<C: Fn(CallbackId, JsValue) -> JsValue + 'static>⇒⟧(
        ⟦&self⇒&mut self⟧,
        callback: ⟦C⇒CallbackWithId⟧,
«        w: &mut Ids,»
    ) -> «(r:» (CallbackId, ⟦DropResource⇒DropResource<CallbackId>⟧)«)
        requires old(self).wf(*old(w)), old(w).next < u64::MAX,
        ensures
            final(self).wf(*final(w)), final(w).next == old(w).next + 1, r.0.0 == old(w).next,
            !old(self).data@.contains_key(r.0),
            final(self).data@ == old(self).data@.insert(r.0, bound(callback, r.0)),
            r.1.removes@ == r.0,»
    {
        let id = CallbackId::new(«w»);
        let callback = ⟦Rc::new(callback)⇒callback⟧;

        self.data
            .insert(id, ⟦Rc::new(move |data|⇒Callback::of(Ghost(bound(callback, id)), move |data: JsValue, store: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids| -> (r: JsValue) ensures ran(old(w).calls@, final(w).calls@, bound(callback, id), data) {⟧ callback⟦(id, data)⇒.call(id, data, store, w) }⟧));

        let drop = DropResource⟦::new⇒::<CallbackId>::for_hash::<Callback, _>⟧(«Ghost(id), »{
            ⟦let data = self.data.clone();⇒⟧
            move ⟦||⇒|data: &mut HashMapMut<CallbackId, Callback>| ensures final(data)@ == old(data)@.remove(id)⟧ {
                data.remove(&id);
            }
        });

        (id, drop)
    }
//@end
//@item impl CallbackStore :: fn register_once
    pub fn register_once⟦<C: Fn(JsValue) -> JsValue + 'static>⇒⟧(⟦&self⇒&mut self⟧, callback: ⟦C⇒Callback⟧«, w: &mut Ids») -> «(r:» CallbackId «)
        requires old(self).wf(*old(w)), old(w).next < u64::MAX,
        ensures
            final(self).wf(*final(w)), r.0 == old(w).next,
            !old(self).data@.contains_key(r),
            final(self).data@ == old(self).data@.insert(r, once(callback)),»
    {
        let ⟦drop_value⇒mut drop_value: Slot⟧ = ⟦Rc::new(ValueMut::new(None))⇒ValueMut::new(None)⟧;

        let (callback_id, drop) = self.register(⟦{
            let drop_value = drop_value.clone();

            move |node| {⇒Callback::of_once(Ghost(callback), move |node: JsValue, drop_value: &mut Slot, store: &mut HashMapMut<CallbackId, Callback>, w: &mut Ids| -> (r: JsValue) ensures ran(old(w).calls@, final(w).calls@, callback, node), final(drop_value)@ is None {⟧
                let result = callback⟦(node)⇒.call(node, store, w)⟧;
                drop_value.set(None);
                result
            }
        ⟦}⇒)⟧«, w»);

        drop_value.set(Some(drop));
«        // what the callback releases is its own registration
        assert(drop_value@ is Some && drop_value@->0.removes@ == callback_id);»

        callback_id
    }
//@end
//@item impl CallbackStore :: fn call
    pub fn call(⟦&self⇒&mut self⟧, callback_id: CallbackId, value: JsValue«, w: &mut Ids») -> «(r:» JsValue «)
        ensures
            old(self).data@.contains_key(callback_id) ==> ran(old(w).calls@, final(w).calls@, old(self).data@[callback_id], value),
            !old(self).data@.contains_key(callback_id) ==> r is Undefined && *final(w) == *old(w) && final(self).data@ == old(self).data@,»
    {
        let callback = self.data.get(&callback_id);

        match callback {
            Some(callback) => ⟦callback(value)⇒callback.call(value, &mut self.data, w)⟧,
            None => {
                JsValue::Undefined
            }
        }
    }
//@end
}

} // verus!
fn main() {}
