#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms, vstd::laws_cmp::group_laws_cmp};

//@include struct_mut.inc
//@include btree_map_mut.inc

//@file crates/vertigo/src/computed/struct_mut/counter_mut.rs
//@item struct CounterMut
pub struct CounterMut {
    «pub» counter: InnerValue<u32>,
}
//@end
impl CounterMut {
    pub closed spec fn view(self) -> u32 { self.counter.value }
//@item impl CounterMut :: fn new
    pub fn new(init: u32) -> «(r:» CounterMut «)
        ensures r@ == init,»
    {
        CounterMut {
            counter: InnerValue::new(init),
        }
    }
//@end
//@item impl CounterMut :: fn get_next
    pub fn get_next(⟦&self⇒&mut self⟧) -> «(r:» u32 «)
        requires old(self)@ < u32::MAX,
        ensures r == old(self)@, final(self)@ == old(self)@ + 1,»
    {
        let state = self.counter.get_mut();
        let id = *state;
        *state += 1;
        id
    }
//@end
}

// ---- the handle: its function is run once ---------------------------------------------------------------------------
// what running the function of a handle does to the store it was given for: it removes one key
pub struct DropResource<K> { pub removes: Ghost<K> }
impl<K> DropResource<K> {
    // the closure body is verified to remove exactly that key from whatever the store holds when it is run
    fn for_btree<V, F: FnOnce(&mut BTreeMapMut<u32, V>)>(key: Ghost<u32>, f: F) -> (r: DropResource<u32>)
        requires
            forall|m: &mut BTreeMapMut<u32, V>| call_requires(f, (m,)),
            forall|m: &mut BTreeMapMut<u32, V>| #[trigger] call_ensures(f, (m,), ()) ==> (*final(m))@ == (*m)@.remove(key@),
        ensures r.removes == key,
    { DropResource { removes: key } }
}

//@include drop_resource.inc
// ---- event emitters -------------------------------------------------------------------------------------------------
pub struct Log<T> { pub calls: Ghost<Seq<(Listener, T)>> }
#[verifier::external_body]
pub struct Listener { _p: () }
impl Clone for Listener {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Listener {
    // the listener may add and release listeners and trigger again: what it does to the list is arbitrary
    #[verifier::external_body]
    fn call<T>(&self, value: T, list: &mut BTreeMapMut<u32, Listener>, counter: &mut CounterMut, log: &mut Log<T>)
        ensures final(log).calls@ == old(log).calls@.push((*self, value)),
    { unimplemented!() }
}
type Entry<'a, V> = (&'a u32, &'a V);
// std: a BTreeMap is iterated in increasing order of keys, each entry once
pub open spec fn ascending<V>(s: Seq<(u32, V)>, m: Map<u32, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_pair(s[i].0, s[i].1)
    &&& forall|k: u32| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}

#[verifier::external_body]
fn vx_btree_iter<'a, V>(m: &'a BTreeMap<u32, V>) -> (r: VxIter<(&'a u32, &'a V)>)
    ensures ascending(pairs(r@), m@),
{ VxIter(m.iter().collect()) }
pub open spec fn pairs<'a, V>(s: Seq<(&'a u32, &'a V)>) -> Seq<(u32, V)> { s.map_values(|e: (&'a u32, &'a V)| (*e.0, *e.1)) }
pub struct VxIter<T>(Vec<T>);
impl<T> VxIter<T> {
    pub closed spec fn view(self) -> Seq<T> { self.0@ }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    {
        let mut out: Vec<U> = Vec::new();
        let ghost s = self@;
        for x in it: self.0
            invariant
                it.seq() == s,
                out@.len() == it.index@,
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < out@.len() ==> call_ensures(f, (s[i],), #[trigger] out@[i]),
        {
            out.push(f(x));
        }
        VxIter(out)
    }
    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@,
    { self.0 }
}
// the listeners l are those of m, in increasing order of their keys
pub open spec fn in_order(l: Seq<Listener>, m: Map<u32, Listener>) -> bool {
    exists|s: Seq<(u32, Listener)>| #[trigger] ascending(s, m) && s.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == s[i].1
}
pub open spec fn called<T: Clone>(a: Seq<(Listener, T)>, b: Seq<(Listener, T)>, l: Seq<Listener>, n: int, value: T) -> bool {
    &&& b.len() == a.len() + n
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] b[a.len() + i]).0 == l[i] && cloned(value, b[a.len() + i].1)
}

//@file crates/vertigo/src/driver_module/event_emitter.rs
//@item struct EventEmitter
pub struct EventEmitter⟦<T: Clone + 'static>⇒⟧ {
    counter: ⟦Rc<CounterMut>⇒CounterMut⟧,
    list: ⟦Rc<BTreeMapMut<u32, Rc<dyn Fn(T) + 'static>>>⇒BTreeMapMut<u32, Listener>⟧,
}
//@end
impl EventEmitter {
    // keys are handed out in increasing order
    spec fn wf(self) -> bool { forall|k: u32| #[trigger] self.list@.contains_key(k) ==> k < self.counter@ }
//@item impl Default for EventEmitter :: fn default
    fn default() -> «(r:» Self «)
        ensures r.wf(), r.list@ == Map::<u32, Listener>::empty(),»
    {
        EventEmitter {
            counter: ⟦Rc::new(CounterMut::new(1))⇒CounterMut::new(1)⟧,
            list: ⟦Rc::new(BTreeMapMut::new())⇒BTreeMapMut::new()⟧,
        }
    }
//@end
//@item impl EventEmitter :: fn add
    pub fn add⟦<F: Fn(T) + 'static>⇒⟧(⟦&self⇒&mut self⟧, callback: ⟦F⇒Listener⟧) -> «(r:» ⟦DropResource⇒DropResource<u32>⟧ «)
        requires old(self).wf(), old(self).counter@ < u32::MAX,
        ensures
            final(self).wf(),
            // last in the order, under a key of its own, which is what the handle removes
            !old(self).list@.contains_key(r.removes@),
            forall|k: u32| #[trigger] old(self).list@.contains_key(k) ==> k < r.removes@,
            final(self).list@ == old(self).list@.insert(r.removes@, callback),»
    {
        let id = self.counter.get_next();

        self.list.insert(id, ⟦Rc::new(callback)⇒callback⟧);

        DropResource⟦::new⇒::<u32>::for_btree::<Listener, _>⟧(«Ghost(id), »{
            ⟦let list = self.list.clone();⇒⟧
            move ⟦||⇒|list: &mut BTreeMapMut<u32, Listener>| ensures final(list)@ == old(list)@.remove(id)⟧ {
                list.remove(&id);
            }
        })
    }
//@end
//@item impl EventEmitter :: fn trigger
    pub fn trigger«<T: Clone>»(⟦&self⇒&mut self⟧, value: T«, log: &mut Log<T>»)
        «ensures exists|l: Seq<Listener>| in_order(l, old(self).list@) && called(old(log).calls@, final(log).calls@, l, l.len() as int, value),»
    {
        let callback_list = self.list.map(|state«: &BTreeMap<u32, Listener>»| «-> (o: Vec<Listener>) ensures in_order(o@, state@)» {
            ⟦state
                .iter()⇒let i = vx_btree_iter(state); let ghost s = pairs(i@); let o = i⟧
                .map(|⟦(_, callback)⇒e: (&u32, &Listener)⟧| «-> (o: Listener) ensures o == *e.1 { let callback = e.1; »callback.clone()«}»)
                ⟦.collect::<Vec<_>>()⇒.collect()⟧«;
            proof { assert(forall|j: int| 0 <= j < o@.len() ==> #[trigger] o@[j] == s[j].1); }
            o»
        });
«        let ghost a = log.calls@;
        let ghost l = callback_list@;»
        for callback in «it:» callback_list
            «invariant it.seq() == l, called(a, log.calls@, l, it.index@ as int, value),»
        {
            ⟦callback(value.clone())⇒callback.call(value.clone(), &mut self.list, &mut self.counter, log)⟧;
        }
    }
//@end
}
} // verus!
fn main() {}
