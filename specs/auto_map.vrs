#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms, vstd::laws_cmp::group_laws_cmp};

//@include struct_mut.inc
//@include hash_map_mut.inc

// ---- the keyed lazy map ---------------------------------------------------------------------------------------------
// what the creation function was called for, and what it returned
pub struct Made<K, V> { pub calls: Ghost<Seq<K>>, pub made: Ghost<Map<K, V>>, pub busy: Ghost<Set<K>> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Create<K, V> { _p: (K, V) }
// each key created at most once; what is stored is a clone of what was created; busy: keys being created
spec fn once_each<K, V: Clone>(m: Map<K, V>, w: Made<K, V>, busy: Set<K>) -> bool {
    &&& w.calls@.no_duplicates()
    &&& forall|k: K| #[trigger] w.calls@.contains(k) <==> m.contains_key(k) || busy.contains(k)
    &&& forall|k: K| #[trigger] busy.contains(k) ==> !m.contains_key(k)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> w.made@.contains_key(k) && cloned(w.made@[k], m[k])
}
impl<K: Eq + Hash + Clone, V: Clone> Create<K, V> {
    // the creation function may read other keys of the map, but none that is being created
    #[verifier::external_body]
    fn call(&self, key: &K, values: &mut HashMapMut<K, V>, w: &mut Made<K, V>) -> (r: V)
        requires
            once_each(old(values)@, *old(w), old(w).busy@),
            !old(values)@.contains_key(*key), !old(w).busy@.contains(*key),
        ensures
            final(w).busy == old(w).busy,
            once_each(final(values)@, *final(w), old(w).busy@.insert(*key)),
            final(w).made@.contains_key(*key), final(w).made@[*key] == r,
            old(values)@.submap_of(final(values)@),
            old(w).calls@.push(*key).is_prefix_of(final(w).calls@),
    { unimplemented!() }
}
//@file crates/vertigo/src/computed/auto_map.rs
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@item struct AutoMap
pub struct AutoMap<K, V> {
    id: u64,
    create: ⟦Rc<CreateType<K, V>>⇒Create<K, V>⟧,
    values: ⟦Rc<HashMapMut<K, V>>⇒HashMapMut<K, V>⟧,
}
//@end
#[verifier::external_body]
fn get_unique_id() -> u64 { unimplemented!() }
impl<K: Eq + Hash + Clone, V: Clone> AutoMap<K, V> {
//@item impl AutoMap :: fn new
    pub fn new⟦<C: Fn(&AutoMap<K, V>, &K) -> V + 'static>⇒⟧(create: ⟦C⇒Create<K, V>⟧) -> «(r:» AutoMap<K, V> «)
        ensures r.values@ == Map::<K, V>::empty(),»
    {
        AutoMap {
            id: get_unique_id(),
            create: ⟦Rc::new(Box::new(create))⇒create⟧,
            values: ⟦Rc::new(HashMapMut::new())⇒HashMapMut::new()⟧,
        }
    }
//@end
//@item impl AutoMap :: fn get
    pub fn get(⟦&self⇒&mut self⟧, key: &K«, w: &mut Made<K, V>») -> «(r:» V «)
        requires
            obeys_key_model::<K>(), forall|a: K, b: K| #[trigger] call_ensures(K::clone, (&a,), b) ==> a == b,
            once_each(old(self).values@, *old(w), old(w).busy@), !old(w).busy@.contains(*key),
        ensures
            final(w).busy == old(w).busy,
            once_each(final(self).values@, *final(w), old(w).busy@),
            final(self).values@.contains_key(*key),
            old(self).values@.submap_of(final(self).values@),
            old(self).values@.contains_key(*key) ==>
                final(w).calls == old(w).calls && final(self).values@ == old(self).values@ && cloned(old(self).values@[*key], r),
            !old(self).values@.contains_key(*key) ==> r == final(w).made@[*key],»
    {
        let item: Option<V> = self.values.get(key);

        if let Some(item) = item {
            return item;
        }

        let new_item = {
            let create = &self.create;
            ⟦create(self, key)⇒create.call(key, &mut self.values, w)⟧
        };

«        let ghost m = self.values@;»
        self.values.insert(key.clone(), new_item.clone());
«        proof {
            let n = self.values@;
            assert(n =~= m.insert(*key, n[*key]));
            assert forall|k: K| #[trigger] n.contains_key(k) implies w.made@.contains_key(k) && cloned(w.made@[k], n[k]) by {
                if k != *key { assert(m.contains_key(k)); } else { assert(cloned(new_item, n[k])); }
            }
            assert forall|k: K| #[trigger] w.calls@.contains(k) <==> n.contains_key(k) || old(w).busy@.contains(k) by {
                assert(old(w).busy@.insert(*key).contains(k) <==> old(w).busy@.contains(k) || k == *key);
            }
            assert forall|k: K| #[trigger] old(w).busy@.contains(k) implies !n.contains_key(k) by {
                assert(old(w).busy@.insert(*key).contains(k));
            }
        }»

        new_item
    }
//@end
}
} // verus!
fn main() {}
