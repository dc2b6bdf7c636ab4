// ---- contracts assumed on std functions that vstd has none for (trusted) ----
#[allow(unused_imports)]
use vstd::std_specs::hash::*;
#[allow(unused_imports)]
use std::collections::HashMap;

verus! {

pub assume_specification<'a, K, V, S, A, Q>[std::collections::HashMap::<K, V, S, A>::get_mut](m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: std::option::Option<&'a mut V>)
    where
        A: std::alloc::Allocator,
        K: std::cmp::Eq + std::hash::Hash + std::borrow::Borrow<Q>,
        Q: std::marker::MetaSized + std::hash::Hash + std::cmp::Eq + ?Sized,
        S: std::hash::BuildHasher,
    ensures
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> match r {
            Some(v) => contains_borrowed_key(old(m)@, k)
                && maps_borrowed_key_to_value(old(m)@, k, *v)
                && exists|key: K| #[trigger] old(m)@.contains_key(key)
                    && contains_borrowed_key(Map::<K, V>::empty().insert(key, *v), k)
                    && final(m)@ == old(m)@.insert(key, *final(v)),
            None => !contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
        },
;

// a panic branch that the property allows
#[verifier::external_body]
fn vx_panic() -> (r: !)
{ panic!() }

// assert!/assert_eq!: must be proved never to fail
fn vx_assert(b: bool)
    requires b,
{}

}
