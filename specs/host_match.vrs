#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::sync::Arc;

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key, pat::lemma_pattern, forms::lemma_api, forms::lemma_root, forms::lemma_get, forms::lemma_callq};

mod sax {
    use super::*;
    pub broadcast axiom fn axiom_string_key()
        ensures #[trigger] obeys_key_model::<String>();
    // two Strings with the same characters are the same key
    pub axiom fn axiom_string_ext(a: String, b: String)
        requires a@ == b@,
        ensures a == b;
}
// ---- trusted: std -----------------------------------------------------------------------------------------------------
fn vx_split_first<'a, T>(l: &'a [T]) -> (r: Option<(&'a T, &'a [T])>)
    ensures
        r is Some <==> l@.len() > 0,
        r is Some ==> *(r->0).0 == l@[0] && (r->0).1@ == l@.skip(1),
{
    if l.len() == 0 { None } else { Some((&l[0], vx_tail(l))) }
}
#[verifier::external_body]
fn vx_tail<'a, T>(l: &'a [T]) -> (r: &'a [T])
    requires l@.len() > 0,
    ensures r@ == l@.skip(1),
{ &l[1..] }
#[verifier::external_body]
fn vx_eq(a: &str, b: &String) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
#[verifier::external_body]
fn vx_clone_string(a: &String) -> (r: String)
    ensures r == *a,
{ a.clone() }
#[verifier::external_body]
fn vx_clone_json(a: &JsJson) -> (r: JsJson)
    ensures r == *a,
{ unimplemented!() }
#[verifier::external_body]
fn vx_clone_value(a: &JsValue) -> (r: JsValue)
    ensures r == *a,
{ unimplemented!() }
#[verifier::external_body]
fn vx_into_string(a: &str) -> (r: String)
    ensures r@ == a@,
{ a.to_string() }
#[verifier::external_body]
fn vx_string() -> String { String::new() }
fn vx_enumerate<'a, T>(l: &'a [T]) -> (r: Vec<(usize, &'a T)>)
    ensures r@.len() == l@.len(), forall|i: int| 0 <= i < l@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == l@[i],
{
    let mut r: Vec<(usize, &'a T)> = Vec::new();
    let mut i: usize = 0;
    while i < l.len()
        invariant i <= l@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]).0 == k && *r@[k].1 == l@[k],
        decreases l@.len() - i,
    {
        r.push((i, &l[i]));
        i = i + 1;
    }
    r
}
//@include host_calls.inc
//@include host_answer.inc
//@include host_match.inc
//@include host_dispatch.inc

} // verus!
fn main() {}
