#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
//@include std_extra.inc

verus! {

broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key};

//@include strings.inc
//@include ordered_map.inc

} // verus!
fn main() {}
