#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case)]
use vstd::prelude::*;
//@include std_extra.inc

verus! {

broadcast use vstd::std_specs::hash::group_hash_axioms;

//@include element_children.inc

}
fn main() {}
