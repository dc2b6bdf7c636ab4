#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_ext, sax::axiom_string_key, sax::axiom_string_ord};

//@include json.inc

// ---- C21: what the two traits promise together -------------------------------------------------------------------------
pub trait RoundTrip: JsJsonSerialize + JsJsonDeserialize {
    // values the property speaks of; equality of values; values whose JSON is null
    spec fn fits(self) -> bool;
    spec fn same(self, w: Self) -> bool;
    spec fn nullish(self) -> bool;
    proof fn round_trip(v: Self, j: JsJson, w: Self)
        requires v.fits(), v.ser(j),
        ensures Self::accepts(j), Self::reads(j), Self::de(j, w) ==> v.same(w), !v.nullish() ==> !(j is Null);
}
impl RoundTrip for String {
    open spec fn fits(self) -> bool { true }
    open spec fn same(self, w: String) -> bool { self == w }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: String, j: JsJson, w: String) {}
}
impl RoundTrip for bool {
    open spec fn fits(self) -> bool { true }
    open spec fn same(self, w: bool) -> bool { self == w }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: bool, j: JsJson, w: bool) {}
}
impl RoundTrip for () {
    open spec fn fits(self) -> bool { true }
    open spec fn same(self, w: ()) -> bool { true }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: (), j: JsJson, w: ()) {}
}
impl RoundTrip for u64 {
    open spec fn fits(self) -> bool { self <= 0x20_0000_0000_0000 }
    open spec fn same(self, w: u64) -> bool { self == w }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: u64, j: JsJson, w: u64) { axiom_u(v); }
}
impl RoundTrip for i64 {
    open spec fn fits(self) -> bool { -0x20_0000_0000_0000 <= self <= 0x20_0000_0000_0000 }
    open spec fn same(self, w: i64) -> bool { self == w }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: i64, j: JsJson, w: i64) { axiom_i(v); }
}
impl RoundTrip for u32 {
    open spec fn fits(self) -> bool { true }
    open spec fn same(self, w: u32) -> bool { self == w }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: u32, j: JsJson, w: u32) { axiom_w(v); }
}
impl RoundTrip for i32 {
    open spec fn fits(self) -> bool { true }
    open spec fn same(self, w: i32) -> bool { self == w }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: i32, j: JsJson, w: i32) { axiom_h(v); }
}
impl<T: RoundTrip> RoundTrip for Vec<T> {
    open spec fn fits(self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fits() }
    open spec fn same(self, w: Vec<T>) -> bool { self@.len() == w@.len() && forall|i: int| 0 <= i < w@.len() ==> (#[trigger] self@[i]).same(w@[i]) }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: Vec<T>, j: JsJson, w: Vec<T>) {
        let l = (j->List_0)@;
        assert forall|i: int| 0 <= i < l.len() implies T::accepts(#[trigger] l[i]) && T::reads(l[i]) by {
            assert(v@[i].fits());
            T::round_trip(v@[i], l[i], v@[i]);
        }
        if Vec::<T>::de(j, w) {
            assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] v@[i]).same(w@[i]) by {
                assert(T::de(l[i], w@[i]));
                T::round_trip(v@[i], l[i], w@[i]);
            }
        }
    }
}
impl<T: RoundTrip> RoundTrip for Option<T> {
    open spec fn fits(self) -> bool { match self { Some(x) => x.fits() && !x.nullish(), None => true } }
    open spec fn same(self, w: Option<T>) -> bool { match (self, w) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false } }
    open spec fn nullish(self) -> bool { self is None }
    proof fn round_trip(v: Option<T>, j: JsJson, w: Option<T>) {
        match v {
            Some(x) => {
                T::round_trip(x, j, x);
                match w { Some(y) => { T::round_trip(x, j, y); } None => {} }
            }
            None => {}
        }
    }
}
pub open spec fn map_fits<T: RoundTrip>(m: Map<String, T>) -> bool { forall|k: String| #[trigger] m.dom().contains(k) ==> m[k].fits() }
pub open spec fn map_same<T: RoundTrip>(m: Map<String, T>, n: Map<String, T>) -> bool {
    &&& forall|k: String| #[trigger] m.dom().contains(k) <==> n.dom().contains(k)
    &&& forall|k: String| #[trigger] m.dom().contains(k) ==> m[k].same(n[k])
}
proof fn lemma_map<T: RoundTrip>(m: Map<String, T>, e: Map<String, JsJson>, n: Map<String, T>)
    requires map_fits(m), map_ser(m, e),
    ensures
        forall|k: String| #[trigger] e.dom().contains(k) ==> T::accepts(e[k]) && T::reads(e[k]),
        map_de(e, n) ==> map_same(m, n),
{
    assert forall|k: String| #[trigger] e.dom().contains(k) implies T::accepts(e[k]) && T::reads(e[k]) by {
        assert(m.dom().contains(k));
        T::round_trip(m[k], e[k], m[k]);
    }
    if map_de(e, n) {
        assert forall|k: String| #[trigger] m.dom().contains(k) <==> n.dom().contains(k) by { assert(e.dom().contains(k) <==> m.dom().contains(k)); }
        assert forall|k: String| #[trigger] m.dom().contains(k) implies m[k].same(n[k]) by {
            assert(e.dom().contains(k));
            T::round_trip(m[k], e[k], n[k]);
        }
    }
}
impl<T: RoundTrip> RoundTrip for HashMap<String, T> {
    open spec fn fits(self) -> bool { map_fits(self@) }
    open spec fn same(self, w: HashMap<String, T>) -> bool { map_same(self@, w@) }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: HashMap<String, T>, j: JsJson, w: HashMap<String, T>) { lemma_map(v@, j->Object_0@, w@); }
}
impl<T: RoundTrip> RoundTrip for BTreeMap<String, T> {
    open spec fn fits(self) -> bool { map_fits(self@) }
    open spec fn same(self, w: BTreeMap<String, T>) -> bool { map_same(self@, w@) }
    open spec fn nullish(self) -> bool { false }
    proof fn round_trip(v: BTreeMap<String, T>, j: JsJson, w: BTreeMap<String, T>) { lemma_map(v@, j->Object_0@, w@); }
}
// converting any value of a supported type to JSON and back gives an equal value
fn theorem_round_trip<T: RoundTrip>(v: T) -> (r: Result<T, String>)
    requires v.fits(),
    ensures r is Ok, v.same(r->Ok_0),
{
    let ghost v0 = v;
    let j = to_json(v);
    proof { T::round_trip(v0, j, v0); }
    let ghost j0 = j;
    let r = from_json::<T>(j);
    proof { T::round_trip(v0, j0, r->Ok_0); }
    r
}
// JSON of another kind is refused: each basic type reads its own kind only
proof fn theorem_kinds(j: JsJson)
    ensures
        String::reads(j) <==> j is String,
        bool::reads(j) <==> (j is True || j is False),
        u64::reads(j) <==> j is Number,
        i64::reads(j) <==> j is Number,
        u32::reads(j) <==> j is Number,
        i32::reads(j) <==> j is Number,
        <()>::reads(j) ==> j is Object,
        Vec::<String>::reads(j) ==> j is List,
        HashMap::<String, String>::reads(j) ==> j is Object,
        BTreeMap::<String, String>::reads(j) ==> j is Object,
{}
// an absent optional value comes back absent, and a present one present
fn theorem_option<T: RoundTrip>(v: Option<T>) -> (r: Result<Option<T>, String>)
    requires v.fits(),
    ensures r is Ok, r->Ok_0 is Some <==> v is Some,
{
    theorem_round_trip(v)
}

} // verus!
fn main() {}
