#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key};

//@include strings.inc

//@include hashing.inc

//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
//@item enum JsJsonConst
enum JsJsonConst {
    True = 1,
    False = 2,
    Null = 3,

    String = 4,
    Number = 5,
    List = 6,
    Object = 7,
}
//@end
spec fn tag(c: JsJsonConst) -> u8 {
    match c {
        JsJsonConst::True => 1u8, JsJsonConst::False => 2, JsJsonConst::Null => 3, JsJsonConst::String => 4,
        JsJsonConst::Number => 5, JsJsonConst::List => 6, JsJsonConst::Object => 7,
    }
}
impl JsJsonConst {
    // From<JsJsonConst> for u8 (C02)
    #[verifier::external_body]
    fn into(self) -> (r: u8) ensures r == tag(self) { unimplemented!() }
}
//@item enum JsJson
enum JsJson {
    True,
    False,
    Null,
    String(String),
    Number(f64),
    List(Vec<JsJson>),
    Object(HashMap<String, JsJson>),
}
//@end

// the same JSON: numbers by their bits, objects as maps
spec fn same(a: JsJson, b: JsJson) -> bool
    decreases a,
{
    match (a, b) {
        (JsJson::True, JsJson::True) => true,
        (JsJson::False, JsJson::False) => true,
        (JsJson::Null, JsJson::Null) => true,
        (JsJson::String(x), JsJson::String(y)) => x@ == y@,
        (JsJson::Number(x), JsJson::Number(y)) => bits(x) == bits(y),
        (JsJson::List(x), JsJson::List(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> same(#[trigger] x@[i], y@[i]),
        (JsJson::Object(x), JsJson::Object(y)) => x@.dom() == y@.dom() && forall|k: String| #![trigger x@[k]] x@.contains_key(k) ==> same(x@[k], y@[k]),
        _ => false,
    }
}
// what hashing feeds
spec fn feeds(a: JsJson) -> Seq<Item>
    decreases a, 1int, 0int,
{
    match a {
        JsJson::True => seq![Item::U8(1)],
        JsJson::False => seq![Item::U8(2)],
        JsJson::Null => seq![Item::U8(3)],
        JsJson::String(x) => seq![Item::U8(4), Item::Bytes(x@)],
        JsJson::Number(x) => seq![Item::U8(5), Item::U64(bits(x))],
        JsJson::List(x) => seq![Item::U8(6)] + feeds_list(a, x@.len() as int),
        JsJson::Object(x) => seq![Item::U8(7)] + feeds_props(a, in_order(x@.dom()).len() as int),
    }
}
spec fn feeds_list(a: JsJson, n: int) -> Seq<Item>
    recommends a is List, 0 <= n <= a->List_0@.len(),
    decreases a, 0int, n,
    when a is List && 0 <= n <= a->List_0@.len()
{
    if n <= 0 { Seq::empty() } else { feeds_list(a, n - 1) + feeds(a->List_0@[n - 1]) }
}
spec fn feeds_props(a: JsJson, n: int) -> Seq<Item>
    decreases a, 0int, n,
{
    if !(a is Object) || n <= 0 { Seq::empty() } else {
        let k = in_order(a->Object_0@.dom())[n - 1];
        feeds_props(a, n - 1).push(Item::Text(k@)) + if a->Object_0@.contains_key(k) { feeds(a->Object_0@[k]) } else { Seq::empty() }
    }
}

impl JsJson {
//@item impl PartialEq for JsJson :: fn eq
    fn eq(&self, other: &Self) -> «(r:» bool «)
        ensures r == same(*self, *other),
        decreases *self,»
    {
        match (self, other) {
            (Self::True, Self::True) => true,
            (Self::False, Self::False) => true,
            (Self::Null, Self::Null) => true,
            (Self::String(value1), Self::String(value2)) => ⟦value1 == value2⇒vx_str_eq(value1, value2)⟧,
            (Self::Number(value1), Self::Number(value2)) => ⟦value1.to_bits()⇒vx_bits(value1)⟧ == ⟦value2.to_bits()⇒vx_bits(value2)⟧,
            (Self::List(value1), Self::List(value2)) => ⟦value1 == value2⇒vx_list_eq(value1, value2)⟧,
            (Self::Object(value1), Self::Object(value2)) => ⟦value1 == value2⇒vx_object_eq(value1, value2)⟧,
            _ => false,
        }
    }
//@end
//@item impl Hash for JsJson :: fn hash
    fn hash⟦<H: std::hash::Hasher>⇒⟧(&self, state: ⟦&mut H⇒&mut Fed⟧)
«        ensures final(state)@ == old(state)@ + feeds(*self),
        decreases *self,»
    {
        match self {
            Self::True => {
                state.write_u8(JsJsonConst::True.into());
            }
            Self::False => {
                state.write_u8(JsJsonConst::False.into());
            }
            Self::Null => {
                state.write_u8(JsJsonConst::Null.into());
            }
            Self::String(value) => {
                state.write_u8(JsJsonConst::String.into());
                state.write(⟦value.as_bytes()⇒value⟧);
            }
            Self::Number(value) => {
                state.write_u8(JsJsonConst::Number.into());
                let value_bits = ⟦value.to_bits()⇒vx_bits(value)⟧;
                state.write_u64(value_bits);
            }
            Self::List(list) => {
                state.write_u8(JsJsonConst::List.into());
                for item in «it:» list
«                    invariant
                        it.seq().len() == list@.len(), it.seq().unref() == list@, *self == JsJson::List(*list),
                        state@ == old(state)@.push(Item::U8(6)) + feeds_list(*self, it.index@ as int),»
                {
                    item.hash(state);
                }
            }
            Self::Object(map) => {
                state.write_u8(JsJsonConst::Object.into());
                let mut props = ⟦map.iter().collect::<Vec<_>>()⇒vx_entries(map)⟧;
                ⟦props.sort_by_key(|(name, _)| *name);⇒vx_sort_by_name(&mut props, Ghost(map@));⟧
                for (name, value) in «it:» props
«                    invariant
                        refs(it.seq(), in_order(map@.dom()), map@), *self == JsJson::Object(*map),
                        state@ == old(state)@.push(Item::U8(7)) + feeds_props(*self, it.index@ as int),»
                {
                    ⟦name.hash(state)⇒state.string(name)⟧;
                    value.hash(state);
                }
            }
        }
    }
//@end
}
// == of vectors, by the == of their items
fn vx_list_eq(a: &Vec<JsJson>, b: &Vec<JsJson>) -> (r: bool)
    ensures r == same(JsJson::List(*a), JsJson::List(*b)),
    decreases *a,
{
    if a.len() != b.len() { return false; }
    for i in 0..a.len()
        invariant a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> same(#[trigger] a@[j], b@[j]),
    {
        if !a[i].eq(&b[i]) { return false; }
    }
    true
}
// == of maps: as many entries, and each entry of the one is in the other
fn vx_object_eq(a: &HashMap<String, JsJson>, b: &HashMap<String, JsJson>) -> (r: bool)
    ensures r == same(JsJson::Object(*a), JsJson::Object(*b)),
    decreases *a,
{
    if a.len() != b.len() {
        return false;
    }
    let e = vx_entries(a);
    let ghost names = choose|names: Seq<String>| #[trigger] refs(e@, names, a@) && forall|k: String| a@.contains_key(k) ==> names.contains(k);
    for i in 0..e.len()
        invariant
            refs(e@, names, a@), forall|k: String| a@.contains_key(k) ==> names.contains(k), a@.len() == b@.len(),
            forall|j: int| 0 <= j < i ==> b@.contains_key(#[trigger] names[j]) && same(a@[names[j]], b@[names[j]]),
    {
        let (k, v) = e[i];
        assert(*k == names[i as int]);
        match b.get(k) {
            None => { return false; }
            Some(x) => { if !v.eq(x) { return false; } }
        }
    }
    proof {
        assert forall|k: String| #![trigger a@[k]] a@.contains_key(k) implies b@.contains_key(k) && same(a@[k], b@[k]) by {
            assert(names.contains(k));
            let j = choose|j: int| 0 <= j < names.len() && names[j] == k;
            assert(b@.contains_key(names[j]));
        }
        assert(a@.dom().subset_of(b@.dom())) by {
            assert forall|k: String| a@.dom().contains(k) implies b@.dom().contains(k) by {
                let v = a@[k];
            }
        }
        vstd::set_lib::lemma_subset_equality(a@.dom(), b@.dom());
        assert(a@.dom() =~= b@.dom());
    }
    true
}
// Equal keys hash alike, as HashMap wants: whatever is equal under == feeds a hasher the same.
proof fn theorem_hash(a: JsJson, b: JsJson)
    requires same(a, b),
    ensures feeds(a) == feeds(b),
    decreases a, 1int, 0int,
{
    match (a, b) {
        (JsJson::List(x), JsJson::List(y)) => { lemma_list(a, b, x@.len() as int); }
        (JsJson::Object(x), JsJson::Object(y)) => { lemma_props(a, b, in_order(x@.dom()).len() as int); }
        _ => {}
    }
}
proof fn lemma_list(a: JsJson, b: JsJson, n: int)
    requires same(a, b), a is List, 0 <= n <= a->List_0@.len(),
    ensures feeds_list(a, n) == feeds_list(b, n),
    decreases a, 0int, n,
{
    if n > 0 {
        lemma_list(a, b, n - 1);
        theorem_hash(a->List_0@[n - 1], b->List_0@[n - 1]);
    }
}
proof fn lemma_props(a: JsJson, b: JsJson, n: int)
    requires same(a, b), a is Object,
    ensures feeds_props(a, n) == feeds_props(b, n),
    decreases a, 0int, n,
{
    if n > 0 {
        lemma_props(a, b, n - 1);
        let k = in_order(a->Object_0@.dom())[n - 1];
        if a->Object_0@.contains_key(k) {
            theorem_hash(a->Object_0@[k], b->Object_0@[k]);
        }
    }
}
} // verus!
fn main() {}
