//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
//@item enum JsJson
«pub» enum JsJson {
    True,
    False,
    Null,
    String(String),
    Number(f64),
    List(Vec<JsJson>),
    Object(HashMap<String, JsJson>),
}
//@end
//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
//@item enum JsValue
«pub» enum JsValue {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F64(f64),

    True,
    False,
    Null,
    Undefined,

    Vec(Vec<u8>),       // type, length, sequence of bytes
    String(String),     // type, length, sequence of chars
    List(Vec<JsValue>), // type, length
    Object(HashMap<String, JsValue>),

    Json(JsJson),
}
//@end
// what a value is: lists and strings by their contents, everything else as it stands
mod vv {
    use super::*;
pub enum V {
    Str(Seq<char>),
    List(Seq<V>),
    Other(JsValue),
}
    pub open spec fn v(x: JsValue) -> V
        decreases x,
    {
        match x {
            JsValue::String(s) => V::Str(s@),
            JsValue::List(l) => V::List(Seq::new(l@.len(), |i: int| if 0 <= i < l@.len() { v(l@[i]) } else { V::Other(JsValue::Null) })),
            other => V::Other(other),
        }
    }
    pub open spec fn vs(l: Seq<JsValue>) -> Seq<V> { l.map_values(|x: JsValue| v(x)) }
    pub broadcast proof fn lemma_v_list(l: Vec<JsValue>)
        ensures #[trigger] v(JsValue::List(l)) == V::List(vs(l@)),
    {
        assert(v(JsValue::List(l))->List_0 =~= vs(l@));
    }
    pub broadcast proof fn lemma_vs_push(l: Seq<JsValue>, x: JsValue)
        ensures #[trigger] vs(l.push(x)) == vs(l).push(v(x)),
    {
        assert(vs(l.push(x)) =~= vs(l).push(v(x)));
    }
    pub broadcast proof fn lemma_vs_add(l: Seq<JsValue>, x: Seq<JsValue>)
        ensures #[trigger] vs(l + x) == vs(l) + vs(x),
    {
        assert(vs(l + x) =~= vs(l) + vs(x));
    }
    pub broadcast proof fn lemma_vs_small(l: Seq<JsValue>)
        ensures
            (#[trigger] vs(l)).len() == l.len(),
            l.len() == 0 ==> vs(l) == Seq::<V>::empty(),
            l.len() == 1 ==> vs(l) == seq![v(l[0])],
            l.len() == 2 ==> vs(l) == seq![v(l[0]), v(l[1])],
            l.len() == 3 ==> vs(l) == seq![v(l[0]), v(l[1]), v(l[2])],
            l.len() == 4 ==> vs(l) == seq![v(l[0]), v(l[1]), v(l[2]), v(l[3])],
            l.len() == 5 ==> vs(l) == seq![v(l[0]), v(l[1]), v(l[2]), v(l[3]), v(l[4])],
    {
        if l.len() == 0 { assert(vs(l) =~= Seq::<V>::empty()); }
        if l.len() == 1 { assert(vs(l) =~= seq![v(l[0])]); }
        if l.len() == 2 { assert(vs(l) =~= seq![v(l[0]), v(l[1])]); }
        if l.len() == 3 { assert(vs(l) =~= seq![v(l[0]), v(l[1]), v(l[2])]); }
        if l.len() == 4 { assert(vs(l) =~= seq![v(l[0]), v(l[1]), v(l[2]), v(l[3])]); }
        if l.len() == 5 { assert(vs(l) =~= seq![v(l[0]), v(l[1]), v(l[2]), v(l[3]), v(l[4])]); }
    }
}
use vv::*;

// ---- the calls: what the client sends for each of them ----------------------------------------------------------------
mod forms {
    use super::*;
    pub open spec fn s(x: &str) -> V { V::Str(x@) }
    #[verifier::opaque]
    pub open spec fn api() -> V { V::List(seq![s("api")]) }
    #[verifier::opaque]
    pub open spec fn root(n: &str) -> V { V::List(seq![s("root"), s(n)]) }
    #[verifier::opaque]
    pub open spec fn get(n: &str) -> V { V::List(seq![s("get"), s(n)]) }
    #[verifier::opaque]
    pub open spec fn callq(n: Seq<char>, p: Seq<V>) -> V { V::List(seq![s("call"), V::Str(n)] + p) }
    pub broadcast proof fn lemma_api() ensures #[trigger] api() == V::List(seq![s("api")]) { reveal(api); }
    pub broadcast proof fn lemma_root(n: &str) ensures #[trigger] root(n) == V::List(seq![s("root"), s(n)]) { reveal(root); }
    pub broadcast proof fn lemma_get(n: &str) ensures #[trigger] get(n) == V::List(seq![s("get"), s(n)]) { reveal(get); }
    pub broadcast proof fn lemma_callq(n: Seq<char>, p: Seq<V>) ensures #[trigger] callq(n, p) == V::List(seq![s("call"), V::Str(n)] + p) { reveal(callq); }
}
use forms::*;
pub open spec fn u64v(n: u64) -> V { V::Other(JsValue::U64(n)) }
pub open spec fn u32v(n: u32) -> V { V::Other(JsValue::U32(n)) }
pub open spec fn i32v(n: i32) -> V { V::Other(JsValue::I32(n)) }
pub open spec fn jsonv(j: JsJson) -> V { V::Other(JsValue::Json(j)) }
pub open spec fn undef() -> V { V::Other(JsValue::Undefined) }
pub open spec fn call(n: &str, p: Seq<V>) -> V { callq(n@, p) }
pub open spec fn api_get_call(g: &str, n: &str, p: Seq<V>) -> V { V::List(seq![api(), get(g), call(n, p)]) }
pub open spec fn api_call(n: &str, p: Seq<V>) -> V { V::List(seq![api(), call(n, p)]) }

// the headers of a request, as the JSON object that carries them
pub open spec fn headers_of(j: JsJson) -> Option<Map<String, String>> {
    if j is Object && forall|k: String| #[trigger] j->Object_0@.dom().contains(k) ==> j->Object_0@[k] is String {
        Some(Map::new(j->Object_0@.dom(), |k: String| j->Object_0@[k]->String_0))
    } else { None }
}
