// ---- trusted: std ---------------------------------------------------------------------------------------------------
pub mod sax {
    use super::*;
    // two Strings with the same characters are the same key, every &str has a String with its characters, and Strings
    // obey the contracts of both maps
    pub uninterp spec fn st(cs: Seq<char>) -> String;
    pub broadcast axiom fn axiom_string_ext(s: String)
        ensures st(#[trigger] s@) == s;
    pub axiom fn axiom_owned(s: &str)
        ensures st(s@)@ == s@;
    pub broadcast axiom fn axiom_string_key()
        ensures #[trigger] obeys_key_model::<String>();
    pub broadcast axiom fn axiom_string_ord()
        ensures #[trigger] key_obeys_cmp_spec::<String>();
    // `as` between the integers and f64
    pub uninterp spec fn u_f(x: u64) -> f64;
    pub uninterp spec fn f_u(x: f64) -> u64;
    pub uninterp spec fn i_f(x: i64) -> f64;
    pub uninterp spec fn f_i(x: f64) -> i64;
    pub uninterp spec fn w_f(x: u32) -> f64;
    pub uninterp spec fn f_w(x: f64) -> u32;
    pub uninterp spec fn h_f(x: i32) -> f64;
    pub uninterp spec fn f_h(x: f64) -> i32;
    // IEEE 754: integers of magnitude up to 2^53 are represented exactly
    pub axiom fn axiom_u(x: u64)
        requires x <= 0x20_0000_0000_0000,
        ensures f_u(u_f(x)) == x;
    pub axiom fn axiom_i(x: i64)
        requires -0x20_0000_0000_0000 <= x <= 0x20_0000_0000_0000,
        ensures f_i(i_f(x)) == x;
    pub axiom fn axiom_w(x: u32) ensures f_w(w_f(x)) == x;
    pub axiom fn axiom_h(x: i32) ensures f_h(h_f(x)) == x;
}
use sax::*;
#[verifier::external_body] fn vx_u_f(x: u64) -> (r: f64) ensures r == u_f(x) { x as f64 }
#[verifier::external_body] fn vx_f_u(x: f64) -> (r: u64) ensures r == f_u(x) { x as u64 }
#[verifier::external_body] fn vx_i_f(x: i64) -> (r: f64) ensures r == i_f(x) { x as f64 }
#[verifier::external_body] fn vx_f_i(x: f64) -> (r: i64) ensures r == f_i(x) { x as i64 }
#[verifier::external_body] fn vx_w_f(x: u32) -> (r: f64) ensures r == w_f(x) { x as f64 }
#[verifier::external_body] fn vx_f_w(x: f64) -> (r: u32) ensures r == f_w(x) { x as u32 }
#[verifier::external_body] fn vx_h_f(x: i32) -> (r: f64) ensures r == h_f(x) { x as f64 }
#[verifier::external_body] fn vx_f_h(x: f64) -> (r: i32) ensures r == f_h(x) { x as i32 }
#[verifier::external_body] fn vx_string() -> String { String::new() }
#[verifier::external_body] fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] fn vx_unreachable() -> (r: !) requires false, { unreachable!() }
// a map as the list of its entries, each once, in an order of the map's own
pub open spec fn pairs_of<T>(m: Map<String, T>, r: Seq<(String, T)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|k: String| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
    &&& forall|i: int| 0 <= i < r.len() ==> m[(#[trigger] r[i]).0] == r[i].1
}
#[verifier::external_body]
fn vx_pairs<T>(m: HashMap<String, T>) -> (r: Vec<(String, T)>)
    ensures pairs_of(m@, r@),
{ m.into_iter().collect() }
#[verifier::external_body]
fn vx_bpairs<T>(m: BTreeMap<String, T>) -> (r: Vec<(String, T)>)
    ensures pairs_of(m@, r@),
{ m.into_iter().collect() }
fn vx_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i],
{
    let mut r: Vec<(usize, T)> = Vec::new();
    let mut n: usize = 0;
    for x in it: v
        invariant
            it.seq() == v@, n == it.index@, r@.len() == n, n <= v@.len(),
            forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i],
    {
        r.push((n, x));
        assert(v@.len() <= usize::MAX) by { vstd::std_specs::vec::axiom_spec_len(&v); }
        n = n + 1;
    }
    r
}
// the error path is text only: nothing is said about it
#[verifier::external_body]
pub struct JsJsonContext(());
impl JsJsonContext {
    #[verifier::external_body]
    fn new(s: &str) -> JsJsonContext { unimplemented!() }
    #[verifier::external_body]
    fn add<S>(&self, s: S) -> JsJsonContext { unimplemented!() }
    #[verifier::external_body]
    fn convert_to_string(&self) -> String { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> JsJsonContext { unimplemented!() }
}

//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
//@item enum JsJson
«pub» enum JsJson {
    True,
    False,
    Null,
    String(String),
    Number(f64),
    List(Vec<JsJson>),
    Object(HashMap<String, JsJson>),
}
//@end
impl JsJson {
//@item impl JsJson :: fn typename
    pub fn typename(&self) -> &'static str {
        match self {
            Self::True => "bool",
            Self::False => "bool",
            Self::Null => "null",
            Self::String(..) => "string",
            Self::Number(..) => "number",
            Self::List(..) => "list",
            Self::Object(..) => "object",
        }
    }
//@end
//@item impl JsJson :: fn get_hashmap
    pub fn get_hashmap(
        self,
        context: &JsJsonContext,
    ) -> «(r:» Result<HashMap<String, JsJson>, JsJsonContext> «)
        ensures r is Ok <==> self is Object, r is Ok ==> r->Ok_0 == self->Object_0,»
    {
        let object = match self {
            JsJson::Object(object) => object,
            other => {
                let message = ⟦["object expected, received ", other.typename()].concat()⇒vx_string()⟧;
                return Err(context.add(message));
            }
        };

        Ok(object)
    }
//@end
//@item impl JsJson :: fn get_property
    pub fn get_property<T: JsJsonDeserialize>(
        &mut self,
        context: &JsJsonContext,
        param: &'static str,
    ) -> «(r:» Result<T, JsJsonContext> «)
        requires old(self).has(param@) ==> T::accepts(old(self).at(param@)),
        ensures
            r is Ok <==> old(self).has(param@) && T::reads(old(self).at(param@)),
            r is Ok ==> T::de(old(self).at(param@), r->Ok_0),
            old(self).has(param@) ==> *final(self) is Object && final(self)->Object_0@ == old(self)->Object_0@.remove(st(param@)),»
    {
        let object = match self {
            JsJson::Object(object) => object,
            other => {
                let message = ⟦["object expected, received ", other.typename()].concat()⇒vx_string()⟧;
                return Err(context.add(message));
            }
        };

        let context = context.add(⟦["field: '", param, "'"].concat()⇒vx_string()⟧);

        let item = ⟦object
            .remove(param)⇒vx_remove(object, param)⟧
            .ok_or_else(|| «-> (e: JsJsonContext) requires true {» context.add("missing field") «}»)?;

        T::from_json(context, item)
    }
//@end
}
#[verifier::external_body]
fn vx_remove(m: &mut HashMap<String, JsJson>, k: &str) -> (r: Option<JsJson>)
    ensures
        r is Some <==> old(m)@.dom().contains(st(k@)),
        r is Some ==> r->0 == old(m)@[st(k@)],
        final(m)@ == old(m)@.remove(st(k@)),
{ m.remove(k) }
impl JsJson {
    pub open spec fn has(self, p: Seq<char>) -> bool { self is Object && self->Object_0@.dom().contains(st(p)) }
    pub open spec fn at(self, p: Seq<char>) -> JsJson { self->Object_0@[st(p)] }
}
//@item struct JsJsonObjectBuilder
«pub» struct JsJsonObjectBuilder {
    data: HashMap<String, JsJson>,
}
//@end
impl JsJsonObjectBuilder {
    pub closed spec fn entries(self) -> Map<String, JsJson> { self.data@ }
    // derive(Default)
    fn default() -> (r: JsJsonObjectBuilder) ensures r.entries() == Map::<String, JsJson>::empty(),
    { JsJsonObjectBuilder { data: HashMap::new() } }
//@item impl JsJsonObjectBuilder :: fn insert
    pub fn insert⟦(mut self⇒<V: JsJsonSerialize>(self⟧, name: ⟦impl ToString⇒&str⟧, value: ⟦impl JsJsonSerialize⇒V⟧) -> «(r:» Self «)
        ensures
            r.entries() == self.entries().insert(st(name@), r.entries()[st(name@)]),
            value.ser(r.entries()[st(name@)]),»
    {
        «let mut this = self;
        let ghost n0 = name@;»
        let name = ⟦name.to_string()⇒vx_owned(name)⟧;
        let value = value.to_json();
        «proof { axiom_string_ext(name); }»
        ⟦self⇒this⟧.data.insert(name, value);
        «proof { assert(this.entries()[st(n0)] == value); assert(this.entries() =~= self.entries().insert(st(n0), value)); }»
        ⟦self⇒this⟧
    }
//@end
//@item impl JsJsonObjectBuilder :: fn get
    pub fn get(self) -> «(r:» JsJson «) ensures r is Object, r->Object_0@ == self.entries(),»
    {
        JsJson::Object(self.data)
    }
//@end
}

// ---- the two traits ----------------------------------------------------------------------------------------------------
//@file crates/vertigo/src/driver_module/js_value/serialize.rs
//@item trait JsJsonSerialize
«pub» trait JsJsonSerialize «: Sized» {
    «// which JSON values are this value's JSON
    spec fn ser(self, j: JsJson) -> bool;»
    fn to_json(self) -> «(r:» JsJson «) ensures self.ser(r)»;
}
//@end
//@item trait JsJsonDeserialize
«pub» trait JsJsonDeserialize
where
    Self: Sized,
{
    «// the JSON it may be given; of those, the JSON it decodes; and what the value is then
    spec fn accepts(j: JsJson) -> bool;
    spec fn reads(j: JsJson) -> bool;
    spec fn de(j: JsJson, v: Self) -> bool;»
    fn from_json(context: JsJsonContext, json: JsJson) -> «(r:» Result<Self, JsJsonContext> «)
        requires Self::accepts(json),
        ensures r is Ok <==> Self::reads(json), r is Ok ==> Self::de(json, r->Ok_0)»;
}
//@end
impl JsJsonSerialize for String {
    open spec fn ser(self, j: JsJson) -> bool { j == JsJson::String(self) }
//@item impl JsJsonSerialize for String :: fn to_json
    fn to_json(self) -> JsJson {
        JsJson::String(self)
    }
//@end
}
impl JsJsonDeserialize for String {
    open spec fn accepts(j: JsJson) -> bool { true }
    open spec fn reads(j: JsJson) -> bool { j is String }
    open spec fn de(j: JsJson, v: String) -> bool { j == JsJson::String(v) }
//@item impl JsJsonDeserialize for String :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        match json {
            JsJson::String(value) => Ok(value),
            other => {
                let message = ⟦["string expected, received ", other.typename()].concat()⇒vx_string()⟧;
                Err(context.add(message))
            }
        }
    }
//@end
}
impl JsJsonSerialize for u64 {
    open spec fn ser(self, j: JsJson) -> bool { j == JsJson::Number(u_f(self)) }
//@item impl JsJsonSerialize for u64 :: fn to_json
    fn to_json(self) -> JsJson {
        JsJson::Number(⟦self as f64⇒vx_u_f(self)⟧)
    }
//@end
}
impl JsJsonDeserialize for u64 {
    open spec fn accepts(j: JsJson) -> bool { true }
    open spec fn reads(j: JsJson) -> bool { j is Number }
    open spec fn de(j: JsJson, v: u64) -> bool { v == f_u(j->Number_0) }
//@item impl JsJsonDeserialize for u64 :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        match json {
            JsJson::Number(value) => Ok(⟦value as u64⇒vx_f_u(value)⟧),
            other => {
                let message = ⟦["number(u64) expected, received ", other.typename()].concat()⇒vx_string()⟧;
                Err(context.add(message))
            }
        }
    }
//@end
}
impl JsJsonSerialize for i64 {
    open spec fn ser(self, j: JsJson) -> bool { j == JsJson::Number(i_f(self)) }
//@item impl JsJsonSerialize for i64 :: fn to_json
    fn to_json(self) -> JsJson {
        JsJson::Number(⟦self as f64⇒vx_i_f(self)⟧)
    }
//@end
}
impl JsJsonDeserialize for i64 {
    open spec fn accepts(j: JsJson) -> bool { true }
    open spec fn reads(j: JsJson) -> bool { j is Number }
    open spec fn de(j: JsJson, v: i64) -> bool { v == f_i(j->Number_0) }
//@item impl JsJsonDeserialize for i64 :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        match json {
            JsJson::Number(value) => Ok(⟦value as i64⇒vx_f_i(value)⟧),
            other => {
                let message = ⟦["number(i64) expected, received ", other.typename()].concat()⇒vx_string()⟧;
                Err(context.add(message))
            }
        }
    }
//@end
}
impl JsJsonSerialize for u32 {
    open spec fn ser(self, j: JsJson) -> bool { j == JsJson::Number(w_f(self)) }
//@item impl JsJsonSerialize for u32 :: fn to_json
    fn to_json(self) -> JsJson {
        JsJson::Number(⟦self as f64⇒vx_w_f(self)⟧)
    }
//@end
}
impl JsJsonDeserialize for u32 {
    open spec fn accepts(j: JsJson) -> bool { true }
    open spec fn reads(j: JsJson) -> bool { j is Number }
    open spec fn de(j: JsJson, v: u32) -> bool { v == f_w(j->Number_0) }
//@item impl JsJsonDeserialize for u32 :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        match json {
            JsJson::Number(value) => Ok(⟦value as u32⇒vx_f_w(value)⟧),
            other => {
                let message = ⟦["number(u32) expected, received ", other.typename()].concat()⇒vx_string()⟧;
                Err(context.add(message))
            }
        }
    }
//@end
}
impl JsJsonSerialize for i32 {
    open spec fn ser(self, j: JsJson) -> bool { j == JsJson::Number(h_f(self)) }
//@item impl JsJsonSerialize for i32 :: fn to_json
    fn to_json(self) -> JsJson {
        JsJson::Number(⟦self as f64⇒vx_h_f(self)⟧)
    }
//@end
}
impl JsJsonDeserialize for i32 {
    open spec fn accepts(j: JsJson) -> bool { true }
    open spec fn reads(j: JsJson) -> bool { j is Number }
    open spec fn de(j: JsJson, v: i32) -> bool { v == f_h(j->Number_0) }
//@item impl JsJsonDeserialize for i32 :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        match json {
            JsJson::Number(value) => Ok(⟦value as i32⇒vx_f_h(value)⟧),
            other => {
                let message = ⟦["number(i32) expected, received ", other.typename()].concat()⇒vx_string()⟧;
                Err(context.add(message))
            }
        }
    }
//@end
}
impl JsJsonSerialize for bool {
    open spec fn ser(self, j: JsJson) -> bool { j == (if self { JsJson::True } else { JsJson::False }) }
//@item impl JsJsonSerialize for bool :: fn to_json
    fn to_json(self) -> JsJson {
        match self {
            false => JsJson::False,
            true => JsJson::True,
        }
    }
//@end
}
impl JsJsonDeserialize for bool {
    open spec fn accepts(j: JsJson) -> bool { true }
    open spec fn reads(j: JsJson) -> bool { j is True || j is False }
    open spec fn de(j: JsJson, v: bool) -> bool { v == (j is True) }
//@item impl JsJsonDeserialize for bool :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        match json {
            JsJson::False => Ok(false),
            JsJson::True => Ok(true),
            other => {
                let message = ⟦["bool expected, received ", other.typename()].concat()⇒vx_string()⟧;
                Err(context.add(message))
            }
        }
    }
//@end
}
impl JsJsonSerialize for () {
    open spec fn ser(self, j: JsJson) -> bool { j is Object && j->Object_0@ == Map::<String, JsJson>::empty() }
//@item impl JsJsonSerialize for ( ) :: fn to_json
    fn to_json(self) -> JsJson {
        JsJson::Object(⟦HashMap::default()⇒HashMap::new()⟧)
    }
//@end
}
impl JsJsonDeserialize for () {
    open spec fn accepts(j: JsJson) -> bool { true }
    open spec fn reads(j: JsJson) -> bool { j is Object && j->Object_0@.len() == 0 }
    open spec fn de(j: JsJson, v: ()) -> bool { true }
//@item impl JsJsonDeserialize for ( ) :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        let map = json.get_hashmap(&context)?;

        if !map.is_empty() {
            let message = ⟦"Empty {} expected, inner content received".to_string()⇒vx_string()⟧;
            return Err(context.add(message))
        }

        Ok(())
    }
//@end
}
impl JsJsonSerialize for &str {
    open spec fn ser(self, j: JsJson) -> bool { j is String && (j->String_0)@ == self@ }
//@item impl JsJsonSerialize for & str :: fn to_json
    fn to_json(self) -> JsJson {
        JsJson::String(⟦self.into()⇒vx_owned(self)⟧)
    }
//@end
}
impl<T: JsJsonSerialize> JsJsonSerialize for Vec<T> {
    open spec fn ser(self, j: JsJson) -> bool {
        &&& j is List
        &&& (j->List_0)@.len() == self@.len()
        &&& forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).ser((j->List_0)@[i])
    }
//@item impl JsJsonSerialize for Vec :: fn to_json
    fn to_json(self) -> JsJson {
        let mut list = Vec::new();

        for item in «it:» self
            «invariant
                it.seq() == self@, list@.len() == it.index@,
                forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self@[i]).ser(list@[i]),»
        {
            list.push(item.to_json());
        }

        JsJson::List(list)
    }
//@end
}
impl<T: JsJsonDeserialize> JsJsonDeserialize for Vec<T> {
    open spec fn accepts(j: JsJson) -> bool { j is List ==> forall|i: int| 0 <= i < (j->List_0)@.len() ==> T::accepts(#[trigger] (j->List_0)@[i]) }
    open spec fn reads(j: JsJson) -> bool { j is List && forall|i: int| 0 <= i < (j->List_0)@.len() ==> T::reads(#[trigger] (j->List_0)@[i]) }
    open spec fn de(j: JsJson, v: Vec<T>) -> bool {
        &&& v@.len() == (j->List_0)@.len()
        &&& forall|i: int| 0 <= i < v@.len() ==> T::de((j->List_0)@[i], #[trigger] v@[i])
    }
//@item impl JsJsonDeserialize for Vec :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        let mut list = Vec::new();

        let JsJson::List(inner) = json else {
            let message = ⟦["List expected, received ", json.typename()].concat()⇒vx_string()⟧;
            return Err(context.add(message));
        };
        «let ghost all = inner@;»

        for (index, item) in «it:» ⟦inner.into_iter().enumerate()⇒vx_enumerate(inner)⟧
            «invariant
                json is List, all == (json->List_0)@, Vec::<T>::accepts(json),
                it.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] it.seq()[i]).1 == all[i],
                list@.len() == it.index@,
                forall|i: int| 0 <= i < it.index@ ==> T::reads(#[trigger] all[i]),
                forall|i: int| 0 <= i < it.index@ ==> T::de(all[i], #[trigger] list@[i]),»
        {
            «proof { assert(it.seq()[it.index@ as int].1 == all[it.index@ as int]); assert((json->List_0)@[it.index@ as int] == item); }»
            list.push(T::from_json(context.add(index), item)?);
        }

        Ok(list)
    }
//@end
}
impl<T: JsJsonSerialize> JsJsonSerialize for Option<T> {
    open spec fn ser(self, j: JsJson) -> bool {
        match self {
            Some(v) => v.ser(j),
            None => j is Null,
        }
    }
//@item impl JsJsonSerialize for Option :: fn to_json
    fn to_json(self) -> JsJson {
        match self {
            Some(value) => value.to_json(),
            None => JsJson::Null,
        }
    }
//@end
}
impl<T: JsJsonDeserialize> JsJsonDeserialize for Option<T> {
    open spec fn accepts(j: JsJson) -> bool { j is Null || T::accepts(j) }
    open spec fn reads(j: JsJson) -> bool { j is Null || T::reads(j) }
    open spec fn de(j: JsJson, v: Option<T>) -> bool { if j is Null { v is None } else { v is Some && T::de(j, v->0) } }
//@item impl JsJsonDeserialize for Option :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        if let JsJson::Null = json {
            return Ok(None);
        }

        Ok(Some(T::from_json(context, json)?))
    }
//@end
}
impl<T: JsJsonSerialize> JsJsonSerialize for HashMap<String, T> {
    open spec fn ser(self, j: JsJson) -> bool { j is Object && map_ser(self@, j->Object_0@) }
//@item impl JsJsonSerialize for HashMap :: fn to_json
    fn to_json(self) -> JsJson {
        «let ghost m = self@;»
        let mut result = HashMap::new();

        for (key, item) in «it:» ⟦self⇒vx_pairs(self)⟧
            «invariant pairs_of(m, it.seq()), put(it.seq(), it.index@ as int, result@),»
        {
            «proof { assert(it.seq()[it.index@ as int] == (key, item)); }
            let ghost r0 = result@;»
            result.insert(key, item.to_json());
            «proof { lemma_put(it.seq(), it.index@ as int, r0, result@); }»
        }
        «proof { lemma_put_all(m, result@); }»

        JsJson::Object(result)
    }
//@end
}
impl<T: JsJsonDeserialize> JsJsonDeserialize for HashMap<String, T> {
    open spec fn accepts(j: JsJson) -> bool { j is Object ==> forall|k: String| #[trigger] j->Object_0@.dom().contains(k) ==> T::accepts(j->Object_0@[k]) }
    open spec fn reads(j: JsJson) -> bool { j is Object && forall|k: String| #[trigger] j->Object_0@.dom().contains(k) ==> T::reads(j->Object_0@[k]) }
    open spec fn de(j: JsJson, v: HashMap<String, T>) -> bool { map_de(j->Object_0@, v@) }
//@item impl JsJsonDeserialize for HashMap :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        «let ghost m = json->Object_0@;»
        let map = json.get_hashmap(&context)?;

        let mut result = HashMap::new();

        for (key, item) in «it:» ⟦map⇒vx_pairs(map)⟧
            «invariant
                json is Object, m == json->Object_0@, HashMap::<String, T>::accepts(json),
                pairs_of(m, it.seq()), got(it.seq(), it.index@ as int, result@),»
        {
            «proof { assert(it.seq()[it.index@ as int] == (key, item)); assert(m.dom().contains(key)); assert(m[key] == item); }
            let ghost r0 = result@;»
            let context = context.add(⟦["field: '", key.as_str(), "'"].concat()⇒vx_string()⟧);
            let value = T::from_json(context, item)?;
            result.insert(key, value);
            «proof { lemma_got(it.seq(), it.index@ as int, r0, result@); }»
        }
        «proof { lemma_got_all(m, result@); }»

        Ok(result)
    }
//@end
}
impl<T: JsJsonSerialize> JsJsonSerialize for BTreeMap<String, T> {
    open spec fn ser(self, j: JsJson) -> bool { j is Object && map_ser(self@, j->Object_0@) }
//@item impl JsJsonSerialize for BTreeMap :: fn to_json
    fn to_json(self) -> JsJson {
        «let ghost m = self@;»
        let mut result = HashMap::new();

        for (key, item) in «it:» ⟦self⇒vx_bpairs(self)⟧
            «invariant pairs_of(m, it.seq()), put(it.seq(), it.index@ as int, result@),»
        {
            «proof { assert(it.seq()[it.index@ as int] == (key, item)); }
            let ghost r0 = result@;»
            result.insert(key, item.to_json());
            «proof { lemma_put(it.seq(), it.index@ as int, r0, result@); }»
        }
        «proof { lemma_put_all(m, result@); }»

        JsJson::Object(result)
    }
//@end
}
impl<T: JsJsonDeserialize> JsJsonDeserialize for BTreeMap<String, T> {
    open spec fn accepts(j: JsJson) -> bool { j is Object ==> forall|k: String| #[trigger] j->Object_0@.dom().contains(k) ==> T::accepts(j->Object_0@[k]) }
    open spec fn reads(j: JsJson) -> bool { j is Object && forall|k: String| #[trigger] j->Object_0@.dom().contains(k) ==> T::reads(j->Object_0@[k]) }
    open spec fn de(j: JsJson, v: BTreeMap<String, T>) -> bool { map_de(j->Object_0@, v@) }
//@item impl JsJsonDeserialize for BTreeMap :: fn from_json
    fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
        «let ghost m = json->Object_0@;»
        let map = json.get_hashmap(&context)?;

        let mut result = BTreeMap::new();

        for (key, item) in «it:» ⟦map⇒vx_pairs(map)⟧
            «invariant
                json is Object, m == json->Object_0@, BTreeMap::<String, T>::accepts(json),
                pairs_of(m, it.seq()), got(it.seq(), it.index@ as int, result@),»
        {
            «proof { assert(it.seq()[it.index@ as int] == (key, item)); assert(m.dom().contains(key)); assert(m[key] == item); }
            let ghost r0 = result@;»
            let context = context.add(⟦["field: '", key.as_str(), "'"].concat()⇒vx_string()⟧);
            let value = T::from_json(context, item)?;
            result.insert(key, value);
            «proof { lemma_got(it.seq(), it.index@ as int, r0, result@); }»
        }
        «proof { lemma_got_all(m, result@); }»

        Ok(result)
    }
//@end
}
pub open spec fn map_ser<T: JsJsonSerialize>(m: Map<String, T>, e: Map<String, JsJson>) -> bool {
    &&& forall|k: String| #[trigger] e.dom().contains(k) <==> m.dom().contains(k)
    &&& forall|k: String| #[trigger] e.dom().contains(k) ==> m[k].ser(e[k])
}
pub open spec fn map_de<T: JsJsonDeserialize>(e: Map<String, JsJson>, m: Map<String, T>) -> bool {
    &&& forall|k: String| #[trigger] e.dom().contains(k) <==> m.dom().contains(k)
    &&& forall|k: String| #[trigger] e.dom().contains(k) ==> T::de(e[k], m[k])
}
// the first n entries of a map, encoded; decoded
pub open spec fn put<T: JsJsonSerialize>(r: Seq<(String, T)>, n: int, e: Map<String, JsJson>) -> bool {
    &&& 0 <= n <= r.len()
    &&& forall|k: String| #[trigger] e.dom().contains(k) <==> exists|i: int| 0 <= i < n && (#[trigger] r[i]).0 == k
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).1.ser(e[r[i].0])
}
pub open spec fn got<T: JsJsonDeserialize>(r: Seq<(String, JsJson)>, n: int, m: Map<String, T>) -> bool {
    &&& 0 <= n <= r.len()
    &&& forall|k: String| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < n && (#[trigger] r[i]).0 == k
    &&& forall|i: int| 0 <= i < n ==> T::reads((#[trigger] r[i]).1) && T::de(r[i].1, m[r[i].0])
}
pub open spec fn nodup<T>(r: Seq<(String, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0 }
proof fn lemma_put<T: JsJsonSerialize>(r: Seq<(String, T)>, n: int, e0: Map<String, JsJson>, e: Map<String, JsJson>)
    requires nodup(r), put(r, n, e0), n < r.len(), e == e0.insert(r[n].0, e[r[n].0]), r[n].1.ser(e[r[n].0]),
    ensures put(r, n + 1, e),
{
    assert forall|k: String| #[trigger] e.dom().contains(k) <==> exists|i: int| 0 <= i < n + 1 && (#[trigger] r[i]).0 == k by {
        if e.dom().contains(k) {
            if k == r[n].0 {} else { assert(e0.dom().contains(k)); }
        }
        if exists|i: int| 0 <= i < n + 1 && (#[trigger] r[i]).0 == k {
            let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] r[i]).0 == k;
            if i < n { assert(e0.dom().contains(k)); }
        }
    }
}
proof fn lemma_got<T: JsJsonDeserialize>(r: Seq<(String, JsJson)>, n: int, m0: Map<String, T>, m: Map<String, T>)
    requires nodup(r), got(r, n, m0), n < r.len(), m == m0.insert(r[n].0, m[r[n].0]), T::reads(r[n].1), T::de(r[n].1, m[r[n].0]),
    ensures got(r, n + 1, m),
{
    assert forall|k: String| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < n + 1 && (#[trigger] r[i]).0 == k by {
        if m.dom().contains(k) {
            if k == r[n].0 {} else { assert(m0.dom().contains(k)); }
        }
        if exists|i: int| 0 <= i < n + 1 && (#[trigger] r[i]).0 == k {
            let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] r[i]).0 == k;
            if i < n { assert(m0.dom().contains(k)); }
        }
    }
}
proof fn lemma_put_all<T: JsJsonSerialize>(m: Map<String, T>, e: Map<String, JsJson>)
    requires exists|r: Seq<(String, T)>| #[trigger] pairs_of(m, r) && put(r, r.len() as int, e),
    ensures map_ser(m, e),
{
    let r = choose|r: Seq<(String, T)>| #[trigger] pairs_of(m, r) && put(r, r.len() as int, e);
    assert forall|k: String| #[trigger] e.dom().contains(k) implies m[k].ser(e[k]) by {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k;
        assert(m[r[i].0] == r[i].1);
    }
}
proof fn lemma_got_all<T: JsJsonDeserialize>(e: Map<String, JsJson>, m: Map<String, T>)
    requires exists|r: Seq<(String, JsJson)>| #[trigger] pairs_of(e, r) && got(r, r.len() as int, m),
    ensures map_de(e, m), forall|k: String| #[trigger] e.dom().contains(k) ==> T::reads(e[k]),
{
    let r = choose|r: Seq<(String, JsJson)>| #[trigger] pairs_of(e, r) && got(r, r.len() as int, m);
    assert forall|k: String| #[trigger] e.dom().contains(k) implies T::de(e[k], m[k]) && T::reads(e[k]) by {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k;
        assert(e[r[i].0] == r[i].1);
    }
}
//@item fn from_json
pub fn from_json<T: JsJsonDeserialize>(json: JsJson) -> «(r:» Result<T, String> «)
    requires T::accepts(json),
    ensures r is Ok <==> T::reads(json), r is Ok ==> T::de(json, r->Ok_0),»
{
    let context = JsJsonContext::new("root");
    let result = T::from_json(context, json);
    result.map_err(|context «: JsJsonContext»| context.convert_to_string())
}
//@end
//@item fn to_json
pub fn to_json<T: JsJsonSerialize>(value: T) -> «(r:» JsJson «) ensures value.ser(r),»
{
    value.to_json()
}
//@end
