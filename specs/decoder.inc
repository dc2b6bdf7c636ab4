pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (q: &VecDeque<T, A>) -> (r: bool)
    ensures r == (q@.len() == 0);

fn vx_deque<T>(v: Vec<T>) -> (r: VecDeque<T>)
    ensures r@ == v@,
{
    let mut out: VecDeque<T> = VecDeque::new();
    for x in it: v
        invariant it.seq() == v@, out@ == v@.take(it.index@ as int),
    {
        out.push_back(x);
        assert(v@.take(it.index@ + 1) =~= v@.take(it.index@ as int).push(x));
    }
    assert(v@.take(v@.len() as int) =~= v@);
    out
}
// (index, element) pairs of a vector, in order
fn vx_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]),
{
    let mut out: Vec<(usize, T)> = Vec::new();
    let mut n: usize = 0;
    let ghost len = v@.len();
    assert(v@.len() == v.len());
    let cap = v.len();
    for x in it: v
        invariant it.seq() == v@, n == it.index@, out@.len() == n, n <= cap, cap == v@.len(), n <= v@.len(),
            forall|i: int| 0 <= i < n ==> #[trigger] out@[i] == (i as usize, v@[i]),
    {
        out.push((n, x));
        n = n + 1;
    }
    out
}

//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
impl JsValue {
//@item impl JsValue :: fn typename
    pub fn typename(&self) -> &'static str {
        match self {
            Self::U32(_) => "u32",
            Self::I32(_) => "i32",
            Self::U64(_) => "u64",
            Self::I64(_) => "i64",
            Self::F64(_) => "f64",
            Self::True => "true",
            Self::False => "false",
            Self::Null => "null",
            Self::Undefined => "undefined",
            Self::Vec(_) => "vec",
            Self::String(_) => "string",
            Self::List(_) => "list",
            Self::Object(_) => "object",
            Self::Json(_) => "json",
        }
    }
//@end
//@item impl JsValue :: fn convert
    pub fn convert<T, F: FnOnce(JsValueListDecoder) -> Result<T, String>>(
        self,
        convert: F,
    ) -> «(r:» Result<T, String> «)
        requires forall|d: JsValueListDecoder| call_requires(convert, (d,)),
        ensures
            self is List ==> exists|d: JsValueListDecoder| d.items() == self->List_0@ && call_ensures(convert, (d,), r),
            !(self is List) ==> r is Err,»
    {
        match self {
            JsValue::List(list) => {
                let decoder = JsValueListDecoder::new(list);
                convert(decoder)
            }
            _ => Err(⟦String::from("convert => ParamItem::Vec expected")⇒vx_string()⟧),
        }
    }
//@end
}
//@file crates/vertigo/src/driver_module/js_value/js_value_list_decoder.rs
//@item struct JsValueListDecoder
«pub» struct JsValueListDecoder {
    data: VecDeque<JsValue>,
}
//@end
// what a read leaves behind
pub open spec fn rest(s: Seq<JsValue>) -> Seq<JsValue> { if s.len() == 0 { s } else { s.skip(1) } }
impl JsValueListDecoder {
    pub closed spec fn items(self) -> Seq<JsValue> { self.data@ }
//@item impl JsValueListDecoder :: fn new
    pub fn new(data: Vec<JsValue>) -> «(r:» JsValueListDecoder «)
        ensures r.items() == data@,»
    {
        JsValueListDecoder {
            data: ⟦VecDeque::from(data)⇒vx_deque(data)⟧,
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_buffer
    pub fn get_buffer(&mut self, label: &'static str) -> «(r:» Result<Vec<u8>, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (old(self).items()[0] is Vec ==> r == Ok::<_, String>(old(self).items()[0]->Vec_0)),
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is Vec) ==> r is Err),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        match value {
            JsValue::Vec(buffer) => Ok(buffer),
            item => {
                let name = item.typename();
                Err(⟦format!("{label} -> buffer expected, received {name}")⇒vx_string()⟧)
            }
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_u64
    pub fn get_u64(&mut self, label: &'static str) -> «(r:» Result<u64, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (old(self).items()[0] is U64 ==> r == Ok::<_, String>(old(self).items()[0]->U64_0)),
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is U64) ==> r is Err),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        match value {
            JsValue::U64(value) => Ok(value),
            item => {
                let name = item.typename();
                Err(⟦format!("{label} -> u64 expected, received {name}")⇒vx_string()⟧)
            }
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_u64_or_null
    pub fn get_u64_or_null(&mut self, label: &'static str) -> «(r:» Result<Option<u64>, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (old(self).items()[0] is U64 ==> r == Ok::<_, String>(Some(old(self).items()[0]->U64_0))),
            old(self).items().len() > 0 ==> (old(self).items()[0] is Null ==> r == Ok::<_, String>(None::<u64>)),
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is U64) && !(old(self).items()[0] is Null) ==> r is Err),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        match value {
            JsValue::U64(value) => Ok(Some(value)),
            JsValue::Null => Ok(None),
            item => {
                let name = item.typename();
                Err(⟦format!("{label} -> Option<u64> expected, received {name}")⇒vx_string()⟧)
            }
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_string
    pub fn get_string(&mut self, label: &'static str) -> «(r:» Result<String, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (old(self).items()[0] is String ==> r == Ok::<_, String>(old(self).items()[0]->String_0)),
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is String) ==> r is Err),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        match value {
            JsValue::String(value) => Ok(value),
            item => {
                let name = item.typename();
                Err(⟦format!("{label} -> String expected, received {name}")⇒vx_string()⟧)
            }
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_u32
    pub fn get_u32(&mut self, label: &'static str) -> «(r:» Result<u32, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (old(self).items()[0] is U32 ==> r == Ok::<_, String>(old(self).items()[0]->U32_0)),
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is U32) ==> r is Err),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        match value {
            JsValue::U32(value) => Ok(value),
            item => {
                let name = item.typename();
                Err(⟦format!("{label} -> u32 expected, received {name}")⇒vx_string()⟧)
            }
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_any
    pub fn get_any(&mut self, label: &'static str) -> «(r:» Result<JsValue, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (r == Ok::<_, String>(old(self).items()[0])),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        Ok(value)
    }
//@end
//@item impl JsValueListDecoder :: fn get_json
    pub fn get_json(&mut self, label: &'static str) -> «(r:» Result<JsJson, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (old(self).items()[0] is Json ==> r == Ok::<_, String>(old(self).items()[0]->Json_0)),
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is Json) ==> r is Err),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        match value {
            JsValue::Json(value) => Ok(value),
            item => {
                let name = item.typename();
                Err(⟦format!("{label} -> json expected, received {name}")⇒vx_string()⟧)
            }
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_bool
    pub fn get_bool(&mut self, label: &'static str) -> «(r:» Result<bool, String> «)
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (old(self).items()[0] is True ==> r == Ok::<_, String>(true)),
            old(self).items().len() > 0 ==> (old(self).items()[0] is False ==> r == Ok::<_, String>(false)),
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is True) && !(old(self).items()[0] is False) ==> r is Err),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        match value {
            JsValue::True => Ok(true),
            JsValue::False => Ok(false),
            item => {
                let name = item.typename();
                Err(⟦format!("{label} -> bool expected, received {name}")⇒vx_string()⟧)
            }
        }
    }
//@end
//@item impl JsValueListDecoder :: fn get_vec
    pub fn get_vec<R, F: Fn(JsValue) -> Result<R, String>>(
        &mut self,
        label: &'static str,
        convert: F,
    ) -> «(r:» Result<Vec<R>, String> «)
        requires forall|v: JsValue| call_requires(convert, (v,)),
        ensures final(self).items() == rest(old(self).items()), old(self).items().len() == 0 ==> r is Err,
            old(self).items().len() > 0 ==> (!(old(self).items()[0] is List) ==> r is Err),
            old(self).items().len() > 0 ==> (old(self).items()[0] is List ==> match r {
                Ok(v) => v@.len() == old(self).items()[0]->List_0@.len() && forall|i: int| 0 <= i < v@.len() ==> call_ensures(convert, (#[trigger] old(self).items()[0]->List_0@[i],), Ok(v@[i])),
                Err(_) => exists|i: int, e: String| 0 <= i < old(self).items()[0]->List_0@.len() && call_ensures(convert, (#[trigger] old(self).items()[0]->List_0@[i],), #[trigger] vx_err::<R>(e)),
            }),»
    {
        let Some(value) = self.data.pop_front() else {
            return Err(⟦format!("{label} -> has no more params")⇒vx_string()⟧);
        };

        let inner_list = match value {
            JsValue::List(list) => list,
            item => {
                let name = item.typename();
                return Err(⟦format!("{label} -> list expected, received {name}")⇒vx_string()⟧);
            }
        };

        «let ghost l = inner_list@;»
        let mut result = Vec::new();

        for (index, item) in «it:» ⟦inner_list.into_iter().enumerate()⇒vx_enumerate(inner_list)⟧
            «invariant it.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] it.seq()[i] == (i as usize, l[i]),
                forall|v: JsValue| call_requires(convert, (v,)), result@.len() == it.index@,
                self.items() == rest(old(self).items()), old(self).items().len() > 0, old(self).items()[0] is List, old(self).items()[0]->List_0@ == l,
                forall|i: int| 0 <= i < result@.len() ==> call_ensures(convert, (#[trigger] l[i],), Ok(result@[i])),»
        {
            «proof { assert(it.seq()[it.index@ as int] == (index, item)); assert(l[it.index@ as int] == item); }»
            match convert(item) {
                Ok(value) => {
                    result.push(value);
                }
                Err(error) => {
                    «proof { assert(vx_err::<R>(error) == Err::<R, String>(error)); }»
                    return Err(⟦format!("{label} -> index:{index} -> {error}")⇒vx_string()⟧);
                }
            }
        }

        Ok(result)
    }
//@end
//@item impl JsValueListDecoder :: fn expect_no_more
    pub fn expect_no_more(self) -> «(r:» Result<(), String> «)
        ensures r is Ok <==> self.items().len() == 0,»
    {
        if self.data.is_empty() {
            Ok(())
        } else {
            Err(⟦String::from("Too many params")⇒vx_string()⟧)
        }
    }
//@end
}
pub open spec fn vx_err<R>(e: String) -> Result<R, String> { Err(e) }
