// ---- matching one call ------------------------------------------------------------------------------------------------
proof fn lemma_vs(l: Seq<JsValue>)
    ensures
        vs(l).len() == l.len(),
        l.len() > 0 ==> vs(l)[0] == v(l[0]) && vs(l.skip(1)) == vs(l).skip(1),
{
    if l.len() > 0 { assert(vs(l.skip(1)) =~= vs(l).skip(1)); }
}
use pat::pattern;
mod pat {
    use super::*;
    pub open spec fn pattern(l: Seq<&str>) -> Seq<V> { l.map_values(|x: &str| V::Str(x@)) }
    pub broadcast proof fn lemma_pattern(l: Seq<&str>)
        ensures
            (#[trigger] pattern(l)).len() == l.len(),
            l.len() == 1 ==> pattern(l) == seq![V::Str(l[0]@)],
            l.len() == 2 ==> pattern(l) == seq![V::Str(l[0]@), V::Str(l[1]@)],
    {
        if l.len() == 1 { assert(pattern(l) =~= seq![V::Str(l[0]@)]); }
        if l.len() == 2 { assert(pattern(l) =~= seq![V::Str(l[0]@), V::Str(l[1]@)]); }
    }
}

//@file crates/vertigo-cli/src/serve/wasm/js_value_match.rs
//@item struct Match
pub struct Match<'a> {
    list: &'a [JsValue],
}
//@end
impl<'a> Match<'a> {
    // what is still to be matched
    pub closed spec fn left(self) -> Seq<V> { vs(self.list@) }
//@item impl Match :: fn new
    pub fn new(value: &'a JsValue) -> «(r:» Result<Match<'a>, ()> «)
        ensures r is Ok <==> v(*value) is List, r is Ok ==> r->Ok_0.left() == v(*value)->List_0,»
    {
        if let JsValue::List(list) = value {
            «proof { lemma_v_list(*list); }»
            return Ok(Match {
                list: list.as_slice(),
            });
        }

        Err(())
    }
//@end
//@item impl Match :: fn from_slice
    pub fn from_slice(list: &'a [JsValue]) -> «(r:» Match<'a> «) ensures r.left() == vs(list@),»
    {
        Match { list }
    }
//@end
//@item impl Match :: fn str
    pub fn str(&self, pattern: &str) -> «(r:» Result<Self, ()> «)
        ensures
            r is Ok <==> self.left().len() > 0 && self.left()[0] == V::Str(pattern@),
            r is Ok ==> r->Ok_0.left() == self.left().skip(1),»
    {
        let list = self.list;
        «proof { lemma_vs(list@); }»

        let Some((JsValue::String(value), rest)) = ⟦list.split_first()⇒vx_split_first(list)⟧ else {
            return Err(());
        };

        if ⟦pattern == value⇒vx_eq(pattern, value)⟧ {
            return Ok(Self { list: rest });
        }

        Err(())
    }
//@end
//@item impl Match :: fn u32
    pub fn u32(&self) -> «(r:» Result<(Self, u32), ()> «)
        ensures
            r is Ok <==> self.left().len() > 0 && is_u32(self.left()[0]),
            r is Ok ==> r->Ok_0.0.left() == self.left().skip(1) && self.left()[0] == u32v(r->Ok_0.1),»
    {
        let list = self.list;
        «proof { lemma_vs(list@); }»

        let Some((JsValue::U32(value), rest)) = ⟦list.split_first()⇒vx_split_first(list)⟧ else {
            return Err(());
        };

        Ok((Self { list: rest }, *value))
    }
//@end
//@item impl Match :: fn u64
    pub fn u64(&self) -> «(r:» Result<(Self, u64), ()> «)
        ensures
            r is Ok <==> self.left().len() > 0 && is_u64(self.left()[0]),
            r is Ok ==> r->Ok_0.0.left() == self.left().skip(1) && self.left()[0] == u64v(r->Ok_0.1),»
    {
        let list = self.list;
        «proof { lemma_vs(list@); }»

        let Some((JsValue::U64(value), rest)) = ⟦list.split_first()⇒vx_split_first(list)⟧ else {
            return Err(());
        };

        Ok((Self { list: rest }, *value))
    }
//@end
//@item impl Match :: fn string
    pub fn string(&self) -> «(r:» Result<(Self, String), ()> «)
        ensures
            r is Ok <==> self.left().len() > 0 && self.left()[0] is Str,
            r is Ok ==> r->Ok_0.0.left() == self.left().skip(1) && self.left()[0] == V::Str(r->Ok_0.1@),»
    {
        let list = self.list;
        «proof { lemma_vs(list@); }»

        let Some((JsValue::String(value), rest)) = ⟦list.split_first()⇒vx_split_first(list)⟧ else {
            return Err(());
        };

        Ok((Self { list: rest }, ⟦value.clone()⇒vx_clone_string(value)⟧))
    }
//@end
//@item impl Match :: fn json
    pub fn json(&self) -> «(r:» Result<(Self, JsJson), ()> «)
        ensures
            r is Ok <==> self.left().len() > 0 && is_json(self.left()[0]),
            r is Ok ==> r->Ok_0.0.left() == self.left().skip(1) && self.left()[0] == jsonv(r->Ok_0.1),»
    {
        let list = self.list;
        «proof { lemma_vs(list@); }»

        let Some((JsValue::Json(value), rest)) = ⟦list.split_first()⇒vx_split_first(list)⟧ else {
            return Err(());
        };

        Ok((Self { list: rest }, ⟦value.clone()⇒vx_clone_json(value)⟧))
    }
//@end
//@item impl Match :: fn get_any
    pub fn get_any(&self) -> «(r:» Result<(Self, JsValue), ()> «)
        ensures
            r is Ok <==> self.left().len() > 0,
            r is Ok ==> r->Ok_0.0.left() == self.left().skip(1) && self.left()[0] == v(r->Ok_0.1),»
    {
        let list = self.list;
        «proof { lemma_vs(list@); }»

        let Some((value, rest)) = ⟦list.split_first()⇒vx_split_first(list)⟧ else {
            return Err(());
        };

        Ok((Self { list: rest }, ⟦value.clone()⇒vx_clone_value(value)⟧))
    }
//@end
//@item impl Match :: fn test_list
    pub fn test_list(&self, list_pattern: &[&str]) -> «(r:» Result<Self, ()> «)
        ensures
            r is Ok <==> self.left().len() > 0 && self.left()[0] == V::List(pattern(list_pattern@)),
            r is Ok ==> r->Ok_0.left() == self.left().skip(1),»
    {
        let Match { list: inner_list } = self;
        «proof { lemma_vs(inner_list@); }»

        let Some((JsValue::List(first_inner_list), rest)) = ⟦inner_list.split_first()⇒vx_split_first(inner_list)⟧ else {
            return Err(());
        };
        «let ghost want = pattern(list_pattern@);
        let ghost have = vs(first_inner_list@);
        proof { lemma_v_list(*first_inner_list); assert(self.left()[0] == V::List(have)); assert(want.len() == list_pattern@.len() && have.len() == first_inner_list@.len()); }»

        if list_pattern.len() != first_inner_list.len() {
            return Err(());
        }

        for (index, item_pattern) in «it:» ⟦list_pattern.iter().enumerate()⇒vx_enumerate(list_pattern)⟧
            «invariant
                it.seq().len() == list_pattern@.len(), forall|i: int| 0 <= i < list_pattern@.len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == list_pattern@[i],
                want == pattern(list_pattern@), have == vs(first_inner_list@), have.len() == want.len(),
                forall|i: int| 0 <= i < it.index@ ==> have[i] == #[trigger] want[i],
                self.left().len() > 0, self.left()[0] == V::List(have),»
        {
            «proof { assert(it.seq()[it.index@ as int] == (index, item_pattern)); assert(want[index as int] == V::Str(item_pattern@)); assert(have[index as int] == v(first_inner_list@[index as int])); }»
            let Some(value) = first_inner_list.get(index) else {
                return Err(());
            };

            let JsValue::String(inner_str) = value else {
                return Err(());
            };

            if ⟦*item_pattern != inner_str⇒!vx_eq(*item_pattern, inner_str)⟧ {
                return Err(());
            }
        }
        «proof { assert(have =~= want); }»

        Ok(Self { list: rest })
    }
//@end
//@item impl Match :: fn test_list_with_fn
    pub fn test_list_with_fn<K«, F: Fn(Match<'a>) -> Result<K, ()>»>(
        &self,
        test_fn: ⟦impl Fn(Match<'a>) -> Result<K, ()>⇒F⟧,
    ) -> «(r:» Result<(Self, K), ()> «)
        requires forall|m: Match<'a>| call_requires(test_fn, (m,)),
        ensures
            !(self.left().len() > 0 && self.left()[0] is List) ==> r is Err,
            self.left().len() > 0 && self.left()[0] is List ==> exists|m: Match<'a>, x: Result<K, ()>| m.left() == self.left()[0]->List_0 && #[trigger] call_ensures(test_fn, (m,), x)
                && (x is Ok <==> r is Ok) && (r is Ok ==> r->Ok_0.1 == x->Ok_0 && r->Ok_0.0.left() == self.left().skip(1)),»
    {
        let Match { list: inner_list } = self;
        «proof { lemma_vs(inner_list@); }»

        let Some((JsValue::List(first_inner_list), rest)) = ⟦inner_list.split_first()⇒vx_split_first(inner_list)⟧ else {
            return Err(());
        };

        «proof { lemma_v_list(*first_inner_list); }»
        let new_self = Self { list: rest };

        if let Ok(result_test) = test_fn(Match::from_slice(first_inner_list.as_slice())) {
            return Ok((new_self, result_test));
        }

        Err(())
    }
//@end
//@item impl Match :: fn end
    pub fn end(&self) -> «(r:» Result<(), ()> «)
        ensures r is Ok <==> self.left().len() == 0,»
    {
        let Match { list: value } = self;

        if value.is_empty() {
            Ok(())
        } else {
            Err(())
        }
    }
//@end
}
