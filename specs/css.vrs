#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::cmp::*;
use std::collections::HashMap;
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key, skx::axiom_str_key};

//@include struct_mut.inc
//@include hash_map_mut.inc
//@include strings.inc
//@include css_text.inc
//@include css_rules.inc

//@file crates/vertigo/src/css/transform_css/splits.rs
//@item enum RowSideState
enum RowSideState {
    Left,
    Right,
    BracketsOpened(u16),
}
//@end
// the state: brackets open, and something read that makes a row
spec fn side(d: int, sn: bool) -> RowSideState {
    if d > 0 { RowSideState::BracketsOpened(d as u16) } else if sn { RowSideState::Right } else { RowSideState::Left }
}
//@item fn css_split_rows
pub fn css_split_rows(css: &str) -> «(r:» Vec<&str>«)
    requires open_ok(css@),
    ensures rv(r@) == rows(css@),»
{
«    hide(depth); hide(cur); hide(done); hide(seen); hide(cuts); hide(boff); hide(open_ok); hide(tr);»
    let mut out: Vec<&str> = Vec::new();

    let mut row_side = RowSideState::Left;
    let mut start = 0;
«    proof { lemma_start(); assert(rv(out@) =~= trims(done(css@.take(0)))); }»

    for (index, char) in «it:» ⟦css.char_indices()⇒vx_char_indices(css)⟧
«        invariant
            open_ok(css@),
            it.seq().len() == css@.len(),
            forall|j: int| 0 <= j < css@.len() ==> it.seq()[j] == (boff(css@, j) as usize, #[trigger] css@[j]),
            blen(css@) <= isize::MAX,
            it.index@ <= css@.len(),
            row_side == side(depth(css@.take(it.index@ as int)), seen(cur(css@.take(it.index@ as int)))),
            cur(css@.take(it.index@ as int)).len() <= it.index@,
            start == boff(css@, it.index@ - cur(css@.take(it.index@ as int)).len()),
            rv(out@) == trims(done(css@.take(it.index@ as int))),»
    {
«        let ghost i = it.index@ as int;
        let ghost s = css@;
        let ghost k = cur(s.take(i)).len();
        let ghost o0 = out@;
        proof {
            assert(it.seq()[i] == (boff(s, i) as usize, s[i]));
            lemma_boff(s, i);
            lemma_step(s, i);
        }»
        if char == '{' {
            if let RowSideState::BracketsOpened(counter) = &mut row_side {
                *counter += 1;
            } else {
                row_side = RowSideState::BracketsOpened(1);
            }
        }

        if char == '}' {
            let should_close = if let RowSideState::BracketsOpened(counter) = &mut row_side {
                if *counter > 1 {
                    *counter -= 1;
                    false
                } else {
                    true
                }
            } else {
                ⟦panic!("unsupported use case at closing bracket")⇒vx_unreachable()⟧;
            };

            if should_close {
                row_side = RowSideState::Right;
            }
        }

        if (char == ':' || char == '.') && ⟦row_side == RowSideState::Left⇒matches!(row_side, RowSideState::Left)⟧ {
            row_side = RowSideState::Right;
        }

        if char == ';' && ⟦row_side == RowSideState::Right⇒matches!(row_side, RowSideState::Right)⟧ {
            out.push(⟦css[start..index].trim()⇒vx_trim(vx_slice(css, start, index, Ghost(i - k), Ghost(i)))⟧);
«            proof {
                assert(rv(out@) =~= rv(o0).push(tr(s.subrange(i - k, i))));
            }»
            start = index + 1;
            row_side = RowSideState::Left;
        }
    }
«    let ghost s = css@;
    proof { assert(s.take(s.len() as int) =~= s); lemma_pieces(s); }
    let ghost o0 = out@;»

    out.push(⟦css[start..css.len()].trim()⇒vx_trim(vx_slice(css, start, vx_len(css), Ghost(s.len() - cur(s).len()), Ghost(s.len() as int)))⟧);
«    proof {
        assert(rv(out@) =~= rv(o0).push(out@.last()@));
        assert(rv(out@) == trims(pieces(s)));
        lemma_filter(out@);
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
    }»

    ⟦out.into_iter().filter(⇒vx_filter(out, ⟧|item«: &&str»| «-> (b: bool) ensures b == kept(*item) { proof { assert(tr(item@).len() == 0 ==> tr(item@) =~= Seq::<char>::empty()); } »⟦item.trim() != ""⇒vx_str_ne(vx_trim(item), "")⟧« }»)⟦.collect()⇒⟧
}
//@end
//@item fn css_row_split_to_pair
pub fn css_row_split_to_pair(row: &str) -> «(r:» Option<(&str, String)>«)
    ensures
        r is Some <==> row@.contains(':'),
        r is Some ==> ((r->0).0@, (r->0).1@) == pair(row@),»
{
    let chunks: Vec<&str> = ⟦row.split(':').collect()⇒vx_split(row, ':')⟧;
«    proof { lemma_split(row@, ':'); assert(chunks@.len() == rv(chunks@).len()); reveal_strlit(":"); assert(":"@ =~= seq![':']); }»

    if chunks.len() < 2 {
        return None;
    }

    let key = ⟦chunks[0].trim()⇒vx_trim(chunks[0])⟧;
    let attr: String = ⟦chunks[1..].join(":").trim().into()⇒vx_owned(vx_trim(vx_join_from(&chunks, 1, ":").as_str()))⟧;

    Some((key, attr))
}
//@end
//@item fn find_brackets
pub fn find_brackets(line: &str) -> «(r:» Option<(&str, &str, &str)>«)
    requires open_ok(line@),
    ensures
        r is Some <==> brackets(line@) is Some,
        r is Some ==> ((r->0).0@, (r->0).1@, (r->0).2@) == brackets(line@)->0,»
{
    let mut start: Option<usize> = None;
    let mut end: Option<usize> = None;
«    let ghost s = line@;
    let ghost mut a = s.len() as int;
    let ghost mut b = -1int;»

    for (index, char) in «it:» ⟦line.char_indices()⇒vx_char_indices(line)⟧
«        invariant_except_break
            it.index@ <= s.len(),
            start is None,
            a == s.len(),
            !s.take(it.index@ as int).contains('{'),
            it.index@ == s.len() ==> !s.contains('{'),
        invariant
            s == line@,
            it.seq().len() == s.len(),
            forall|j: int| 0 <= j < s.len() ==> it.seq()[j] == (boff(s, j) as usize, #[trigger] s[j]),
            blen(s) <= isize::MAX,
        ensures
            start is None ==> !s.contains('{') && a == s.len(),
            start is Some ==> 0 <= a < s.len() && s[a] == '{' && !s.take(a).contains('{') && start->0 == boff(s, a),»
    {
«        let ghost i = it.index@ as int;
        proof { assert(it.seq()[i] == (boff(s, i) as usize, s[i])); lemma_boff(s, i); }»
        if char == '{' {
            start = Some(index);
«            proof { a = i; }»
            break;
        }
«        proof { lemma_take_contains(s, i, '{'); }»
    }

    for (index, char) in «it:» ⟦line.char_indices().rev()⇒vx_char_indices_rev(line)⟧
«        invariant_except_break
            it.index@ <= s.len(),
            end is None,
            b == -1,
            !s.skip(s.len() - it.index@).contains('}'),
            it.index@ == s.len() ==> !s.contains('}'),
        invariant
            s == line@,
            it.seq().len() == s.len(),
            forall|j: int| 0 <= j < s.len() ==> #[trigger] it.seq()[j] == (boff(s, s.len() - 1 - j) as usize, s[s.len() - 1 - j]),
            blen(s) <= isize::MAX,
        ensures
            end is None ==> !s.contains('}') && b == -1,
            end is Some ==> 0 <= b < s.len() && s[b] == '}' && !s.skip(b + 1).contains('}') && end->0 == boff(s, b),»
    {
«        let ghost i = s.len() - 1 - it.index@;
        proof { assert(it.seq()[it.index@ as int] == (boff(s, i) as usize, s[i])); lemma_boff(s, i); }»
        if char == '}' {
            end = Some(index);
«            proof { b = i; }»
            break;
        }
«        proof { lemma_skip_contains(s, i, '}'); }»
    }
«    proof { lemma_first_last(s, a, b); }»

    if let (Some(start), Some(end)) = (start, end) {
«        proof { lemma_boff(s, a); lemma_boff(s, b); lemma_first_before_last(s, a, b); }»
        let start_word = ⟦&line[0..start]⇒vx_slice(line, 0, start, Ghost(0int), Ghost(a))⟧;
        let central_word = ⟦&line[start + 1..end]⇒vx_slice(line, start + 1, end, Ghost(a + 1), Ghost(b))⟧;
        let end_word = ⟦&line[end + 1..]⇒vx_slice(line, end + 1, vx_len(line), Ghost(b + 1), Ghost(s.len() as int))⟧;
«        proof {
            assert(s.subrange(0, a) =~= s.take(a));
            assert(s.subrange(b + 1, s.len() as int) =~= s.skip(b + 1));
        }»
        return Some((⟦start_word.trim()⇒vx_trim(start_word)⟧, ⟦central_word.trim()⇒vx_trim(central_word)⟧, ⟦end_word.trim()⇒vx_trim(end_word)⟧));
    }

    None
}
//@end

//@file crates/vertigo/src/css/get_selector.rs
//@item fn get_selector
pub fn get_selector(id: &u64) -> «(r:» String«)
    ensures r@ == class(*id as nat),»
{
    ⟦format!("autocss_{id}")⇒vx_cat2("autocss_", vx_dec(*id).as_str())⟧
}
//@end
//@file crates/vertigo/src/css/next_id.rs
//@item struct NextId
pub struct NextId {
    counter: ValueMut<u64>,
}
//@end
impl NextId {
    pub closed spec fn view(self) -> nat { self.counter@ as nat }
//@item impl NextId :: fn new
    pub fn new() -> «(r:» NextId «) ensures r@ == 0,»
    {
        NextId {
            counter: ValueMut::new(0),
        }
    }
//@end
//@item impl NextId :: fn get_next_id
    pub fn get_next_id(⟦&self⇒&mut self⟧) -> «(r:» u64 «)
        ensures r == old(self)@ + 1, final(self)@ == r,»
    {
        let current = ⟦self.counter.get() + 1⇒vx_next(self.counter.get())⟧;
        self.counter.set(current);
        current
    }
//@end
}

//@file crates/vertigo/src/css/transform_css/mod.rs
//@item fn transform_css_animation_value
pub fn transform_css_animation_value(
    css: &str,
    next_id: ⟦&NextId⇒&mut NextId⟧,
) -> «(r:» (String, Option<(String, String)>)«)
    requires open_ok(css@),
    ensures
        (r.0@, dv(r.1)) == animation(css@, old(next_id)@ + 1),
        final(next_id)@ == old(next_id)@ + (if r.1 is Some { 1int } else { 0int }),»
{
    let brackets = find_brackets(css);

    if let Some((start_word, central_word, end_word)) = brackets {
        let id = next_id.get_next_id();
        let selector = get_selector(&id);

        let keyframe_name = ⟦["@keyframes ", &selector].concat()⇒vx_cat2("@keyframes ", &selector)⟧;
        let keyframe_content = central_word;

        let new_css = ⟦[start_word, &selector, end_word].join(" ")⇒vx_join_3(start_word, &selector, end_word, " ")⟧;

        return (new_css, Some((keyframe_name, ⟦keyframe_content.into()⇒vx_owned(keyframe_content)⟧)));
    }

    (⟦css.into()⇒vx_owned(css)⟧, None)
}
//@end
//@item fn transform_css_selector_value
pub fn transform_css_selector_value(row: &str, parent_selector: &str) -> «(r:» Option<(String, String)>«)
    requires open_ok(row@),
    ensures dv(r) == selector_value(row@, parent_selector@),»
{
    let brackets = find_brackets(row);

    if let Some((pseudo_selector, rules, trash)) = brackets {
        if !⟦trash.trim()⇒vx_trim(trash)⟧.is_empty() {
        }
        let new_selector = ⟦[parent_selector, pseudo_selector].concat()⇒vx_cat2(parent_selector, pseudo_selector)⟧;
        return Some((new_selector, ⟦rules.into()⇒vx_owned(rules)⟧));
    }

    None
}
//@end
//@item fn transform_css_media_query
pub fn transform_css_media_query(
    row: &str,
    parent_selector: &str,
    css_documents: &mut Vec<(String, String)>,
)
«    requires open_ok(row@), media_ok(row@),
    ensures dvs(final(css_documents)@) == dvs(old(css_documents)@) + opt(media(row@, parent_selector@)),»
{
    let brackets = find_brackets(row);

    if let Some((query, rules_input, trash)) = brackets {
        if !⟦trash.trim()⇒vx_trim(trash)⟧.is_empty() {
        }

        let mut regular_rules«: Vec<&str>» = vec![];
        let mut rules_in_pseudo«: Vec<String>» = vec![];
«        let ghost rs = rows(rules_input@);
        proof { lemma_rows_ok(rules_input@); }»

        for row in «it:» css_split_rows(rules_input)
«            invariant
                rv(it.seq()) == rs,
                rv(it.seq()).len() == it.seq().len(),
                rows_ok(rs),
                rv(regular_rules@) == regular(rs.take(it.index@ as int)),
                sv(rules_in_pseudo@) == pseudo(rs.take(it.index@ as int), parent_selector@),»
        {
«            let ghost i = it.index@ as int;
            let ghost g0 = regular_rules@;
            let ghost p0 = rules_in_pseudo@;
            proof {
                assert(rs[i] == row@);
                assert(rs.take(i + 1).drop_last() =~= rs.take(i));
                assert(rs.take(i + 1).last() == row@);
                assert(open_ok(row@));
            }»
            if ⟦row.starts_with(':')⇒vx_starts_with(row, ':')⟧ {
                let extra_rule = transform_css_selector_value(row, parent_selector);

                if let Some(extra_rule) = extra_rule {
                    rules_in_pseudo.push(⟦[&extra_rule.0, " { ", &extra_rule.1, " }"].concat()⇒vx_cat4(&extra_rule.0, " { ", &extra_rule.1, " }")⟧);
«                    proof { assert(sv(rules_in_pseudo@) =~= sv(p0).push(rules_in_pseudo@.last()@)); }»
                }
            } else {
                regular_rules.push(row);
«                proof { assert(rv(regular_rules@) =~= rv(g0).push(row@)); }»
            }
        }
«        proof {
            assert(rs.take(rs.len() as int) =~= rs);
            assert(regular_rules@.len() == rv(regular_rules@).len());
            assert(rules_in_pseudo@.len() == sv(rules_in_pseudo@).len());
        }»

        if !regular_rules.is_empty() || !rules_in_pseudo.is_empty() {
            let mut media_content = ⟦"".to_string()⇒vx_empty()⟧;
            if !regular_rules.is_empty() {
                ⟦media_content.push_str(⇒vx_push_str(&mut media_content, ⟧parent_selector);
                ⟦media_content.push_str(⇒vx_push_str(&mut media_content, ⟧" { ");
                ⟦media_content.push_str(&regular_rules.join(";"))⇒vx_push_str(&mut media_content, &vx_join_from(&regular_rules, 0, ";"))⟧;
                ⟦media_content.push_str(⇒vx_push_str(&mut media_content, ⟧" }");
            }
«            let ghost base = media_content@;
            proof {
                assert(rv(regular_rules@).skip(0) =~= rv(regular_rules@));
                assert(base =~= media_base(regular(rs), parent_selector@));
            }»
            for set in «it:» &rules_in_pseudo
«                invariant
                    it.seq().unref() == rules_in_pseudo@,
                    media_content@ == add_sets(base, sv(rules_in_pseudo@).take(it.index@ as int)),»
            {
«                let ghost i = it.index@ as int;
                let ghost ss = sv(rules_in_pseudo@);
                let ghost m0 = media_content@;
                proof {
                    assert(it.seq().unref()[i] == rules_in_pseudo@[i]);
                    assert(*set == rules_in_pseudo@[i]);
                    assert(ss.take(i + 1).drop_last() =~= ss.take(i));
                    assert(ss.take(i + 1).last() == set@);
                }»
                if !⟦media_content.is_empty()⇒vx_is_empty(&media_content)⟧ {
                    ⟦media_content.push('\n')⇒vx_push(&mut media_content, '\n')⟧;
                }
                ⟦media_content.push_str(⇒vx_push_str(&mut media_content, ⟧set);
            }
«            let ghost d0 = css_documents@;
            proof { assert(sv(rules_in_pseudo@).take(rules_in_pseudo@.len() as int) =~= sv(rules_in_pseudo@)); }»
            css_documents.push((⟦query.into()⇒vx_owned(query)⟧, media_content));
«            proof { assert(dvs(css_documents@) =~= dvs(d0) + opt(media(row@, parent_selector@))); }»
        }
    }
}
//@end
//@item fn transform_css
pub fn transform_css(css: &str, next_id: ⟦&NextId⇒&mut NextId⟧) -> «(r:» (u64, Vec<(String, String)>)«)
    requires css_ok(css@),
    ensures
        r.0 == old(next_id)@ + 1,
        dvs(r.1@) == sheet(css@, r.0 as nat),
        final(next_id)@ == rules(rows(css@), "."@ + class(r.0 as nat), r.0 as nat).id,»
{
    let class_id = next_id.get_next_id();
    let selector = ⟦[".", &get_selector(&class_id)].concat()⇒vx_cat2(".", &get_selector(&class_id))⟧;

    let mut css_out: Vec<String> = Vec::new();
    let mut css_documents: Vec<(String, String)> = Vec::new();
«    let ghost rs = rows(css@);
    let ghost c0 = class_id as nat;
    proof {
        lemma_rows_ok(css@);
        assert(rs.take(0) =~= Seq::<Seq<char>>::empty());
        assert(sv(css_out@) =~= Seq::<Seq<char>>::empty());
        assert(dvs(css_documents@) =~= Seq::<(Seq<char>, Seq<char>)>::empty());
    }»

    for row in «it:» css_split_rows(css)
«        invariant
            rv(it.seq()) == rs,
            rv(it.seq()).len() == it.seq().len(),
            rows_ok(rs),
            forall|i: int| 0 <= i < rs.len() && is_media(#[trigger] rs[i]) ==> media_ok(rs[i]),
            sv(css_out@) == rules(rs.take(it.index@ as int), selector@, c0).own,
            dvs(css_documents@) == rules(rs.take(it.index@ as int), selector@, c0).docs,
            next_id@ == rules(rs.take(it.index@ as int), selector@, c0).id,»
    {
«        let ghost i = it.index@ as int;
        let ghost out0 = css_out@;
        let ghost docs0 = css_documents@;
        let ghost id0 = next_id@;
        proof {
            assert(rs[i] == row@);
            assert(rs.take(i + 1).drop_last() =~= rs.take(i));
            assert(rs.take(i + 1).last() == row@);
            assert(open_ok(row@));
        }»
        if ⟦row.starts_with([':', '['])⇒(vx_starts_with(row, ':') || vx_starts_with(row, '['))⟧ {
            let extra_rule = transform_css_selector_value(row, &selector);

            if let Some(extra_rule) = extra_rule {
                css_documents.push(extra_rule);
            }
        } else if ⟦row.starts_with("@media")⇒vx_starts_with_str(row, "@media")⟧ {
            transform_css_media_query(row, &selector, &mut css_documents);
        } else {
            match css_row_split_to_pair(row) {
                Some((name, value)) => {
                    let value_parsed = if ⟦name.trim() == "animation"⇒vx_str_eq2(vx_trim(name), "animation")⟧ {
«                        proof { lemma_value_ok(row@); }»
                        let (value_parsed, extra_animation) =
                            transform_css_animation_value(&value, next_id);

                        if let Some(extra_animation) = extra_animation {
                            css_documents.push(extra_animation);
                        }

                        value_parsed
                    } else {
                        value
                    };

                    css_out.push(⟦[name, ": ", &value_parsed].concat()⇒vx_cat3(name, ": ", &value_parsed)⟧);
                }
                None => {
                    css_out.push(⟦row.into()⇒vx_owned(row)⟧);
                }
            }
        }
«        proof {
            let r = rule(row@, selector@, id0);
            assert(sv(css_out@) =~= sv(out0) + opt(r.0));
            assert(dvs(css_documents@) =~= dvs(docs0) + opt(r.1));
        }»
    }
«    proof { assert(rs.take(rs.len() as int) =~= rs); }
    let ghost docs0 = css_documents@;»

    let css_out: String = ⟦css_out.join("; ")⇒vx_join(&css_out, "; ")⟧;

    css_documents.push((selector, css_out));
«    proof { assert(dvs(css_documents@) =~= sheet(css@, c0)); }»

    (class_id, css_documents)
}
//@end

// ---- the class names of style blocks -------------------------------------------------------------------------------------------
// What the host was given: the blocks in the order in which they were given their class, and their rules.
struct World {
    blocks: Ghost<Seq<(Seq<char>, nat)>>,
    inserted: Ghost<Seq<(Seq<char>, Seq<char>)>>,
}
impl World {
    // the function given to CssManager::new
    #[verifier::external_body]
    fn insert(&mut self, selector: &str, data: &str)
        ensures
            final(self).blocks == old(self).blocks,
            final(self).inserted@ == old(self).inserted@.push((selector@, data@)),
    { unimplemented!() }
    #[verifier::external_body]
    proof fn block(tracked &mut self, css: Seq<char>, id: nat)
        ensures
            final(self).blocks@ == old(self).blocks@.push((css, id)),
            final(self).inserted == old(self).inserted,
    { unimplemented!() }
}
spec fn sheets(b: Seq<(Seq<char>, nat)>) -> Seq<(Seq<char>, Seq<char>)>
    decreases b.len(),
{
    if b.len() == 0 { Seq::empty() } else { sheets(b.drop_last()) + sheet(b.last().0, b.last().1) }
}

//@file crates/vertigo/src/css/css_structs.rs
#[allow(inconsistent_fields)]
//@item enum CssGroup
pub enum CssGroup {
    CssStatic { value: &'static str },
    CssDynamic { value: String },
    CssMedia { query: String, rules: Vec<String> },
}
//@end
//@item struct Css
pub struct Css {
    pub groups: Vec<CssGroup>,
}
//@end
impl Css {
//@item impl Css :: fn str
    pub fn str(value: &'static str) -> «(r:» Self «)
        ensures r.groups@ =~= seq![CssGroup::CssStatic { value }],»
    {
        Self {
            groups: vec![CssGroup::CssStatic { value }],
        }
    }
//@end
//@item impl Css :: fn string
    pub fn string(value: String) -> «(r:» Self «)
        ensures r.groups@ =~= seq![CssGroup::CssDynamic { value }],»
    {
        Self {
            groups: vec![CssGroup::CssDynamic { value }],
        }
    }
//@end
//@item impl Css :: fn push_str
    pub fn push_str(⟦mut self⇒self⟧, value: &'static str) -> «(r:» Self «)
        ensures r.groups@ == self.groups@.push(CssGroup::CssStatic { value }),»
    {
«        let mut this = self;»
        ⟦self⇒this⟧.groups.push(CssGroup::CssStatic { value });
        ⟦self⇒this⟧
    }
//@end
//@item impl Css :: fn push_string
    pub fn push_string(&mut self, value: String)
«        ensures final(self).groups@ == old(self).groups@.push(CssGroup::CssDynamic { value }),»
    {
        self.groups.push(CssGroup::CssDynamic { value })
    }
//@end
//@item impl Css :: fn extend
    pub fn extend(⟦mut self⇒self⟧, new_css: Self) -> «(r:» Self «)
        ensures r.groups@ == self.groups@ + new_css.groups@,»
    {
«        let mut this = self;»
        for item in «it:» new_css.groups
«            invariant
                it.seq() == new_css.groups@,
                this.groups@ =~= self.groups@ + new_css.groups@.take(it.index@ as int),»
        {
            ⟦self⇒this⟧.groups.push(item);
        }
«        proof { assert(new_css.groups@.take(new_css.groups@.len() as int) =~= new_css.groups@); }»

        ⟦self⇒this⟧
    }
//@end
}

//@file crates/vertigo/src/css/css_manager.rs
//@item struct CssManagerInner
struct CssManagerInner {
    ⟦insert_css: Box<InsertFn>,⇒⟧
    next_id: NextId,
    ids_static: HashMapMut<&'static str, u64>,
    ids_dynamic: HashMapMut<String, u64>,
}
//@end
impl CssManagerInner {
    // Every block that has a class is among the blocks given to the host under that class, each of those has its class, their
    // numbers increase, and their rules are what was inserted.
    spec fn inv(self, w: World) -> bool {
        let b = w.blocks@;
        &&& forall|k: &'static str| #[trigger] self.ids_static@.contains_key(k) ==> b.contains((k@, self.ids_static@[k] as nat))
        &&& forall|k: String| #[trigger] self.ids_dynamic@.contains_key(k) ==> b.contains((k@, self.ids_dynamic@[k] as nat))
        &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).1 < (#[trigger] b[j]).1
        &&& forall|i: int| 0 <= i < b.len() ==> 1 <= (#[trigger] b[i]).1 <= self.next_id@
        &&& w.inserted@ == sheets(b)
    }
    // nothing is forgotten or renamed
    spec fn grows(self, o: Self) -> bool {
        &&& forall|k: &'static str| #[trigger] self.ids_static@.contains_key(k) ==> o.ids_static@.contains_key(k) && o.ids_static@[k] == self.ids_static@[k]
        &&& forall|k: String| #[trigger] self.ids_dynamic@.contains_key(k) ==> o.ids_dynamic@.contains_key(k) && o.ids_dynamic@[k] == self.ids_dynamic@[k]
    }
    // the class names of a group
    spec fn names(self, g: CssGroup) -> Seq<Seq<char>> {
        match g {
            CssGroup::CssStatic { value } => seq![class(self.ids_static@[value] as nat)],
            CssGroup::CssDynamic { value } => seq![class(self.ids_dynamic@[value] as nat)],
            CssGroup::CssMedia { query, rules } => seq!["@media"@, query@] + self.rule_names(rules@),
        }
    }
    spec fn rule_names(self, rules: Seq<String>) -> Seq<Seq<char>> { rules.map_values(|r: String| class(self.ids_dynamic@[r] as nat)) }
    spec fn has(self, g: CssGroup) -> bool {
        match g {
            CssGroup::CssStatic { value } => self.ids_static@.contains_key(value),
            CssGroup::CssDynamic { value } => self.ids_dynamic@.contains_key(value),
            CssGroup::CssMedia { query, rules } => self.has_rules(rules@),
        }
    }
    spec fn has_rules(self, rules: Seq<String>) -> bool { forall|i: int| 0 <= i < rules.len() ==> self.ids_dynamic@.contains_key(#[trigger] rules[i]) }
    spec fn all_names(self, g: Seq<CssGroup>) -> Seq<Seq<char>>
        decreases g.len(),
    {
        if g.len() == 0 { Seq::empty() } else { self.all_names(g.drop_last()) + self.names(g.last()) }
    }
    spec fn has_all(self, g: Seq<CssGroup>) -> bool { forall|i: int| 0 <= i < g.len() ==> self.has(#[trigger] g[i]) }
//@item impl CssManagerInner :: fn new
    pub fn new(⟦insert_css: Box<InsertFn>⇒⟧«Ghost(w): Ghost<World>») -> «(r:» CssManagerInner «)
        requires w.blocks@.len() == 0, w.inserted@.len() == 0,
        ensures r.inv(w), r.ids_static@.len() == 0, r.ids_dynamic@.len() == 0,»
    {
«        proof { assert(sheets(w.blocks@) =~= w.inserted@); }»
        CssManagerInner {
            ⟦insert_css,⇒⟧
            next_id: NextId::new(),
            ids_static: HashMapMut::new(),
            ids_dynamic: HashMapMut::new(),
        }
    }
//@end
//@item impl CssManagerInner :: fn insert_css
    fn insert_css(⟦&self⇒&mut self⟧, css: &str«, w: &mut World») -> «(r:» u64 «)
        requires css_ok(css@), old(self).inv(*old(w)),
        ensures
            final(self).inv(*final(w)),
            final(self).ids_static == old(self).ids_static,
            final(self).ids_dynamic == old(self).ids_dynamic,
            final(w).blocks@ == old(w).blocks@.push((css@, r as nat)),»
    {
        let (class_id, css_selectors) = transform_css(css, ⟦&self⇒&mut self⟧.next_id);
«        let ghost docs = css_selectors@;
        let ghost b = w.blocks@;
        proof { lemma_rules_id(rows(css@), "."@ + class(class_id as nat), class_id as nat); }»

        for (selector, selector_data) in «it:» css_selectors
«            invariant
                it.seq() == docs,
                w.blocks@ == b,
                w.inserted@ == sheets(b) + dvs(docs.take(it.index@ as int)),»
        {
«            proof { 
                let i = it.index@ as int;
                assert(it.seq()[i] == (selector, selector_data));
                assert(dvs(docs.take(i + 1)) =~= dvs(docs.take(i)).push((selector@, selector_data@)));
            }»
            ⟦(self.insert_css)⇒w.insert⟧(&selector, &selector_data);
        }
«        proof {
            assert(docs.take(docs.len() as int) =~= docs);
            w.block(css@, class_id as nat);
            assert(w.blocks@.drop_last() =~= b);
            assert forall|x: (Seq<char>, nat)| #[trigger] b.contains(x) implies w.blocks@.contains(x) by {
                let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
                assert(w.blocks@[i] == x);
            }
        }»

        class_id
    }
//@end
}
proof fn lemma_rules_id(rs: Seq<Seq<char>>, sel: Seq<char>, id: nat)
    ensures rules(rs, sel, id).id >= id,
    decreases rs.len(),
{
    if rs.len() > 0 { lemma_rules_id(rs.drop_last(), sel, id); }
}
//@item struct CssManager
pub struct CssManager {
    inner: ⟦Rc<CssManagerInner>⇒CssManagerInner⟧,
}
//@end
impl CssManager {
//@item impl CssManager :: fn get_static
    fn get_static(⟦&self⇒&mut self⟧, css: &'static str«, w: &mut World») -> «(r:» String «)
        requires css_ok(css@), old(self).inner.inv(*old(w)),
        ensures
            final(self).inner.inv(*final(w)),
            old(self).inner.grows(final(self).inner),
            final(self).inner.ids_static@.contains_key(css),
            r@ == class(final(self).inner.ids_static@[css] as nat),
            old(self).inner.ids_static@.contains_key(css) ==> *final(w) == *old(w),»
    {
        if let Some(class_id) = self.inner.ids_static.get(&css) {
            return get_selector(&class_id);
        }

        let class_id = self.inner.insert_css(css«, w»);
«        proof { assert(w.blocks@.last() == (css@, class_id as nat)); }»
        self.inner.ids_static.insert(css, class_id);

        get_selector(&class_id)
    }
//@end
//@item impl CssManager :: fn get_dynamic
    fn get_dynamic(⟦&self⇒&mut self⟧, css: ⟦impl Into<String>⇒&String⟧«, w: &mut World») -> «(r:» String «)
        requires css_ok(css@), old(self).inner.inv(*old(w)),
        ensures
            final(self).inner.inv(*final(w)),
            old(self).inner.grows(final(self).inner),
            final(self).inner.ids_dynamic@.contains_key(*css),
            r@ == class(final(self).inner.ids_dynamic@[*css] as nat),
            old(self).inner.ids_dynamic@.contains_key(*css) ==> *final(w) == *old(w),»
    {
        let css = ⟦css.into()⇒vx_string_clone(css)⟧;
        if let Some(class_id) = self.inner.ids_dynamic.get(&css) {
            return get_selector(&class_id);
        }

        let class_id = self.inner.insert_css(css.as_str()«, w»);
«        proof { assert(w.blocks@.last() == (css@, class_id as nat)); }»
        self.inner.ids_dynamic.insert(css, class_id);

        get_selector(&class_id)
    }
//@end
//@item impl CssManager :: fn get_class_name
    pub fn get_class_name(⟦&self⇒&mut self⟧, css: &Css«, w: &mut World») -> «(r:» String «)
        requires groups_ok(css.groups@), old(self).inner.inv(*old(w)),
        ensures
            final(self).inner.inv(*final(w)),
            old(self).inner.grows(final(self).inner),
            final(self).inner.has_all(css.groups@),
            r@ == joins(final(self).inner.all_names(css.groups@), " "@),
            old(self).inner.has_all(css.groups@) ==> *final(w) == *old(w),»
    {
        let mut out: Vec<String> = Vec::new();
«        let ghost g = css.groups@;
        let ghost s0 = self.inner;
        let ghost w0 = *w;
        proof { assert(sv(out@) =~= self.inner.all_names(g.take(0))); }»

        for item in «it:» css.groups.iter()
«            invariant
                groups_ok(g),
                it.seq().unref() == g,
                self.inner.inv(*w),
                s0.grows(self.inner),
                self.inner.has_all(g.take(it.index@ as int)),
                sv(out@) == self.inner.all_names(g.take(it.index@ as int)),
                s0.has_all(g) ==> *w == w0,»
        {
«            let ghost i = it.index@ as int;
            let ghost s1 = self.inner;
            let ghost o1 = out@;
            proof {
                assert(it.seq().unref()[i] == g[i]);
                assert(*item == g[i]);
                assert(group_ok(g[i]));
                assert(g.take(i + 1).drop_last() =~= g.take(i));
                assert(s0.has_all(g) ==> s0.has(g[i]));
            }»
            match item {
                CssGroup::CssStatic { value } => {
                    out.push(self.get_static(value«, w»));
«                    proof { assert(sv(out@) =~= sv(o1) + self.inner.names(g[i])); }»
                }
                CssGroup::CssDynamic { value } => {
                    out.push(self.get_dynamic(value«, w»));
«                    proof { assert(sv(out@) =~= sv(o1) + self.inner.names(g[i])); }»
                }
                CssGroup::CssMedia { query, rules } => {
                    out.push(⟦"@media".to_string()⇒vx_owned("@media")⟧);
                    out.push(⟦query.clone()⇒vx_string_clone(query)⟧);
«                    let ghost h = seq!["@media"@, query@];
                    proof { assert(sv(out@) =~= sv(o1) + h + self.inner.rule_names(rules@.take(0))); }»
                    for rule in «jt:» rules
«                        invariant
                            rules_ok(rules@),
                            jt.seq().unref() == rules@,
                            self.inner.inv(*w),
                            s0.grows(self.inner),
                            s1.grows(self.inner),
                            s0.has_all(g) ==> *w == w0 && s0.has_rules(rules@),
                            self.inner.has_rules(rules@.take(jt.index@ as int)),
                            sv(out@) == sv(o1) + h + self.inner.rule_names(rules@.take(jt.index@ as int)),»
                    {
«                        let ghost j = jt.index@ as int;
                        let ghost s2 = self.inner;
                        let ghost o2 = out@;
                        proof {
                            assert(jt.seq().unref()[j] == rules@[j]);
                            assert(*rule == rules@[j]);
                            assert(css_ok(rules@[j]@));
                            assert(rules@.take(j + 1).drop_last() =~= rules@.take(j));
                        }»
                        out.push(self.get_dynamic(rule«, w»));
«                        proof {
                            let a = rules@.take(j);
                            assert forall|k: int| 0 <= k < j + 1 implies self.inner.ids_dynamic@.contains_key(#[trigger] rules@.take(j + 1)[k]) by {
                                if k < j { assert(s2.ids_dynamic@.contains_key(a[k])); }
                            }
                            assert(self.inner.rule_names(a) =~= s2.rule_names(a)) by {
                                assert forall|k: int| 0 <= k < j implies self.inner.ids_dynamic@[a[k]] == s2.ids_dynamic@[a[k]] by { assert(s2.ids_dynamic@.contains_key(a[k])); }
                            }
                            assert(self.inner.rule_names(rules@.take(j + 1)) =~= self.inner.rule_names(a).push(class(self.inner.ids_dynamic@[*rule] as nat)));
                            assert(sv(out@) =~= sv(o2).push(out@.last()@));
                            assert(sv(out@) =~= sv(o1) + h + self.inner.rule_names(rules@.take(j + 1)));
                        }»
                    }
«                    proof {
                        assert(rules@.take(rules@.len() as int) =~= rules@);
                        assert(sv(out@) =~= sv(o1) + self.inner.names(g[i]));
                    }»
                }
            }
«            proof {
                assert(self.inner.has(g[i]));
                lemma_grown(s1, self.inner, g.take(i));
                assert forall|k: int| 0 <= k < i + 1 implies self.inner.has(#[trigger] g.take(i + 1)[k]) by {
                    if k < i { assert(self.inner.has(g.take(i)[k])); }
                }
            }»
        }
«        proof { assert(g.take(g.len() as int) =~= g); }»

        ⟦out.join(" ")⇒vx_join(&out, " ")⟧
    }
//@end
}
spec fn group_ok(g: CssGroup) -> bool {
    match g {
        CssGroup::CssStatic { value } => css_ok(value@),
        CssGroup::CssDynamic { value } => css_ok(value@),
        CssGroup::CssMedia { query, rules } => rules_ok(rules@),
    }
}
spec fn rules_ok(rules: Seq<String>) -> bool { forall|i: int| 0 <= i < rules.len() ==> css_ok((#[trigger] rules[i])@) }
spec fn groups_ok(g: Seq<CssGroup>) -> bool { forall|i: int| 0 <= i < g.len() ==> group_ok(#[trigger] g[i]) }
// names that were given stay
proof fn lemma_grown(a: CssManagerInner, b: CssManagerInner, g: Seq<CssGroup>)
    requires a.grows(b), a.has_all(g),
    ensures b.has_all(g), b.all_names(g) == a.all_names(g),
    decreases g.len(),
{
    assert forall|i: int| 0 <= i < g.len() implies b.has(#[trigger] g[i]) && b.names(g[i]) == a.names(g[i]) by {
        assert(a.has(g[i]));
        match g[i] {
            CssGroup::CssMedia { query, rules } => {
                assert forall|k: int| 0 <= k < rules@.len() implies b.ids_dynamic@.contains_key(#[trigger] rules@[k]) && b.ids_dynamic@[rules@[k]] == a.ids_dynamic@[rules@[k]] by {
                    assert(a.ids_dynamic@.contains_key(rules@[k]));
                }
                assert(b.rule_names(rules@) =~= a.rule_names(rules@));
            },
            _ => {},
        }
    }
    if g.len() > 0 {
        assert forall|i: int| 0 <= i < g.len() - 1 implies a.has(#[trigger] g.drop_last()[i]) by { assert(a.has(g[i])); }
        lemma_grown(a, b, g.drop_last());
        assert(b.names(g[g.len() - 1]) == a.names(g[g.len() - 1]));
    }
}
// Different blocks have different classes, the rules of every block that has a class were inserted, and a block was inserted
// under one class only once.
proof fn theorem_classes(m: CssManagerInner, w: World, a: (Seq<char>, nat), b: (Seq<char>, nat))
    requires m.inv(w), w.blocks@.contains(a), w.blocks@.contains(b), a.0 != b.0,
    ensures class(a.1) != class(b.1),
{
    theorem_class(a.1, b.1);
    let i = choose|i: int| 0 <= i < w.blocks@.len() && w.blocks@[i] == a;
    let j = choose|j: int| 0 <= j < w.blocks@.len() && w.blocks@[j] == b;
    if i < j { assert(w.blocks@[i].1 < w.blocks@[j].1); }
    if j < i { assert(w.blocks@[j].1 < w.blocks@[i].1); }
}
} // verus!
fn main() {}
