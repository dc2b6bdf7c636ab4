#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use std::collections::VecDeque;
//@include std_extra.inc

verus! {

broadcast use {vstd::std_specs::hash::group_hash_axioms, sax::axiom_string_key, vda::axiom_vec_deque_decreases};

// the items of a VecDeque are part of it (as vstd says for Vec)
mod vda {
    use super::*;
    pub broadcast axiom fn axiom_vec_deque_decreases<T>(v: VecDeque<T>, i: int)
        requires 0 <= i < v@.len(),
        ensures #[trigger] (decreases_to!(v => v@[i]));
}

//@include strings.inc
//@include ordered_map.inc
//@include html_text.inc
//@include html_tree.inc

// ---- trusted: strings, the escaping functions of html_escape, owned iteration -------------------------------------------------
#[verifier::external_body]
fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
// " ".repeat(n)
#[verifier::external_body]
fn vx_spaces(n: usize) -> (r: String) ensures r@ == spaces(n as nat) { " ".repeat(n) }
// indentation that does not reach usize::MAX
#[verifier::external_body]
fn vx_deeper(v: usize, up: usize) -> (r: usize) ensures r == v + up { v + up }
#[verifier::external_body]
fn vx_encode_safe(s: &str) -> (r: String) ensures r@ == esc(s@, true) { unimplemented!() }
#[verifier::external_body]
fn vx_encode_quoted_attribute(s: &str) -> (r: String) ensures r@ == esc(s@, false) { unimplemented!() }
// s.to_lowercase()
#[verifier::external_body]
fn vx_lower(s: &String) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
// names.contains(s)
#[verifier::external_body]
fn vx_contains<const K: usize>(names: &[&str; K], s: &str) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < names@.len() && (#[trigger] names@[i])@ == s@,
{ names.contains(&s) }
// [a, b].contains(s)
fn vx_contains_2(a: &str, b: &str, s: &str) -> (r: bool)
    ensures r == (s@ == a@ || s@ == b@),
{
    let names = [a, b];
    proof { assert(names@[0]@ == a@ && names@[1]@ == b@); }
    vx_contains(&names, s)
}
#[verifier::external_body]
fn vx_concat<const K: usize>(v: &[&str; K]) -> (r: String) ensures r@ == cats(rv(v@)) { v.concat() }
#[verifier::external_body]
fn vx_concat_strings(v: &Vec<String>) -> (r: String) ensures r@ == cats(sv(v@)) { v.concat() }
#[verifier::external_body]
fn vx_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joins(sv(v@), sep@) { v.join(sep) }
// the items of the VecDeque in order, by value
#[verifier::external_body]
fn vx_items<T>(v: VecDeque<T>) -> (r: Vec<T>) ensures r@ == v@ { v.into_iter().collect() }
#[verifier::external_body]
fn vx_take_opt<T>(v: &mut Option<T>) -> (r: Option<T>) ensures r == *old(v), *final(v) == None::<T> { std::mem::take(v) }
pub open spec fn cats(v: Seq<Seq<char>>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { cats(v.drop_last()) + v.last() }
}
pub open spec fn joins(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joins(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn sv(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn rv(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
proof fn lemma_cats_push(v: Seq<Seq<char>>, x: Seq<char>)
    ensures cats(v.push(x)) == cats(v) + x,
{
    assert(v.push(x).drop_last() =~= v);
}
proof fn lemma_cats4(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    ensures cats(seq![a, b, c, d]) == a + b + c + d,
{
    let z = Seq::<Seq<char>>::empty();
    lemma_cats_push(z, a); lemma_cats_push(z.push(a), b); lemma_cats_push(z.push(a).push(b), c); lemma_cats_push(z.push(a).push(b).push(c), d);
    assert(cats(z) + a =~= a);
    assert(seq![a, b, c, d] =~= z.push(a).push(b).push(c).push(d));
}
proof fn lemma_cats5(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>)
    ensures cats(seq![a, b, c, d, e]) == a + b + c + d + e,
{
    lemma_cats4(a, b, c, d);
    lemma_cats_push(seq![a, b, c, d], e);
    assert(seq![a, b, c, d, e] =~= seq![a, b, c, d].push(e));
}
proof fn lemma_cats9(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>, i: Seq<char>)
    ensures cats(seq![a, b, c, d, e, f, g, h, i]) == a + b + c + d + e + f + g + h + i,
{
    lemma_cats5(a, b, c, d, e);
    lemma_cats_push(seq![a, b, c, d, e], f);
    lemma_cats_push(seq![a, b, c, d, e, f], g);
    lemma_cats_push(seq![a, b, c, d, e, f, g], h);
    lemma_cats_push(seq![a, b, c, d, e, f, g, h], i);
    assert(seq![a, b, c, d, e, f] =~= seq![a, b, c, d, e].push(f));
    assert(seq![a, b, c, d, e, f, g] =~= seq![a, b, c, d, e, f].push(g));
    assert(seq![a, b, c, d, e, f, g, h] =~= seq![a, b, c, d, e, f, g].push(h));
    assert(seq![a, b, c, d, e, f, g, h, i] =~= seq![a, b, c, d, e, f, g, h].push(i));
}
// format!(" {}=\"{}\"", a, b)
#[verifier::external_body]
fn vx_format_attr(a: String, b: String) -> (r: String)
    ensures r@ == seq![' '] + a@ + seq!['=', '"'] + b@ + seq!['"'],
{ format!(" {}=\"{}\"", a, b) }
// format!("{a}{}", b)
#[verifier::external_body]
fn vx_format_text(a: &String, b: String) -> (r: String)
    ensures r@ == a@ + b@,
{ format!("{a}{}", b) }
// format!("{a}<!--{}-->", b)
#[verifier::external_body]
fn vx_format_comment(a: &String, b: String) -> (r: String)
    ensures r@ == a@ + (seq!['<', '!', '-', '-'] + b@ + seq!['-', '-', '>']),
{ format!("{a}<!--{}-->", b) }

// ---- the code --------------------------------------------------------------------------------------------------------------
//@file crates/vertigo-cli/src/serve/html/html_element.rs
//@item enum HtmlNode
pub enum HtmlNode {
    Element(HtmlElement),
    Text(String),
    Comment(String),
}
//@end
//@item struct HtmlElement
pub struct HtmlElement {
    pub name: String,
    pub attr: OrderedMap,
    pub children: VecDeque<HtmlNode>,
}
//@end
//@item struct HtmlDocument
pub struct HtmlDocument {
    pub root: HtmlNode,
}
//@end
//@item enum ChildMode
enum ChildMode {
    Child(Vec<HtmlNode>),
    Text(String),
}
//@end
//@item struct Ident
struct Ident {
    value: Option<usize>,
}
//@end
spec fn av(m: OrderedMap) -> Attrs { Seq::new(m.keys().len(), |i: int| (m.keys()[i]@, m.vals()[m.keys()[i]]@)) }
// the tree a node is
spec fn nv(h: HtmlNode) -> N
    decreases h,
{
    match h {
        HtmlNode::Element(e) => N::El {
            name: e.name@, attrs: av(e.attr),
            kids: Seq::new(e.children@.len(), |i: int| if 0 <= i < e.children@.len() { nv(e.children@[i]) } else { N::Co(Seq::empty()) }),
        },
        HtmlNode::Text(t) => N::Tx(t@),
        HtmlNode::Comment(t) => N::Co(t@),
    }
}
spec fn nvs(s: Seq<HtmlNode>) -> Seq<N> { s.map_values(|h: HtmlNode| nv(h)) }
// every attribute map is one
spec fn mw(h: HtmlNode) -> bool
    decreases h,
{
    match h {
        HtmlNode::Element(e) => e.attr.wf() && forall|i: int| 0 <= i < e.children@.len() ==> mw(#[trigger] e.children@[i]),
        _ => true,
    }
}
proof fn lemma_nv(e: HtmlElement)
    ensures nv(HtmlNode::Element(e)) == (N::El { name: e.name@, attrs: av(e.attr), kids: nvs(e.children@) }),
{
    assert(nv(HtmlNode::Element(e))->kids =~= nvs(e.children@));
}
spec fn el(ls: Seq<Seq<P>>) -> Seq<Seq<char>> { ls.map_values(|l: Seq<P>| enc_all(l)) }

proof fn lemma_nvs_push(s: Seq<HtmlNode>, h: HtmlNode)
    ensures nvs(s.push(h)) == nvs(s).push(nv(h)),
{
    assert(nvs(s.push(h)) =~= nvs(s).push(nv(h)));
}
proof fn lemma_sv_push(s: Seq<String>, x: String)
    ensures sv(s.push(x)) == sv(s).push(x@),
{
    assert(sv(s.push(x)) =~= sv(s).push(x@));
}
proof fn lemma_el_add(a: Seq<Seq<P>>, b: Seq<Seq<P>>)
    ensures el(a + b) == el(a) + el(b),
{
    assert(el(a + b) =~= el(a) + el(b));
}
proof fn lemma_el_one(l: Seq<P>)
    ensures el(seq![l]) == seq![enc_all(l)],
{
    assert(el(seq![l]) =~= seq![enc_all(l)]);
}

impl Ident {
    spec fn id(self) -> Option<nat> { match self.value { Some(v) => Some(v as nat), None => None } }
//@item impl Ident :: fn new
    fn new() -> «(r:» Ident«)
        ensures r.id() == Some(0nat),»
    {
        Ident { value: Some(0) }
    }
//@end
//@item impl Ident :: fn empty
    fn empty() -> «(r:» Ident«)
        ensures r.id() is None,»
    {
        Ident { value: None }
    }
//@end
//@item impl Ident :: fn get
    fn get(&self) -> «(r:» String«)
        ensures r@ == pad(self.id())->Txt_0,»
    {
        match self.value {
            Some(ident) => ⟦" ".repeat(ident)⇒vx_spaces(ident)⟧,
            None => ⟦String::new()⇒vx_empty()⟧,
        }
    }
//@end
//@item impl Ident :: fn add
    fn add(&self, up_value: usize) -> «(r:» Self«)
        ensures up_value == 2 ==> r.id() == deeper(self.id()),»
    {
        Self {
            value: self.value.map(|value«: usize»| «-> (o: usize) ensures o == value + up_value { »⟦value + up_value⇒vx_deeper(value, up_value)⟧« }»),
        }
    }
//@end
}

//@item fn attributes_to_string
fn attributes_to_string(attr: OrderedMap) -> «(r:» String«)
    requires attr.wf(),
    ensures r@ == enc_attrs(av(attr)),»
{
    let mut line«: Vec<String>» = Vec::new();
«    let ghost a = av(attr);
    proof { lemma_attr_lines(Seq::empty(), a, 0); }»
    for (name, value) in «it:» attr.get_iter()
«        invariant
            a == av(attr),
            it.seq().len() == a.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (attr.keys()[i], attr.vals()[attr.keys()[i]]),
            cats(sv(line@)) == enc_attrs(a.take(it.index@ as int)),»
    {
«        let ghost l0 = line@;
        proof { assert(it.seq()[it.index@ as int] == (name, value)); }»
        line.push(⟦format!(
            " {}=\"{}\"",
            encode_safe(&name),
            encode_quoted_attribute(&value)
        )⇒vx_format_attr(
            vx_encode_safe(name.as_str()),
            vx_encode_quoted_attribute(value.as_str())
        )⟧);
«        proof {
            lemma_sv_push(l0, line@.last());
            assert(line@ =~= l0.push(line@.last()));
            lemma_cats_push(sv(l0), line@.last()@);
            let i = it.index@ as int;
            assert(a[i] == (name@, value@));
            assert(a.take(i + 1).drop_last() =~= a.take(i));
            assert(a.take(i + 1).last() == a[i]);
        }»
    }
«    proof { assert(a.take(a.len() as int) =~= a); }»
    ⟦line.concat()⇒vx_concat_strings(&line)⟧
}
//@end

spec fn ot(t: Option<Vec<String>>) -> Option<Seq<char>> { match t { Some(v) => Some(cats(sv(v@))), None => None } }
//@item fn last_text_add
fn last_text_add(last_text: &mut Option<Vec<String>>, text: String)
«    ensures ot(*final(last_text)) == Some(or_none(ot(*old(last_text))) + text@),»
{
    if let Some(last_text) = last_text {
«        proof {
            lemma_sv_push(last_text@, text);
            lemma_cats_push(sv(last_text@), text@);
        }»
        last_text.push(text);
        return;
    }

«    proof {
        lemma_cats_push(Seq::empty(), text@);
        assert(sv(seq![text]) =~= seq![text@]);
    }»
    *last_text = Some(vec![text]);
«    proof { assert(last_text->0@ =~= seq![text]); }»
}
//@end
//@item fn last_text_get
fn last_text_get(last_text: &mut Option<Vec<String>>) -> «(r:» Option<String>«)
    ensures
        *final(last_text) == None::<Vec<String>>,
        match r { Some(s) => ot(*old(last_text)) == Some(s@), None => ot(*old(last_text)) is None },»
{
    let prev = ⟦std::mem::take⇒vx_take_opt⟧(last_text);
    prev.map(|inner«: Vec<String>»| «-> (o: String) ensures o@ == cats(sv(inner@)) { »⟦inner.concat()⇒vx_concat_strings(&inner)⟧« }»)
}
//@end

//@item fn get_render_child_mode
fn get_render_child_mode(element: VecDeque<HtmlNode>) -> «(r:» ChildMode«)
    ensures
        match r {
            ChildMode::Child(v) => nvs(v@) == mg(nvs(element@), None) && !one_text(mg(nvs(element@), None))
                && ((forall|i: int| 0 <= i < element@.len() ==> mw(#[trigger] element@[i])) ==> forall|i: int| 0 <= i < v@.len() ==> mw(#[trigger] v@[i])),
            ChildMode::Text(t) => mg(nvs(element@), None) == seq![N::Tx(t@)],
        },»
{
    let mut result: Vec<HtmlNode> = Vec::new();
    let mut last_text: Option<Vec<String>> = None;
«    let ghost all = (forall|i: int| 0 <= i < element@.len() ==> mw(#[trigger] element@[i]));
    let ghost ks = nvs(element@);
    proof { assert(nvs(result@) =~= Seq::empty()); }»

    for child in «it:» ⟦element⇒vx_items(element)⟧
«        invariant
            it.seq() == element@, ks == nvs(element@),
            all == (forall|i: int| 0 <= i < element@.len() ==> mw(#[trigger] element@[i])),
            mgb(ks.take(it.index@ as int)) == (nvs(result@), ot(last_text)),
            all ==> forall|i: int| 0 <= i < result@.len() ==> mw(#[trigger] result@[i]),»
    {
«        proof {
            let i = it.index@ as int;
            assert(it.seq()[i] == child);
            assert(ks[i] == nv(child));
            assert(ks.take(i + 1).drop_last() =~= ks.take(i));
            assert(ks.take(i + 1).last() == ks[i]);
        }
        let ghost r0 = result@;
        let ghost t0 = ot(last_text);»
        match child {
            HtmlNode::Text(child_text) => {
                last_text_add(&mut last_text, child_text);
            }
            HtmlNode::Comment(_) => {}
            element => {
«                proof { lemma_is_el(element); }»
                if let Some(text) = last_text_get(&mut last_text) {
«                    proof { lemma_nvs_push(r0, HtmlNode::Text(text)); }»
                    result.push(HtmlNode::Text(text));
                }

«                proof { lemma_nvs_push(result@, element); }»
                result.push(element);
«                proof { assert(nvs(result@) =~= nvs(r0) + flush_n(t0) + seq![nv(element)]); }»
            }
        };
    }
«    let ghost r1 = result@;
    let ghost t1 = ot(last_text);
    let ghost m = mg(ks, None);
    proof {
        assert(ks.take(ks.len() as int) =~= ks);
        lemma_mgb(ks, Seq::empty());
        assert(ks + Seq::<N>::empty() =~= ks);
    }»

    if let Some(text) = last_text_get(&mut last_text) {
«        proof { lemma_nvs_push(r1, HtmlNode::Text(text)); }»
        result.push(HtmlNode::Text(text));
    }
«    let ghost r2 = result@;
    proof { assert(nvs(r2) =~= m); }»

    let last = result.pop();

    let Some(last) = last else {
        return ChildMode::Child(⟦vec![]⇒Vec::new()⟧);
    };
«    proof { assert(nvs(r2)[r2.len() - 1] == nv(last)); }»

    if ⟦result.is_empty()⇒result.len() == 0⟧ {
        if let HtmlNode::Text(last) = last {
«            proof { assert(m =~= seq![N::Tx(last@)]); }»
            return ChildMode::Text(last);
        }
    }

    result.push(last);
«    proof { assert(result@ =~= r2); assert(one_text(m) ==> nv(r2[0]) is Tx); }»
    ChildMode::Child(result)
}
//@end
proof fn lemma_is_el(h: HtmlNode)
    ensures h is Element <==> nv(h) is El, h is Text <==> nv(h) is Tx, h is Comment <==> nv(h) is Co,
{
}

//@item fn is_self_closing
fn is_self_closing(element: &HtmlElement) -> «(r:» bool«)
    ensures r == is_void(element.name@),»
{
    let tags = [
        "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param",
        "source", "track", "wbr",
    ];
«    proof {
        assert(tags@[0]@ == "area"@ && tags@[1]@ == "base"@ && tags@[2]@ == "br"@ && tags@[3]@ == "col"@ && tags@[4]@ == "embed"@ && tags@[5]@ == "hr"@
            && tags@[6]@ == "img"@ && tags@[7]@ == "input"@ && tags@[8]@ == "link"@ && tags@[9]@ == "meta"@ && tags@[10]@ == "param"@ && tags@[11]@ == "source"@
            && tags@[12]@ == "track"@ && tags@[13]@ == "wbr"@);
    }»

    ⟦tags.contains(&element.name.as_str())⇒vx_contains(&tags, element.name.as_str())⟧
}
//@end

// the text of one line
proof fn lemma_line_open(id: Option<nat>, name: Seq<char>, attrs: Attrs, void: bool, end: Seq<char>)
    requires end == tag_end(void),
    ensures enc_all(seq![pad(id), P::Open { name, attrs, void }]) == pad(id)->Txt_0 + seq!['<'] + esc(name, true) + enc_attrs(attrs) + end,
{
    let o = P::Open { name, attrs, void };
    lemma_pad_text(id);
    lemma_enc_two(pad(id), o);
    let p = pad(id)->Txt_0;
    assert(p + (seq!['<'] + esc(name, true) + enc_attrs(attrs) + end) =~= p + seq!['<'] + esc(name, true) + enc_attrs(attrs) + end);
}
proof fn lemma_line_close(id: Option<nat>, name: Seq<char>)
    ensures enc_all(seq![pad(id), P::Close(name)]) == pad(id)->Txt_0 + seq!['<', '/'] + esc(name, true) + seq!['>'],
{
    lemma_pad_text(id);
    lemma_enc_two(pad(id), P::Close(name));
    let p = pad(id)->Txt_0;
    assert(p + (seq!['<', '/'] + esc(name, true) + seq!['>']) =~= p + seq!['<', '/'] + esc(name, true) + seq!['>']);
}
proof fn lemma_line_text(id: Option<nat>, name: Seq<char>, attrs: Attrs, t: P)
    ensures
        enc_all(seq![pad(id), P::Open { name, attrs, void: false }, t, P::Close(name)])
            == pad(id)->Txt_0 + seq!['<'] + esc(name, true) + enc_attrs(attrs) + seq!['>'] + enc(t) + seq!['<', '/'] + esc(name, true) + seq!['>'],
{
    let o = P::Open { name, attrs, void: false };
    let c = P::Close(name);
    lemma_line_open(id, name, attrs, false, seq!['>']);
    lemma_enc_two(t, c);
    lemma_enc_add(seq![pad(id), o], seq![t, c]);
    assert(seq![pad(id), o] + seq![t, c] =~= seq![pad(id), o, t, c]);
    let l = pad(id)->Txt_0 + seq!['<'] + esc(name, true) + enc_attrs(attrs) + seq!['>'];
    assert(l + (enc(t) + (seq!['<', '/'] + esc(name, true) + seq!['>'])) =~= l + enc(t) + seq!['<', '/'] + esc(name, true) + seq!['>']);
}
proof fn lemma_enc_two(a: P, b: P)
    ensures enc_all(seq![a, b]) == enc(a) + enc(b),
{
    lemma_enc_add(seq![a], seq![b]);
    lemma_enc_one(a);
    lemma_enc_one(b);
    assert(seq![a] + seq![b] =~= seq![a, b]);
}
proof fn lemma_pad_text(id: Option<nat>)
    ensures pad(id) is Txt, enc(pad(id)) == pad(id)->Txt_0,
{
    lemma_ws(pad(id)->Txt_0);
}

//@item fn html_node_to_string
fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode)
«    requires mw(node),
    ensures sv(final(result)@) == sv(old(result)@) + el(lines(nv(node), ident.id())),
    decreases (if node is Element { 1int } else { 0 }), nv(node),»
{
    let ident_str = ident.get();
«    let ghost id = ident.id();
    let ghost s0 = sv(result@);
    let ghost n = nv(node);»

    match node {
        HtmlNode::Element(element) => {
«            let ghost name = element.name@;
            let ghost attrs = av(element.attr);
            let ghost kids = nvs(element.children@);
            proof {
                lemma_nv(element);
                reveal_strlit("<"); reveal_strlit(" />"); reveal_strlit(">"); reveal_strlit("</");
                assert("<"@ =~= seq!['<']); assert(" />"@ =~= tag_end(true)); assert(">"@ =~= tag_end(false)); assert("</"@ =~= seq!['<', '/']);
            }»
            let is_self_closing = is_self_closing(&element);
            let el_name = ⟦encode_safe(&element.name)⇒vx_encode_safe(element.name.as_str())⟧;
            let attrs = attributes_to_string(element.attr);

            if is_self_closing {
                let line = [⟦&ident_str⇒ident_str.as_str()⟧, "<", ⟦&el_name⇒el_name.as_str()⟧, ⟦&attrs⇒attrs.as_str()⟧, " />"];

«                let ghost l = seq![pad(id), P::Open { name, attrs: av(element.attr), void: true }];
                proof {
                    assert(rv(line@) =~= seq![ident_str@, "<"@, el_name@, attrs@, " />"@]);
                    lemma_cats5(ident_str@, "<"@, el_name@, attrs@, " />"@);
                    lemma_line_open(id, name, av(element.attr), true, " />"@);
                    lemma_el_one(l);
                    assert(lines(n, id) == seq![l]);
                }
                let ghost r0 = result@;»
                result.push(⟦line.concat()⇒vx_concat(&line)⟧);
«                proof { lemma_sv_push(r0, result@.last()); assert(result@ =~= r0.push(result@.last())); assert(s0.push(enc_all(l)) =~= s0 + seq![enc_all(l)]); }»
                return;
            }

            match get_render_child_mode(element.children) {
                ChildMode::Child(children) => {
                    //open tag
                    let line = [⟦&ident_str⇒ident_str.as_str()⟧, "<", ⟦&el_name⇒el_name.as_str()⟧, ⟦&attrs⇒attrs.as_str()⟧, ">"];

«                    let ghost l0 = seq![pad(id), P::Open { name, attrs: av(element.attr), void: false }];
                    let ghost l1 = seq![pad(id), P::Close(name)];
                    let ghost d = deeper(id);
                    proof {
                        assert(rv(line@) =~= seq![ident_str@, "<"@, el_name@, attrs@, ">"@]);
                        lemma_cats5(ident_str@, "<"@, el_name@, attrs@, ">"@);
                        lemma_line_open(id, name, av(element.attr), false, ">"@);
                    }
                    let ghost r0 = result@;»
                    result.push(⟦line.concat()⇒vx_concat(&line)⟧);
«                    let ghost s1 = sv(result@);
                    proof {
                        lemma_sv_push(r0, result@.last());
                        assert(result@ =~= r0.push(result@.last()));
                        assert(s1 == s0.push(enc_all(l0)));
                        assert(s1 =~= s0 + seq![enc_all(l0)]);
                        assert(nvs(children@).take(0) =~= Seq::empty());
                        assert(el(ml(Seq::empty(), d)) =~= Seq::empty());
                        assert(s1 + Seq::<Seq<char>>::empty() =~= s1);
                    }
                    let ghost cs = nvs(children@);»

                    //render child
                    for child in «it:» children
«                        invariant
                            id == ident.id(), d == deeper(id), cs == nvs(it.seq()), n is El, n == nv(node), node is Element, cs == mg(n->kids, None),
                            forall|i: int| 0 <= i < it.seq().len() ==> mw(#[trigger] it.seq()[i]),
                            sv(result@) == s1 + el(ml(cs.take(it.index@ as int), d)),»
                    {
«                        proof {
                            let i = it.index@ as int;
                            assert(it.seq()[i] == child);
                            assert(cs[i] == nv(child));
                            assert(cs.take(i + 1).drop_last() =~= cs.take(i));
                            assert(cs.take(i + 1).last() == cs[i]);
                            lemma_el_add(ml(cs.take(i), d), lines(nv(child), d));
                            lemma_is_el(child);
                            if child is Element {
                                lemma_mg_in(n->kids, None, i);
                                let j = n->kids.index_of(cs[i]);
                                assert(decreases_to!(n => n->kids[j]));
                            }
                            let a = el(ml(cs.take(i), d));
                            let b = el(lines(nv(child), d));
                            assert((s1 + a) + b =~= s1 + (a + b));
                        }»
                        html_node_to_string(result, ident.add(2), child);
                    }

                    //close tag
                    let line = [⟦&ident_str⇒ident_str.as_str()⟧, "</", ⟦&el_name⇒el_name.as_str()⟧, ">"];

«                    proof {
                        assert(cs.take(cs.len() as int) =~= cs);
                        lemma_mg_lines(kids, None, d);
                        assert(rv(line@) =~= seq![ident_str@, "</"@, el_name@, ">"@]);
                        lemma_cats4(ident_str@, "</"@, el_name@, ">"@);
                        lemma_line_close(id, name);
                    }
                    let ghost r2 = result@;»
                    result.push(⟦line.concat()⇒vx_concat(&line)⟧);
«                    proof {
                        lemma_sv_push(r2, result@.last());
                        assert(result@ =~= r2.push(result@.last()));
                        let k = lk(kids, None, d);
                        assert(lines(n, id) == seq![l0] + k + seq![l1]);
                        lemma_el_add(seq![l0] + k, seq![l1]);
                        lemma_el_add(seq![l0], k);
                        lemma_el_one(l0);
                        lemma_el_one(l1);
                        assert(((s0 + seq![enc_all(l0)]) + el(k)).push(enc_all(l1)) =~= s0 + (seq![enc_all(l0)] + el(k) + seq![enc_all(l1)]));
                    }»
                }
                ChildMode::Text(text) => {
«                    let ghost t = content(name, text@);»
                    let escaped_text =
                        if ⟦["script", "style"].contains(&element.name.to_lowercase().as_str())⇒vx_contains_2("script", "style", vx_lower(&element.name).as_str())⟧ {
                            ⟦Cow::from(text)⇒text⟧
                        } else {
                            ⟦encode_safe(&text)⇒vx_encode_safe(text.as_str())⟧
                        };

                    let line = [
                        //open tag
                        ⟦&ident_str⇒ident_str.as_str()⟧,
                        "<",
                        ⟦&el_name⇒el_name.as_str()⟧,
                        ⟦&attrs⇒attrs.as_str()⟧,
                        ">",
                        // content
                        ⟦&escaped_text⇒escaped_text.as_str()⟧,
                        //close tag
                        "</",
                        ⟦&el_name⇒el_name.as_str()⟧,
                        ">",
                    ];

«                    let ghost l = seq![pad(id), P::Open { name, attrs: av(element.attr), void: false }, t, P::Close(name)];
                    proof {
                        assert(escaped_text@ == enc(t));
                        assert(rv(line@) =~= seq![ident_str@, "<"@, el_name@, attrs@, ">"@, escaped_text@, "</"@, el_name@, ">"@]);
                        lemma_cats9(ident_str@, "<"@, el_name@, attrs@, ">"@, escaped_text@, "</"@, el_name@, ">"@);
                        lemma_line_text(id, name, av(element.attr), t);
                        lemma_el_one(l);
                        assert(lines(n, id) == seq![l]);
                    }
                    let ghost r0 = result@;»
                    result.push(⟦line.concat()⇒vx_concat(&line)⟧);
«                    proof { lemma_sv_push(r0, result@.last()); assert(result@ =~= r0.push(result@.last())); assert(s0.push(enc_all(l)) =~= s0 + seq![enc_all(l)]); }»
                }
            }
        }
        HtmlNode::Text(text) => {
«            let ghost l = seq![pad(id), P::Txt(text@)];
            proof { lemma_pad_text(id); lemma_enc_two(pad(id), P::Txt(text@)); lemma_el_one(l); }
            let ghost r0 = result@;»
            result.push(⟦format!("{ident_str}{}", encode_safe(&text))⇒vx_format_text(&ident_str, vx_encode_safe(text.as_str()))⟧);
«            proof { lemma_sv_push(r0, result@.last()); assert(result@ =~= r0.push(result@.last())); assert(s0.push(enc_all(l)) =~= s0 + seq![enc_all(l)]); }»
        }
        HtmlNode::Comment(comment) => {
«            let ghost l = seq![pad(id), P::Com(comment@)];
            proof { lemma_pad_text(id); lemma_enc_two(pad(id), P::Com(comment@)); lemma_el_one(l); }
            let ghost r0 = result@;»
            result.push(⟦format!("{ident_str}<!--{}-->", encode_safe(&comment))⇒vx_format_comment(&ident_str, vx_encode_safe(comment.as_str()))⟧);
«            proof { lemma_sv_push(r0, result@.last()); assert(result@ =~= r0.push(result@.last())); assert(s0.push(enc_all(l)) =~= s0 + seq![enc_all(l)]); }»
        }
    }
}
//@end
proof fn lemma_doc(d: Seq<char>, ls: Seq<Seq<P>>)
    ensures
        joins(seq![d] + el(ls), seq!['\n']) == d + enc_all(flat(ls, true)),
        cats(seq![d] + el(ls)) == d + enc_all(flat(ls, false)),
    decreases ls.len(),
{
    let v = seq![d] + el(ls);
    if ls.len() == 0 {
        assert(v =~= seq![d]);
        lemma_cats_push(Seq::empty(), d);
        assert(Seq::<char>::empty() + d =~= d);
        assert(d + Seq::<char>::empty() =~= d);
    } else {
        let k = ls.drop_last();
        let l = ls.last();
        lemma_doc(d, k);
        lemma_el_add(k, seq![l]);
        lemma_el_one(l);
        assert(k + seq![l] =~= ls);
        assert(v =~= (seq![d] + el(k)).push(enc_all(l)));
        assert(v.drop_last() =~= seq![d] + el(k));
        lemma_cats_push(seq![d] + el(k), enc_all(l));
        let z = Seq::<char>::empty();
        assert(enc(nl(false)) =~= z);
        lemma_ws(seq!['\n']);
        assert(enc(nl(true)) == seq!['\n']);
        lemma_flat_last(k, l, true);
        lemma_flat_last(k, l, false);
        assert((d + enc_all(flat(k, true))) + seq!['\n'] + enc_all(l) =~= d + (enc_all(flat(k, true)) + (seq!['\n'] + enc_all(l))));
        assert((d + enc_all(flat(k, false))) + enc_all(l) =~= d + (enc_all(flat(k, false)) + (z + enc_all(l))));
    }
}
proof fn lemma_flat_last(k: Seq<Seq<P>>, l: Seq<P>, f: bool)
    ensures enc_all(flat(k + seq![l], f)) == enc_all(flat(k, f)) + (enc(nl(f)) + enc_all(l)),
{
    lemma_flat_add(k, seq![l], f);
    lemma_flat_one(l, f);
    lemma_enc_add(flat(k, f), seq![nl(f)] + l);
    lemma_enc_add(seq![nl(f)], l);
    lemma_enc_one(nl(f));
}

impl HtmlDocument {
//@item impl HtmlDocument :: fn new
    pub fn new(root: HtmlNode) -> «(r:» HtmlDocument«)
        ensures r.root == root,»
    {
        HtmlDocument { root }
    }
//@end
// THEOREM (C06): the text served for a document is, after the document type, text that is read back as the document's tree
//@item impl HtmlDocument :: fn convert_to_string
    pub fn convert_to_string(self, format: bool) -> «(r:» String«)
        requires mw(self.root),
        ensures
            pre(r@, "<!DOCTYPE html>"@),
            self.root is Element && wfn(nv(self.root)) ==> {
                let n = nv(self.root);
                let ts = tok(r@.skip("<!DOCTYPE html>"@.len() as int), false);
                cut_toks(ts, format) == tk(p2(n), Seq::empty(), format) && (!format ==> ts == tokens(p2(n), Seq::empty()))
            },»
    {
        let mut result = vec![⟦"<!DOCTYPE html>".to_owned()⇒vx_owned("<!DOCTYPE html>")⟧];
        let root_ident = match format {
            true => Ident::new(),
            false => Ident::empty(),
        };
«        let ghost d = "<!DOCTYPE html>"@;
        let ghost ls = lines(nv(self.root), ident0(format));
        proof {
            assert(sv(result@) =~= seq![d]);
            lemma_doc(d, ls);
            lemma_is_el(self.root);
            let b = enc_all(flat(ls, format));
            assert((d + b).take(d.len() as int) =~= d);
            assert((d + b).skip(d.len() as int) =~= b);
            if self.root is Element && wfn(nv(self.root)) { theorem_read_back(nv(self.root), format); }
            reveal_strlit("\n");
            assert("\n"@ =~= seq!['\n']);
        }»

        html_node_to_string(&mut result, root_ident, self.root);

        match format {
            true => ⟦result.join("\n")⇒vx_join(&result, "\n")⟧,
            false => ⟦result.concat()⇒vx_concat_strings(&result)⟧,
        }
    }
//@end
}
proof fn lemma_attr_lines(s: Seq<String>, a: Attrs, i: int)
    requires s.len() == 0, i == 0,
    ensures cats(sv(s)) == enc_attrs(a.take(i)),
{
    assert(sv(s) =~= Seq::empty());
    assert(a.take(0) =~= Seq::empty());
}

} // verus!
fn main() {}
