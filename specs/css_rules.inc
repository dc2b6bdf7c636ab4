// ---- trusted: more string operations, the keys of the map of static blocks --------------------------------------------------
mod skx {
    use super::*;
    pub uninterp spec fn sstr(cs: Seq<char>) -> &'static str;
    pub broadcast axiom fn axiom_str_ext(s: &'static str)
        ensures sstr(#[trigger] s@) == s;
    pub broadcast axiom fn axiom_str_key()
        ensures #[trigger] obeys_key_model::<&'static str>();
}
#[verifier::external_body]
fn vx_concat<const K: usize>(v: &[&str; K]) -> (r: String) ensures r@ == cats(rv(v@)) { v.concat() }
fn vx_join_3(a: &str, b: &str, c: &str, sep: &str) -> (r: String)
    ensures r@ == joins(seq![a@, b@, c@], sep@),
{
    let mut v: Vec<&str> = Vec::new();
    v.push(a);
    v.push(b);
    v.push(c);
    proof { assert(rv(v@).skip(0) =~= seq![a@, b@, c@]); }
    vx_join_from(&v, 0, sep)
}
#[verifier::external_body]
fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn vx_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn vx_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
// fewer than 2^64 names are given out
#[verifier::external_body]
fn vx_next(n: u64) -> (r: u64) ensures r == n + 1 { n + 1 }
pub open spec fn digit(n: nat) -> char { ('0' as u32 + n % 10) as char }
// decimal notation
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n)) }
}
#[verifier::external_body]
fn vx_dec(n: u64) -> (r: String) ensures r@ == dec(n as nat) { n.to_string() }

// ---- style blocks turned into rules ------------------------------------------------------------------------------------------
pub open spec fn class(id: nat) -> Seq<char> { "autocss_"@ + dec(id) }
pub open spec fn dv(d: Option<(String, String)>) -> Option<(Seq<char>, Seq<char>)> {
    match d { Some(d) => Some((d.0@, d.1@)), None => None }
}
pub open spec fn dvs(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|d: (String, String)| (d.0@, d.1@)) }
pub open spec fn opt<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }

// the value of an animation: the bracket group becomes a keyframes rule of its own
pub open spec fn animation(v: Seq<char>, id: nat) -> (Seq<char>, Option<(Seq<char>, Seq<char>)>) {
    match brackets(v) {
        Some(b) => (joins(seq![b.0, class(id), b.2], " "@), Some(("@keyframes "@ + class(id), b.1))),
        None => (v, None),
    }
}
pub open spec fn selector_value(row: Seq<char>, parent: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match brackets(row) {
        Some(b) => Some((parent + b.0, b.1)),
        None => None,
    }
}
pub open spec fn starts(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
// the rules of the class inside @media
pub open spec fn regular(rs: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases rs.len(),
{
    if rs.len() == 0 { Seq::empty() } else if starts(rs.last(), ':') { regular(rs.drop_last()) } else { regular(rs.drop_last()).push(rs.last()) }
}
// the rule sets of its pseudo selectors
pub open spec fn pseudo(rs: Seq<Seq<char>>, parent: Seq<char>) -> Seq<Seq<char>>
    decreases rs.len(),
{
    if rs.len() == 0 { Seq::empty() } else if starts(rs.last(), ':') {
        match selector_value(rs.last(), parent) {
            Some(e) => pseudo(rs.drop_last(), parent).push(e.0 + " { "@ + e.1 + " }"@),
            None => pseudo(rs.drop_last(), parent),
        }
    } else { pseudo(rs.drop_last(), parent) }
}
pub open spec fn media_base(reg: Seq<Seq<char>>, parent: Seq<char>) -> Seq<char> {
    if reg.len() == 0 { Seq::empty() } else { parent + " { "@ + joins(reg, ";"@) + " }"@ }
}
pub open spec fn add_sets(base: Seq<char>, sets: Seq<Seq<char>>) -> Seq<char>
    decreases sets.len(),
{
    if sets.len() == 0 { base } else {
        let m = add_sets(base, sets.drop_last());
        (if m.len() == 0 { m } else { m.push('\n') }) + sets.last()
    }
}
pub open spec fn media(row: Seq<char>, parent: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match brackets(row) {
        Some(b) => {
            let reg = regular(rows(b.1));
            let sets = pseudo(rows(b.1), parent);
            if reg.len() == 0 && sets.len() == 0 { None } else { Some((b.0, add_sets(media_base(reg, parent), sets))) }
        },
        None => None,
    }
}
// a row holds one bracket group
pub open spec fn media_ok(row: Seq<char>) -> bool {
    match brackets(row) { Some(b) => open_ok(b.1), None => true }
}
// a rule: what is added to the rules of the class, a rule of its own, and whether a name was needed
pub open spec fn rule(row: Seq<char>, sel: Seq<char>, id: nat) -> (Option<Seq<char>>, Option<(Seq<char>, Seq<char>)>, bool) {
    if starts(row, ':') || starts(row, '[') { (None, selector_value(row, sel), false) }
    else if "@media"@.is_prefix_of(row) { (None, media(row, sel), false) }
    else if row.contains(':') {
        let p = pair(row);
        if tr(p.0) == "animation"@ {
            let a = animation(p.1, id + 1);
            (Some(p.0 + ": "@ + a.0), a.1, a.1 is Some)
        } else { (Some(p.0 + ": "@ + p.1), None, false) }
    } else { (Some(row), None, false) }
}
pub struct Rules {
    pub own: Seq<Seq<char>>,
    pub docs: Seq<(Seq<char>, Seq<char>)>,
    pub id: nat,
}
pub open spec fn rules(rs: Seq<Seq<char>>, sel: Seq<char>, id: nat) -> Rules
    decreases rs.len(),
{
    if rs.len() == 0 { Rules { own: Seq::empty(), docs: Seq::empty(), id } } else {
        let b = rules(rs.drop_last(), sel, id);
        let r = rule(rs.last(), sel, b.id);
        Rules { own: b.own + opt(r.0), docs: b.docs + opt(r.1), id: b.id + (if r.2 { 1nat } else { 0nat }) }
    }
}
// the documents of a style block which is given the class with this number
pub open spec fn sheet(css: Seq<char>, id: nat) -> Seq<(Seq<char>, Seq<char>)> {
    let sel = "."@ + class(id);
    let r = rules(rows(css), sel, id);
    r.docs.push((sel, joins(r.own, "; "@)))
}
pub open spec fn is_media(row: Seq<char>) -> bool { !starts(row, ':') && !starts(row, '[') && "@media"@.is_prefix_of(row) }
// brackets match, and each @media row holds one bracket group
pub open spec fn css_ok(css: Seq<char>) -> bool {
    &&& open_ok(css)
    &&& forall|i: int| 0 <= i < rows(css).len() && is_media(#[trigger] rows(css)[i]) ==> media_ok(rows(css)[i])
}
pub open spec fn rows_ok(rs: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < rs.len() ==> open_ok(#[trigger] rs[i]) }
proof fn lemma_cats2(a: Seq<char>, b: Seq<char>)
    ensures cats(seq![a, b]) == a + b,
{
    assert(seq![a, b].drop_last() =~= seq![a]);
    assert(seq![a].drop_last() =~= Seq::<Seq<char>>::empty());
    reveal_with_fuel(cats, 3);
    assert(cats(seq![a]) =~= a);
}
proof fn lemma_cats3(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures cats(seq![a, b, c]) == a + b + c,
{
    assert(seq![a, b, c].drop_last() =~= seq![a, b]);
    lemma_cats2(a, b);
}
proof fn lemma_cats4(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    ensures cats(seq![a, b, c, d]) == a + b + c + d,
{
    assert(seq![a, b, c, d].drop_last() =~= seq![a, b, c]);
    lemma_cats3(a, b, c);
}
fn vx_cat2(a: &str, b: &str) -> (r: String)
    ensures r@ == a@ + b@,
{
    let v = [a, b];
    proof { lemma_cats2(a@, b@); assert(rv(v@) =~= seq![a@, b@]); }
    vx_concat(&v)
}
fn vx_cat3(a: &str, b: &str, c: &str) -> (r: String)
    ensures r@ == a@ + b@ + c@,
{
    let v = [a, b, c];
    proof { lemma_cats3(a@, b@, c@); assert(rv(v@) =~= seq![a@, b@, c@]); }
    vx_concat(&v)
}
fn vx_cat4(a: &str, b: &str, c: &str, d: &str) -> (r: String)
    ensures r@ == a@ + b@ + c@ + d@,
{
    let v = [a, b, c, d];
    proof { lemma_cats4(a@, b@, c@, d@); assert(rv(v@) =~= seq![a@, b@, c@, d@]); }
    vx_concat(&v)
}
// brackets are not white space
pub axiom fn axiom_white()
    ensures !white('{'), !white('}'), !white(';');
proof fn lemma_depth_add(a: Seq<char>, b: Seq<char>)
    ensures depth(a + b) == depth(a) + depth(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_depth_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_skip_ok(s: Seq<char>, k: int)
    requires open_ok(s), 0 <= k <= s.len(), depth(s.take(k)) == 0,
    ensures open_ok(s.skip(k)), depth(s.skip(k)) == depth(s),
{
    let t = s.skip(k);
    assert forall|i: int| 0 <= i <= t.len() implies 0 <= #[trigger] depth(t.take(i)) < 65536 by {
        lemma_depth_add(s.take(k), t.take(i));
        assert(s.take(k) + t.take(i) =~= s.take(k + i));
    }
    assert(t.take(t.len() as int) =~= t);
    lemma_depth_add(s.take(k), t);
    assert(s.take(k) + t =~= s);
}
proof fn lemma_take_ok(s: Seq<char>, k: int)
    requires open_ok(s), 0 <= k <= s.len(),
    ensures open_ok(s.take(k)),
{
    let t = s.take(k);
    assert forall|i: int| 0 <= i <= t.len() implies 0 <= #[trigger] depth(t.take(i)) < 65536 by {
        assert(t.take(i) =~= s.take(i));
    }
}
proof fn lemma_ltrim_ok(s: Seq<char>)
    ensures open_ok(s) ==> open_ok(ltrim(s)), depth(ltrim(s)) == depth(s),
    decreases s.len(),
{
    if s.len() > 0 && white(s[0]) {
        axiom_white();
        let a = s.take(1);
        assert(a.drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(depth, 2);
        assert(a.last() == s[0]);
        assert(depth(a) == 0);
        lemma_depth_add(a, s.skip(1));
        assert(a + s.skip(1) =~= s);
        if open_ok(s) { lemma_skip_ok(s, 1); }
        lemma_ltrim_ok(s.skip(1));
    }
}
proof fn lemma_rtrim_ok(s: Seq<char>)
    ensures open_ok(s) ==> open_ok(rtrim(s)), depth(rtrim(s)) == depth(s),
    decreases s.len(),
{
    if s.len() > 0 && white(s.last()) {
        axiom_white();
        assert(s.take(s.len() - 1) =~= s.drop_last());
        if open_ok(s) { lemma_take_ok(s, s.len() - 1); }
        lemma_rtrim_ok(s.drop_last());
    }
}
proof fn lemma_trim_ok(s: Seq<char>)
    ensures open_ok(s) ==> open_ok(tr(s)), depth(tr(s)) == depth(s),
{
    lemma_ltrim_ok(s);
    lemma_rtrim_ok(ltrim(s));
}
proof fn lemma_pieces_ok(s: Seq<char>)
    requires open_ok(s),
    ensures rows_ok(done(s)), open_ok(cur(s)),
        depth(cur(s)) == depth(s),
        forall|i: int| 0 <= i < done(s).len() ==> depth(#[trigger] done(s)[i]) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(s.take(s.len() - 1) =~= t);
        lemma_take_ok(s, s.len() - 1);
        lemma_pieces_ok(t);
        assert(s.take(s.len() as int) =~= s);
        if !cuts(t, s.last()) {
            let c = cur(s);
            assert(c =~= cur(t).push(s.last()));
            assert(c.drop_last() =~= cur(t));
            assert(depth(c) == depth(s));
            assert forall|i: int| 0 <= i <= c.len() implies 0 <= #[trigger] depth(c.take(i)) < 65536 by {
                if i == c.len() { assert(c.take(i) =~= c); assert(0 <= depth(s.take(s.len() as int)) < 65536); } else { assert(c.take(i) =~= cur(t).take(i)); }
            }
        } else {
            assert(open_ok(Seq::<char>::empty())) by { lemma_start(); assert forall|i: int| 0 <= i <= 0 implies 0 <= #[trigger] depth(Seq::<char>::empty().take(i)) < 65536 by { } }
        }
    } else {
        lemma_start();
        assert forall|i: int| 0 <= i <= 0 implies 0 <= #[trigger] depth(Seq::<char>::empty().take(i)) < 65536 by { }
        assert(cur(s) =~= Seq::<char>::empty());
        assert(done(s) =~= Seq::<Seq<char>>::empty());
    }
}
proof fn lemma_filter_ok(v: Seq<Seq<char>>)
    requires rows_ok(v),
    ensures rows_ok(v.filter(|x: Seq<char>| tr(x).len() != 0)),
    decreases v.len(),
{
    reveal(Seq::filter);
    if v.len() > 0 {
        assert(rows_ok(v.drop_last())) by {
            assert forall|i: int| 0 <= i < v.len() - 1 implies open_ok(#[trigger] v.drop_last()[i]) by { assert(open_ok(v[i])); }
        }
        lemma_filter_ok(v.drop_last());
        assert(open_ok(v[v.len() - 1]));
    }
}
proof fn lemma_rows_ok(s: Seq<char>)
    requires open_ok(s),
    ensures rows_ok(rows(s)),
{
    lemma_pieces_ok(s);
    let v = trims(pieces(s));
    assert forall|i: int| 0 <= i < v.len() implies open_ok(#[trigger] v[i]) by {
        lemma_trim_ok(pieces(s)[i]);
        if i < done(s).len() { assert(open_ok(done(s)[i])); }
    }
    lemma_filter_ok(v);
}

#[verifier::external_body]
fn vx_starts_with_str(s: &str, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(s@) { s.starts_with(p) }
#[verifier::external_body]
fn vx_str_eq2(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn vx_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joins(sv(v@), sep@) { v.join(sep) }
proof fn lemma_no_brackets(s: Seq<char>)
    requires !s.contains('{'), !s.contains('}'),
    ensures depth(s) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(s =~= t.push(s.last()));
        lemma_contains_push(t, s.last(), '{');
        lemma_contains_push(t, s.last(), '}');
        lemma_no_brackets(t);
    }
}
// the value behind a name without brackets
proof fn lemma_value_ok(row: Seq<char>)
    requires open_ok(row), row.contains(':'), tr(pair(row).0) == "animation"@,
    ensures open_ok(pair(row).1),
{
    let k = first(row, ':');
    lemma_first(row, ':');
    let n = row.take(k);
    lemma_trim_ok(n);
    lemma_trim_ok(tr(n));
    let a = "animation"@;
    reveal_strlit("animation");
    assert(!a.contains('{') && !a.contains('}'));
    lemma_no_brackets(a);
    assert(depth(n) == 0);
    assert(row.take(k + 1) =~= n.push(':'));
    assert(n.push(':').drop_last() =~= n);
    assert(depth(row.take(k + 1)) == 0);
    lemma_skip_ok(row, k + 1);
    lemma_trim_ok(row.skip(k + 1));
}

// ---- what the properties say, on these functions --------------------------------------------------------------------------------
proof fn lemma_joins_push(v: Seq<Seq<char>>, x: Seq<char>, sep: Seq<char>)
    ensures joins(v.push(x), sep) == if v.len() == 0 { x } else { joins(v, sep) + sep + x },
{
    assert(v.push(x).drop_last() =~= v);
}
// Splitting keeps all the text, and splits at separators outside all brackets: each piece has its brackets matched.
proof fn theorem_rows(s: Seq<char>)
    requires balanced(s),
    ensures
        joins(pieces(s), ";"@) == s,
        forall|i: int| 0 <= i < pieces(s).len() ==> balanced(#[trigger] pieces(s)[i]),
{
    lemma_pieces_joined(s);
    lemma_pieces_ok(s);
    assert forall|i: int| 0 <= i < pieces(s).len() implies balanced(#[trigger] pieces(s)[i]) by {
        if i < done(s).len() { assert(open_ok(done(s)[i])); }
    }
}
proof fn lemma_pieces_joined(s: Seq<char>)
    ensures joins(pieces(s), ";"@) == s,
    decreases s.len(),
{
    reveal_strlit(";");
    let sep = ";"@;
    assert(sep =~= seq![';']);
    lemma_joins_push(done(s), cur(s), sep);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_pieces_joined(t);
        lemma_joins_push(done(t), cur(t), sep);
        assert(s =~= t.push(s.last()));
        if cuts(t, s.last()) {
            assert(done(s) == pieces(t));
            assert(joins(pieces(s), sep) =~= t + sep);
        } else {
            assert(cur(s) == cur(t).push(s.last()));
            assert(joins(pieces(s), sep) =~= joins(pieces(t), sep).push(s.last()));
        }
    } else {
        lemma_start();
        assert(joins(pieces(s), sep) =~= s);
    }
}
// Name, colon and value make the row.
proof fn theorem_pair(s: Seq<char>)
    requires s.contains(':'),
    ensures
        s == s.take(first(s, ':')) + seq![':'] + s.skip(first(s, ':') + 1),
        !s.take(first(s, ':')).contains(':'),
{
    lemma_first(s, ':');
    assert(s =~= s.take(first(s, ':')) + seq![':'] + s.skip(first(s, ':') + 1));
}
proof fn lemma_dec(a: nat, b: nat)
    ensures dec(a) == dec(b) ==> a == b,
    decreases a,
{
    lemma_dec_len(a);
    lemma_dec_len(b);
    if dec(a) == dec(b) {
        assert(dec(a).last() == digit(a) && dec(b).last() == digit(b));
        assert(digit(a) == digit(b));
        assert(a % 10 == b % 10) by { lemma_digit(a, b); }
        if a >= 10 {
            assert(dec(a).drop_last() =~= dec(a / 10));
            assert(dec(a).len() > 1);
            assert(b >= 10);
            assert(dec(b).drop_last() =~= dec(b / 10));
            lemma_dec(a / 10, b / 10);
        } else if b >= 10 {
            assert(dec(b).len() > 1);
        }
    }
}
proof fn lemma_dec_len(a: nat)
    ensures dec(a).len() >= 1, a >= 10 ==> dec(a).len() > 1,
    decreases a,
{
    if a >= 10 { lemma_dec_len(a / 10); }
}
proof fn lemma_digit(a: nat, b: nat)
    requires digit(a) == digit(b),
    ensures a % 10 == b % 10,
{
    let x = ('0' as u32 + a % 10) as u32;
    let y = ('0' as u32 + b % 10) as u32;
    assert(x as char == digit(a) && y as char == digit(b));
    assert(48 <= x < 58 && 48 <= y < 58);
    assert((x as char) as u32 == x && (y as char) as u32 == y);
}
// Different numbers make different class names.
proof fn theorem_class(a: nat, b: nat)
    ensures class(a) == class(b) ==> a == b,
{
    lemma_dec(a, b);
    let p = "autocss_"@;
    if class(a) == class(b) {
        assert((p + dec(a)).skip(p.len() as int) =~= dec(a));
        assert((p + dec(b)).skip(p.len() as int) =~= dec(b));
    }
}
