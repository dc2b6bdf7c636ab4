// ---- trusted: std's string operations, on sequences of characters and byte offsets -----------------------------------------
// bytes of a character
pub uninterp spec fn clen(c: char) -> nat;
pub axiom fn axiom_clen(c: char)
    ensures 1 <= clen(c) <= 4, (c as u32) < 128 ==> clen(c) == 1;
// bytes of the first i characters
pub open spec fn boff(s: Seq<char>, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { boff(s, i - 1) + clen(s[i - 1]) }
}
pub open spec fn blen(s: Seq<char>) -> int { boff(s, s.len() as int) }
#[verifier::external_body]
fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures
        r@.len() == s@.len(),
        blen(s@) <= isize::MAX,
        forall|j: int| 0 <= j < s@.len() ==> r@[j] == (boff(s@, j) as usize, #[trigger] s@[j]),
{ s.char_indices().collect() }
#[verifier::external_body]
fn vx_char_indices_rev(s: &str) -> (r: Vec<(usize, char)>)
    ensures
        r@.len() == s@.len(),
        blen(s@) <= isize::MAX,
        forall|j: int| 0 <= j < s@.len() ==> #[trigger] r@[j] == (boff(s@, s@.len() - 1 - j) as usize, s@[s@.len() - 1 - j]),
{ s.char_indices().rev().collect() }
#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@), r <= isize::MAX { s.len() }
// &s[a..b]: a and b are the offsets of the characters i and j
#[verifier::external_body]
fn vx_slice<'a>(s: &'a str, a: usize, b: usize, i: Ghost<int>, j: Ghost<int>) -> (r: &'a str)
    requires 0 <= i@ <= j@ <= s@.len(), a == boff(s@, i@), b == boff(s@, j@),
    ensures r@ == s@.subrange(i@, j@),
{ &s[a..b] }
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn ltrim(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && white(s[0]) { ltrim(s.skip(1)) } else { s }
}
pub open spec fn rtrim(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && white(s.last()) { rtrim(s.drop_last()) } else { s }
}
pub open spec fn tr(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
#[verifier::external_body]
fn vx_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == tr(s@) { s.trim() }
#[verifier::external_body]
fn vx_str_ne(a: &str, b: &str) -> (r: bool) ensures r == (a@ != b@) { a != b }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures rv(r@) == split(s@, c),
{ s.split(c).collect() }
#[verifier::external_body]
fn vx_join_from(v: &Vec<&str>, from: usize, sep: &str) -> (r: String)
    requires from <= v@.len(),
    ensures r@ == joins(rv(v@).skip(from as int), sep@),
{ v[from..].join(sep) }
#[verifier::external_body]
fn vx_filter<'a>(v: Vec<&'a str>, f: impl Fn(&&'a str) -> bool) -> (r: Vec<&'a str>)
    requires forall|x: &'a str| #[trigger] call_requires(f, (&x,)),
    ensures forall|p: spec_fn(&'a str) -> bool| (forall|x: &'a str, b: bool| call_ensures(f, (&x,), b) ==> b == p(x)) ==> r@ == #[trigger] v@.filter(p),
{ v.into_iter().filter(f).collect() }
#[verifier::external_body]
fn vx_unreachable() -> !
    requires false,
{ unreachable!() }

pub open spec fn rv(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub open spec fn sv(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn cats(v: Seq<Seq<char>>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { cats(v.drop_last()) + v.last() }
}
pub open spec fn joins(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joins(v.drop_last(), sep) + sep + v.last() }
}
// str::split on a character: the pieces between its occurrences
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] } else {
        let r = split(s.drop_last(), c);
        if s.last() == c { r.push(Seq::<char>::empty()) } else { r.drop_last().push(r.last().push(s.last())) }
    }
}

// ---- style blocks ---------------------------------------------------------------------------------------------------
// brackets open at the end of s
pub open spec fn depth(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { depth(s.drop_last()) + (if s.last() == '{' { 1int } else if s.last() == '}' { -1int } else { 0int }) }
}
// no bracket is closed that was not opened, and no more are open than can be counted
pub open spec fn open_ok(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] depth(s.take(i)) < 65536
}
pub open spec fn balanced(s: Seq<char>) -> bool { open_ok(s) && depth(s) == 0 }
// something that makes a row
pub open spec fn seen(s: Seq<char>) -> bool { s.contains(':') || s.contains('.') || s.contains('{') }
// a separator: outside all brackets, and the row is not empty
pub open spec fn cuts(s: Seq<char>, c: char) -> bool
    decreases s.len(), 1int,
{ c == ';' && depth(s) == 0 && seen(cur(s)) }
// what was read since the last separator
pub open spec fn cur(s: Seq<char>) -> Seq<char>
    decreases s.len(), 0int,
{
    if s.len() == 0 { Seq::empty() } else if cuts(s.drop_last(), s.last()) { Seq::empty() } else { cur(s.drop_last()).push(s.last()) }
}
pub open spec fn done(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if cuts(s.drop_last(), s.last()) { done(s.drop_last()).push(cur(s.drop_last())) } else { done(s.drop_last()) }
}
// the text between the separators
pub open spec fn pieces(s: Seq<char>) -> Seq<Seq<char>> { done(s).push(cur(s)) }
pub open spec fn trims(v: Seq<Seq<char>>) -> Seq<Seq<char>> { v.map_values(|x: Seq<char>| tr(x)) }
// the rows of a style block
pub open spec fn rows(s: Seq<char>) -> Seq<Seq<char>> { trims(pieces(s)).filter(|x: Seq<char>| tr(x).len() != 0) }
pub open spec fn kept(x: &str) -> bool { tr(x@).len() != 0 }

proof fn lemma_start()
    ensures
        forall|s: Seq<char>| #[trigger] s.take(0) == Seq::<char>::empty(),
        !seen(Seq::empty()),
        cur(Seq::empty()) == Seq::<char>::empty(),
        depth(Seq::empty()) == 0,
        done(Seq::empty()) == Seq::<Seq<char>>::empty(),
        forall|s: Seq<char>| #[trigger] boff(s, 0) == 0,
{
    assert forall|s: Seq<char>| #[trigger] s.take(0) == Seq::<char>::empty() by { assert(s.take(0) =~= Seq::<char>::empty()); }
}
proof fn lemma_pieces(s: Seq<char>)
    ensures
        trims(pieces(s)) == trims(done(s)).push(tr(s.subrange(s.len() - cur(s).len(), s.len() as int))),
        cur(s).len() <= s.len(),
{
    assert(s.take(s.len() as int) =~= s);
    lemma_cur(s, s.len() as int);
    assert(trims(pieces(s)) =~= trims(done(s)).push(tr(cur(s))));
}
proof fn lemma_boff(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures
        0 <= boff(s, i),
        boff(s, i + 1) == boff(s, i) + clen(s[i]),
        boff(s, i) < boff(s, i + 1) <= blen(s),
        (s[i] == ';' || s[i] == '{' || s[i] == '}') ==> boff(s, i + 1) == boff(s, i) + 1,
    decreases s.len() - i,
{
    axiom_clen(s[i]);
    lemma_boff_pos(s, i);
    if i + 1 < s.len() { lemma_boff(s, i + 1); }
}
proof fn lemma_boff_pos(s: Seq<char>, i: int)
    ensures 0 <= boff(s, i),
    decreases i,
{
    if i > 0 { lemma_boff_pos(s, i - 1); }
}
proof fn lemma_cur(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        cur(s.take(i)).len() <= i,
        cur(s.take(i)) == s.subrange(i - cur(s.take(i)).len(), i),
    decreases i,
{
    let p = s.take(i);
    if i > 0 {
        lemma_cur(s, i - 1);
        assert(p.drop_last() =~= s.take(i - 1));
        if !cuts(p.drop_last(), p.last()) {
            let k = cur(s.take(i - 1)).len();
            assert(cur(p) == cur(s.take(i - 1)).push(s[i - 1]));
            assert(cur(p) =~= s.subrange(i - (k + 1), i));
        }
    }
    assert(cur(p) =~= s.subrange(i - cur(p).len(), i));
}
// the brackets open are those opened since the last separator
proof fn lemma_depth_cur(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        depth(cur(s.take(i))) == depth(s.take(i)),
        depth(s.take(i)) > 0 ==> seen(cur(s.take(i))),
    decreases i,
{
    let p = s.take(i);
    if i > 0 {
        lemma_depth_cur(s, i - 1);
        assert(p.drop_last() =~= s.take(i - 1));
        if cuts(p.drop_last(), p.last()) {
            assert(cur(p) =~= Seq::<char>::empty());
            assert(depth(p) == depth(p.drop_last()));
        } else {
            assert(cur(p) == cur(p.drop_last()).push(p.last()));
            assert(cur(p).drop_last() =~= cur(p.drop_last()));
            assert(cur(p).last() == p.last());
        }
    }
    lemma_depth_open(cur(p));
}
proof fn lemma_depth_open(s: Seq<char>)
    ensures depth(s) > 0 ==> s.contains('{'),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_depth_open(d);
        if s.last() == '{' { assert(s[s.len() - 1] == '{'); }
        if d.contains('{') { let i = choose|i: int| 0 <= i < d.len() && d[i] == '{'; assert(s[i] == '{'); }
    }
}
proof fn lemma_contains_push(s: Seq<char>, c: char, x: char)
    ensures s.push(c).contains(x) <==> s.contains(x) || c == x,
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(c)[i] == x); }
    if c == x { assert(s.push(c)[s.len() as int] == x); }
    if s.push(c).contains(x) { let i = choose|i: int| 0 <= i < s.push(c).len() && s.push(c)[i] == x; if i < s.len() { assert(s[i] == x); } }
}
proof fn lemma_seen_push(s: Seq<char>, c: char)
    ensures seen(s.push(c)) <==> seen(s) || c == ':' || c == '.' || c == '{',
{
    lemma_contains_push(s, c, ':');
    lemma_contains_push(s, c, '.');
    lemma_contains_push(s, c, '{');
}
// reading one more character
proof fn lemma_step(s: Seq<char>, i: int)
    requires open_ok(s), 0 <= i < s.len(),
    ensures
        ({
            let p = s.take(i);
            let q = s.take(i + 1);
            let c = s[i];
            let d = depth(p);
            let sn = seen(cur(p));
            &&& 0 <= d < 65536
            &&& 0 <= depth(q) < 65536
            &&& d > 0 ==> sn
            &&& depth(q) == d + (if c == '{' { 1int } else if c == '}' { -1int } else { 0int })
            &&& cuts(p, c) == (c == ';' && d == 0 && sn)
            &&& cuts(p, c) ==> cur(q).len() == 0 && !seen(cur(q)) && trims(done(q)) == trims(done(p)).push(tr(s.subrange(i - cur(p).len(), i)))
            &&& !cuts(p, c) ==> cur(q).len() == cur(p).len() + 1 && done(q) == done(p) && seen(cur(q)) == (sn || c == ':' || c == '.' || c == '{')
            &&& cur(p).len() <= i
        }),
{
    let p = s.take(i);
    let q = s.take(i + 1);
    assert(q.drop_last() =~= p);
    assert(q.last() == s[i]);
    lemma_cur(s, i);
    lemma_depth_cur(s, i);
    lemma_depth_cur(s, i + 1);
    lemma_seen_push(cur(p), s[i]);
    assert(depth(p) >= 0 && depth(q) >= 0);
    if cuts(p, s[i]) {
        lemma_start();
        assert(cur(q) =~= Seq::<char>::empty());
        assert(trims(done(q)) =~= trims(done(p)).push(tr(cur(p))));
    }
}
proof fn lemma_filter(v: Seq<&str>)
    ensures rv(v.filter(|x: &str| kept(x))) == rv(v).filter(|x: Seq<char>| tr(x).len() != 0),
    decreases v.len(),
{
    let f = |x: &str| kept(x);
    let g = |x: Seq<char>| tr(x).len() != 0;
    reveal(Seq::filter);
    if v.len() > 0 {
        lemma_filter(v.drop_last());
        assert(rv(v).drop_last() =~= rv(v.drop_last()));
        assert(rv(v).last() == v.last()@);
        assert(rv(v.filter(f)) =~= rv(v).filter(g));
    } else {
        assert(rv(v.filter(f)) =~= rv(v).filter(g));
    }
}
proof fn lemma_split_len(s: Seq<char>, c: char)
    ensures split(s, c).len() >= 1,
    decreases s.len(),
{
    if s.len() > 0 { lemma_split_len(s.drop_last(), c); }
}
// the first c of s, or its length
pub open spec fn first(s: Seq<char>, c: char) -> int
    decreases s.len(),
{
    if s.len() == 0 || s[0] == c { 0 } else { 1 + first(s.skip(1), c) }
}
// name and value: the text before and behind the first colon
pub open spec fn pair(s: Seq<char>) -> (Seq<char>, Seq<char>) {
    (tr(s.take(first(s, ':'))), tr(s.skip(first(s, ':') + 1)))
}
proof fn lemma_first(s: Seq<char>, c: char)
    ensures
        0 <= first(s, c) <= s.len(),
        first(s, c) < s.len() <==> s.contains(c),
        first(s, c) < s.len() ==> s[first(s, c)] == c,
        !s.take(first(s, c)).contains(c),
    decreases s.len(),
{
    let k = first(s, c);
    if s.len() > 0 && s[0] != c {
        let t = s.skip(1);
        lemma_first(t, c);
        assert(s.take(k) =~= seq![s[0]] + t.take(k - 1));
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i - 1] == c); }
        if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i + 1] == c); }
        if s.take(k).contains(c) { let i = choose|i: int| 0 <= i < k && s.take(k)[i] == c; assert(t.take(k - 1)[i - 1] == c); }
    } else if s.len() > 0 {
        assert(s[0] == c);
    }
}
proof fn lemma_first_is(s: Seq<char>, c: char, a: int)
    requires
        0 <= a <= s.len(),
        a < s.len() ==> s[a] == c,
        !s.take(a).contains(c),
    ensures first(s, c) == a,
{
    lemma_first(s, c);
    let k = first(s, c);
    if k < a { assert(s.take(a)[k] == c); }
    if a < k { assert(s.take(k)[a] == c); }
}
proof fn lemma_split(s: Seq<char>, c: char)
    ensures
        split(s, c).len() >= 1,
        split(s, c).len() >= 2 <==> s.contains(c),
        split(s, c)[0] == s.take(first(s, c)),
        s.contains(c) ==> joins(split(s, c).skip(1), seq![c]) == s.skip(first(s, c) + 1),
    decreases s.len(),
{
    lemma_first(s, c);
    let p = split(s, c);
    if s.len() > 0 {
        let d = s.drop_last();
        let q = split(d, c);
        lemma_split(d, c);
        lemma_first(d, c);
        assert(s =~= d.push(s.last()));
        lemma_contains_push(d, s.last(), c);
        let k = first(d, c);
        let sc = seq![c];
        if d.contains(c) {
            assert(s.take(k) =~= d.take(k));
            lemma_first_is(s, c, k);
            assert(s.take(first(s, c)) =~= d.take(k));
            let qs = q.skip(1);
            let ps = p.skip(1);
            if s.last() == c {
                assert(ps =~= qs.push(Seq::<char>::empty()));
                assert(ps.drop_last() =~= qs);
                assert(s.skip(k + 1) =~= d.skip(k + 1) + sc + Seq::<char>::empty());
            } else {
                assert(ps =~= qs.drop_last().push(qs.last().push(s.last())));
                assert(ps.drop_last() =~= qs.drop_last());
                assert(s.skip(k + 1) =~= d.skip(k + 1).push(s.last()));
                if qs.len() == 1 {
                    assert(joins(ps, sc) == qs[0].push(s.last()));
                } else {
                    assert(joins(qs, sc) == joins(qs.drop_last(), sc) + sc + qs.last());
                    assert(joins(ps, sc) =~= joins(qs.drop_last(), sc) + sc + qs.last().push(s.last()));
                    assert(joins(ps, sc) =~= joins(qs, sc).push(s.last()));
                }
            }
        } else {
            assert(k == d.len());
            assert(q.len() == 1);
            assert(d.take(k) =~= d);
            assert(s.take(k) =~= d);
            if s.last() == c {
                lemma_first_is(s, c, k);
                assert(p.skip(1) =~= seq![Seq::<char>::empty()]);
                assert(s.skip(k + 1) =~= Seq::<char>::empty());
            } else {
                assert(s.take(first(s, c)) =~= s);
                assert(p[0] =~= s);
            }
        }
    } else {
        assert(s.take(0) =~= s);
        assert(!s.contains(c));
    }
}
// the last c of s, or -1
pub open spec fn last(s: Seq<char>, c: char) -> int
    decreases s.len(),
{
    if s.len() == 0 || s.last() == c { s.len() - 1 } else { last(s.drop_last(), c) }
}
// before the first bracket, between it and the last one, and what follows
pub open spec fn brackets(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, Seq<char>)> {
    let a = first(s, '{');
    let b = last(s, '}');
    if a < s.len() && b >= 0 { Some((tr(s.take(a)), tr(s.subrange(a + 1, b)), tr(s.skip(b + 1)))) } else { None }
}
proof fn lemma_last(s: Seq<char>, c: char)
    ensures
        -1 <= last(s, c) < s.len(),
        last(s, c) >= 0 <==> s.contains(c),
        last(s, c) >= 0 ==> s[last(s, c)] == c,
        !s.skip(last(s, c) + 1).contains(c),
    decreases s.len(),
{
    let k = last(s, c);
    if s.len() > 0 && s.last() != c {
        let t = s.drop_last();
        lemma_last(t, c);
        assert(s =~= t.push(s.last()));
        lemma_contains_push(t, s.last(), c);
        assert(s.skip(k + 1) =~= t.skip(k + 1).push(s.last()));
        lemma_contains_push(t.skip(k + 1), s.last(), c);
    } else if s.len() > 0 {
        assert(s[s.len() - 1] == c);
    }
}
proof fn lemma_first_last(s: Seq<char>, a: int, b: int)
    requires
        0 <= a <= s.len(), -1 <= b < s.len(),
        a < s.len() ==> s[a] == '{' && !s.take(a).contains('{'),
        a == s.len() ==> !s.contains('{'),
        b >= 0 ==> s[b] == '}' && !s.skip(b + 1).contains('}'),
        b == -1 ==> !s.contains('}'),
    ensures first(s, '{') == a, last(s, '}') == b,
{
    if a == s.len() { assert(s.take(a) =~= s); }
    lemma_first_is(s, '{', a);
    lemma_last(s, '}');
    let k = last(s, '}');
    if k < b { assert(s.skip(k + 1)[b - k - 1] == '}'); }
    if b < k && b >= 0 { assert(s.skip(b + 1)[k - b - 1] == '}'); }
    if b < k && b < 0 { assert(s[k] == '}'); }
}
proof fn lemma_depth_close(s: Seq<char>)
    requires !s.contains('{'),
    ensures depth(s) <= 0, s.contains('}') ==> depth(s) < 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(s =~= t.push(s.last()));
        lemma_contains_push(t, s.last(), '{');
        lemma_contains_push(t, s.last(), '}');
        lemma_depth_close(t);
    }
}
proof fn lemma_first_before_last(s: Seq<char>, a: int, b: int)
    requires open_ok(s), 0 <= a < s.len(), 0 <= b < s.len(), s[a] == '{', !s.take(a).contains('{'), s[b] == '}',
    ensures a < b, boff(s, a + 1) <= boff(s, b),
{
    if b < a {
        let t = s.take(b + 1);
        assert(t[b] == '}');
        assert(!t.contains('{')) by {
            if t.contains('{') { let i = choose|i: int| 0 <= i < t.len() && t[i] == '{'; assert(s.take(a)[i] == '{'); }
        }
        lemma_depth_close(t);
        assert(depth(s.take(b + 1)) >= 0);
    }
    lemma_boff_mono(s, a + 1, b);
}
proof fn lemma_boff_mono(s: Seq<char>, i: int, j: int)
    requires i <= j,
    ensures boff(s, i) <= boff(s, j),
    decreases j - i,
{
    if i < j { lemma_boff_mono(s, i, j - 1); }
}
proof fn lemma_take_contains(s: Seq<char>, i: int, c: char)
    requires 0 <= i < s.len(), !s.take(i).contains(c), s[i] != c,
    ensures !s.take(i + 1).contains(c), i + 1 == s.len() ==> !s.contains(c),
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    lemma_contains_push(s.take(i), s[i], c);
    if i + 1 == s.len() { assert(s.take(i + 1) =~= s); }
}
proof fn lemma_skip_contains(s: Seq<char>, i: int, c: char)
    requires 0 <= i < s.len(), !s.skip(i + 1).contains(c), s[i] != c,
    ensures !s.skip(i).contains(c), i == 0 ==> !s.contains(c),
{
    let t = s.skip(i);
    if t.contains(c) { let k = choose|k: int| 0 <= k < t.len() && t[k] == c; if k > 0 { assert(s.skip(i + 1)[k - 1] == c); } }
    if i == 0 { assert(t =~= s); }
}
