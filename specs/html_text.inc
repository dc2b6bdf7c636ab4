// ---- escaping, as html_escape documents it, and how an HTML parser reads it back ------------------------------------------
pub open spec fn esc_char(c: char, slash: bool) -> Seq<char> {
    if c == '&' { seq!['&', 'a', 'm', 'p', ';'] }
    else if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] }
    else if c == '\'' { seq!['&', '#', 'x', '2', '7', ';'] }
    else if c == '/' && slash { seq!['&', '#', 'x', '2', 'F', ';'] }
    else { seq![c] }
}
// encode_safe (slash) and encode_quoted_attribute
pub open spec fn esc(s: Seq<char>, slash: bool) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { esc_char(s[0], slash) + esc(s.skip(1), slash) }
}
pub open spec fn pre(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
// the character references of the text decoded
pub open spec fn unesc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if s[0] != '&' { seq![s[0]] + unesc(s.skip(1)) }
    else if pre(s, esc_char('&', true)) { seq!['&'] + unesc(s.skip(5)) }
    else if pre(s, esc_char('<', true)) { seq!['<'] + unesc(s.skip(4)) }
    else if pre(s, esc_char('>', true)) { seq!['>'] + unesc(s.skip(4)) }
    else if pre(s, esc_char('"', true)) { seq!['"'] + unesc(s.skip(6)) }
    else if pre(s, esc_char('\'', true)) { seq!['\''] + unesc(s.skip(6)) }
    else if pre(s, esc_char('/', true)) { seq!['/'] + unesc(s.skip(6)) }
    else { seq!['&'] + unesc(s.skip(1)) }
}
proof fn lemma_esc_char(c: char, slash: bool, r: Seq<char>)
    ensures unesc(esc_char(c, slash) + r) == seq![c] + unesc(r),
{
    let e = esc_char(c, slash);
    let s = e + r;
    assert(s.skip(e.len() as int) =~= r);
    assert(s.take(e.len() as int) =~= e);
    if e == seq![c] && c != '&' {
        assert(s[0] == e[0]);
    } else {
        assert(s[0] == '&');
        assert(s[1] == e[1] && s[2] == e[2] && s[3] == e[3]);
        let p = |x: char| pre(s, esc_char(x, true));
        if c != '&' { assert(!pre(s, esc_char('&', true))) by { if pre(s, esc_char('&', true)) { assert(s.take(5)[1] == 'a'); assert(s.take(5)[2] == 'm'); } } }
        if c != '<' { assert(!pre(s, esc_char('<', true))) by { if pre(s, esc_char('<', true)) { assert(s.take(4)[1] == 'l'); } } }
        if c != '>' { assert(!pre(s, esc_char('>', true))) by { if pre(s, esc_char('>', true)) { assert(s.take(4)[1] == 'g'); } } }
        if c != '"' { assert(!pre(s, esc_char('"', true))) by { if pre(s, esc_char('"', true)) { assert(s.take(6)[1] == 'q'); } } }
        if c == '/' { assert(!pre(s, esc_char('\'', true))) by { if pre(s, esc_char('\'', true)) { assert(s.take(6)[4] == '7'); assert(s[4] == e[4]); } } }
    }
}
proof fn lemma_unesc(s: Seq<char>, slash: bool)
    ensures unesc(esc(s, slash)) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_unesc(s.skip(1), slash);
        lemma_esc_char(s[0], slash, esc(s.skip(1), slash));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
pub open spec fn none_of(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
// escaped text cannot open a tag, and an escaped attribute value cannot end its quotes
proof fn lemma_esc_none(s: Seq<char>, slash: bool)
    ensures none_of(esc(s, slash), '<'), none_of(esc(s, slash), '"'), none_of(esc(s, slash), '>'),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_esc_none(s.skip(1), slash);
        let a = esc_char(s[0], slash);
        let b = esc(s.skip(1), slash);
        assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != '<' && (a + b)[i] != '"' && (a + b)[i] != '>' by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
}
proof fn lemma_esc_add(a: Seq<char>, b: Seq<char>, slash: bool)
    ensures esc(a + b, slash) == esc(a, slash) + esc(b, slash),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(esc(a, slash) + esc(b, slash) =~= esc(b, slash));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_esc_add(a.skip(1), b, slash);
        assert(esc_char(a[0], slash) + (esc(a.skip(1), slash) + esc(b, slash)) =~= (esc_char(a[0], slash) + esc(a.skip(1), slash)) + esc(b, slash));
    }
}
pub open spec fn plain_char(c: char) -> bool { c != '&' && c != '<' && c != '>' && c != '"' && c != '\'' && c != '/' }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_char(#[trigger] s[i]) }
proof fn lemma_plain(s: Seq<char>, slash: bool)
    requires plain(s),
    ensures esc(s, slash) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(plain_char(s[0]));
        assert forall|i: int| 0 <= i < s.skip(1).len() implies plain_char(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_plain(s.skip(1), slash);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
pub open spec fn ws_char(c: char) -> bool { c == ' ' || c == '\n' }
pub open spec fn ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ws_char(#[trigger] s[i]) }

// ---- served text as a sequence of pieces ---------------------------------------------------------------------------------
pub type Attrs = Seq<(Seq<char>, Seq<char>)>;
pub enum P {
    Open { name: Seq<char>, attrs: Attrs, void: bool },
    Close(Seq<char>),
    Txt(Seq<char>),
    Raw(Seq<char>),
    Com(Seq<char>),
}
pub open spec fn enc_attr(a: (Seq<char>, Seq<char>)) -> Seq<char> {
    seq![' '] + esc(a.0, true) + seq!['=', '"'] + esc(a.1, false) + seq!['"']
}
pub open spec fn enc_attrs(a: Attrs) -> Seq<char>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else { enc_attrs(a.drop_last()) + enc_attr(a.last()) }
}
pub open spec fn tag_end(void: bool) -> Seq<char> { if void { seq![' ', '/', '>'] } else { seq!['>'] } }
pub open spec fn enc(p: P) -> Seq<char> {
    match p {
        P::Open { name, attrs, void } => seq!['<'] + esc(name, true) + enc_attrs(attrs) + tag_end(void),
        P::Close(name) => seq!['<', '/'] + esc(name, true) + seq!['>'],
        P::Txt(t) => esc(t, true),
        P::Raw(t) => t,
        P::Com(t) => seq!['<', '!', '-', '-'] + esc(t, true) + seq!['-', '-', '>'],
    }
}
pub open spec fn enc_all(ps: Seq<P>) -> Seq<char>
    decreases ps.len(),
{
    if ps.len() == 0 { Seq::empty() } else { enc(ps[0]) + enc_all(ps.skip(1)) }
}
proof fn lemma_enc_add(a: Seq<P>, b: Seq<P>)
    ensures enc_all(a + b) == enc_all(a) + enc_all(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(enc_all(a) + enc_all(b) =~= enc_all(b));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_enc_add(a.skip(1), b);
        assert(enc(a[0]) + (enc_all(a.skip(1)) + enc_all(b)) =~= (enc(a[0]) + enc_all(a.skip(1))) + enc_all(b));
    }
}
proof fn lemma_enc_one(p: P)
    ensures enc_all(seq![p]) == enc(p),
{
    assert(seq![p].skip(1) =~= Seq::<P>::empty());
    assert(enc_all(seq![p].skip(1)) =~= Seq::<char>::empty());
    assert(enc_all(seq![p]) =~= enc(p));
}

// ---- an HTML parser: text to tokens ----------------------------------------------------------------------------------------
pub enum Tok { Open { name: Seq<char>, attrs: Attrs, void: bool }, Close(Seq<char>), Txt(Seq<char>), Bad }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
// elements whose content is raw text
pub open spec fn is_raw(name: Seq<char>) -> bool { lower(name) == "script"@ || lower(name) == "style"@ }
pub open spec fn letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }

pub open spec fn idx(s: Seq<char>, f: spec_fn(char) -> bool) -> int
    decreases s.len(),
{
    if s.len() == 0 || f(s[0]) { 0 } else { 1 + idx(s.skip(1), f) }
}
proof fn lemma_idx_bound(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures 0 <= idx(s, f) <= s.len(),
    decreases s.len(),
{
    if s.len() == 0 || f(s[0]) {} else { lemma_idx_bound(s.skip(1), f); }
}
proof fn lemma_idx(a: Seq<char>, b: Seq<char>, f: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> !f(#[trigger] a[i]), b.len() == 0 || f(b[0]),
    ensures idx(a + b, f) == a.len(),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        assert((a + b)[0] == a[0]);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert forall|i: int| 0 <= i < a.skip(1).len() implies !f(#[trigger] a.skip(1)[i]) by { assert(a.skip(1)[i] == a[i + 1]); }
        lemma_idx(a.skip(1), b, f);
    }
}
pub open spec fn eqc(c: char) -> spec_fn(char) -> bool { |x: char| x == c }
pub open spec fn name_end() -> spec_fn(char) -> bool { |x: char| x == ' ' || x == '>' }

// the rest of a start tag: its attributes, whether it closes itself, and how long it is
#[verifier::opaque]
pub open spec fn read_attrs(s: Seq<char>) -> Option<(Attrs, bool, int)>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] == '>' { Some((Seq::empty(), false, 1)) }
    else if pre(s, tag_end(true)) { Some((Seq::empty(), true, 3)) }
    else if s[0] != ' ' { None }
    else {
        let r = s.skip(1);
        let n = idx(r, eqc('='));
        if n <= 0 || n + 1 >= r.len() || r[n + 1] != '"' { None } else {
            let v = r.skip(n + 2);
            let m = idx(v, eqc('"'));
            if m < 0 || m >= v.len() { None } else {
                match read_attrs(v.skip(m + 1)) {
                    Some((a, void, k)) => Some((seq![(r.take(n), unesc(v.take(m)))] + a, void, k + n + m + 4)),
                    None => None,
                }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn tok(s: Seq<char>, raw: bool) -> Seq<Tok>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '<' {
        if s.len() > 1 && s[1] == '/' {
            let n = idx(s.skip(2), eqc('>'));
            if n < 0 || n + 2 >= s.len() { seq![Tok::Bad] } else { seq![Tok::Close(s.subrange(2, 2 + n))] + tok(s.skip(3 + n), false) }
        } else if raw { seq![Tok::Bad] }
        else {
            let r = s.skip(1);
            let n = idx(r, name_end());
            if n <= 0 || n >= r.len() || !letter(r[0]) { seq![Tok::Bad] } else {
                match read_attrs(r.skip(n)) {
                    Some((attrs, void, k)) =>
                        if k <= 0 || n + k > r.len() { seq![Tok::Bad] }
                        else { seq![Tok::Open { name: r.take(n), attrs, void }] + tok(r.skip(n + k), !void && is_raw(r.take(n))) },
                    None => seq![Tok::Bad],
                }
            }
        }
    } else {
        let n = idx(s, eqc('<'));
        if n <= 0 || n > s.len() { seq![Tok::Bad] } else {
            seq![Tok::Txt(if raw { s.take(n) } else { unesc(s.take(n)) })] + tok(s.skip(n), raw)
        }
    }
}

// ---- pieces whose text is read back as those pieces --------------------------------------------------------------------------
pub open spec fn name_char(c: char) -> bool { plain_char(c) && c != ' ' && c != '=' }
pub open spec fn okname(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> name_char(#[trigger] s[i]) }
pub open spec fn okattrs(a: Attrs) -> bool { forall|i: int| 0 <= i < a.len() ==> okname((#[trigger] a[i]).0) }
pub open spec fn wfp(ps: Seq<P>, raw: bool) -> bool
    decreases ps.len(),
{
    if ps.len() == 0 { true } else {
        let r = ps.skip(1);
        match ps[0] {
            P::Open { name, attrs, void } => !raw && okname(name) && letter(name[0]) && okattrs(attrs) && wfp(r, !void && is_raw(name)),
            P::Close(name) => okname(name) && wfp(r, false),
            P::Txt(t) => (raw ==> ws(t)) && wfp(r, raw),
            P::Raw(t) => raw && none_of(t, '<') && wfp(r, raw),
            P::Com(_) => false,
        }
    }
}
pub open spec fn is_text(p: P) -> bool { p is Txt || p is Raw }
pub open spec fn text_of(p: P) -> Seq<char> { match p { P::Txt(t) => t, P::Raw(t) => t, _ => Seq::empty() } }
pub open spec fn flush(acc: Seq<char>) -> Seq<Tok> { if acc.len() == 0 { Seq::empty() } else { seq![Tok::Txt(acc)] } }
// the tokens of the pieces: neighbouring texts are one text, and there is no empty text
pub open spec fn tokens(ps: Seq<P>, acc: Seq<char>) -> Seq<Tok>
    decreases ps.len(),
{
    if ps.len() == 0 { flush(acc) } else {
        let r = ps.skip(1);
        match ps[0] {
            P::Open { name, attrs, void } => flush(acc) + seq![Tok::Open { name, attrs, void }] + tokens(r, Seq::empty()),
            P::Close(name) => flush(acc) + seq![Tok::Close(name)] + tokens(r, Seq::empty()),
            P::Txt(t) => tokens(r, acc + t),
            P::Raw(t) => tokens(r, acc + t),
            P::Com(_) => tokens(r, acc),
        }
    }
}
// what the accumulated text looks like in the served text
pub open spec fn shown(acc: Seq<char>, raw: bool) -> Seq<char> { if raw { acc } else { esc(acc, true) } }

proof fn lemma_read_step(s: Seq<char>, k: Seq<char>, q: Seq<char>, tail: Seq<char>)
    requires
        s.len() > 1, s[0] == ' ', s[1] != '/',
        idx(s.skip(1), eqc('=')) == k.len(), 0 < k.len(), k.len() + 1 < s.skip(1).len(), s.skip(1)[k.len() as int + 1] == '"',
        s.skip(1).take(k.len() as int) == k,
        idx(s.skip(1).skip(k.len() as int + 2), eqc('"')) == q.len(), q.len() < s.skip(1).skip(k.len() as int + 2).len(),
        s.skip(1).skip(k.len() as int + 2).take(q.len() as int) == q,
        s.skip(1).skip(k.len() as int + 2).skip(q.len() as int + 1) == tail,
    ensures
        read_attrs(s) == match read_attrs(tail) {
            Some((b, void, n)) => Some((seq![(k, unesc(q))] + b, void, n + k.len() + q.len() + 4)),
            None => None,
        },
{
    reveal(read_attrs);
    assert(!pre(s, tag_end(true))) by { if pre(s, tag_end(true)) { assert(s.take(3)[1] == '/'); } }
}
// one attribute in front of the rest of the tag
proof fn lemma_attr_step(k: Seq<char>, v: Seq<char>, tail: Seq<char>)
    requires okname(k),
    ensures
        read_attrs(enc_attr((k, v)) + tail) == match read_attrs(tail) {
            Some((b, void, n)) => Some((seq![(k, v)] + b, void, n + enc_attr((k, v)).len())),
            None => None,
        },
{
    let q = esc(v, false);
    let w2 = seq!['"'] + tail;
    let w = q + w2;
    let r2 = seq!['=', '"'] + w;
    let r = k + r2;
    let s = enc_attr((k, v)) + tail;
    lemma_okname(k);
    lemma_unesc(v, false);
    lemma_esc_none(v, false);
    assert(s =~= seq![' '] + r);
    assert(s[0] == ' ');
    assert(s[1] == r[0]);
    assert(r[0] == k[0]);
    assert(name_char(k[0]));
    assert(s.skip(1) =~= r);
    assert forall|i: int| 0 <= i < k.len() implies !eqc('=')(#[trigger] k[i]) by { assert(name_char(k[i])); }
    assert(r2[0] == '=');
    lemma_idx(k, r2, eqc('='));
    let n = k.len() as int;
    assert(r[n + 1] == r2[1]);
    assert(r2[1] == '"');
    assert(r.skip(n + 2) =~= w);
    assert(w2[0] == '"');
    assert forall|i: int| 0 <= i < q.len() implies !eqc('"')(#[trigger] q[i]) by {}
    lemma_idx(q, w2, eqc('"'));
    let m = q.len() as int;
    assert(w.skip(m + 1) =~= tail);
    assert(r.take(n) =~= k);
    assert(w.take(m) =~= q);
    assert(enc_attr((k, v)).len() == n + m + 4);
    lemma_read_step(s, k, q, tail);
}
proof fn lemma_attrs(a: Attrs, void: bool, rest: Seq<char>)
    requires okattrs(a),
    ensures read_attrs(enc_attrs_front(a) + tag_end(void) + rest) == Some((a, void, enc_attrs_front(a).len() as int + tag_end(void).len())),
    decreases a.len(),
{
    let s = enc_attrs_front(a) + tag_end(void) + rest;
    if a.len() == 0 {
        reveal(read_attrs);
        assert(s =~= tag_end(void) + rest);
        assert(s[0] == tag_end(void)[0]);
        if void {
            assert(s.take(3) =~= tag_end(true));
        }
        assert(a =~= Seq::empty());
    } else {
        let b = a.skip(1);
        assert forall|i: int| 0 <= i < b.len() implies okname((#[trigger] b[i]).0) by { assert(b[i] == a[i + 1]); }
        let tail = enc_attrs_front(b) + tag_end(void) + rest;
        lemma_attrs(b, void, rest);
        assert(okname(a[0].0));
        lemma_attr_step(a[0].0, a[0].1, tail);
        assert(s =~= enc_attr(a[0]) + tail);
        assert(seq![a[0]] + b =~= a);
    }
}
pub open spec fn enc_attrs_front(a: Attrs) -> Seq<char>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else { enc_attr(a[0]) + enc_attrs_front(a.skip(1)) }
}
proof fn lemma_front_push(a: Attrs, x: (Seq<char>, Seq<char>))
    ensures enc_attrs_front(a.push(x)) == enc_attrs_front(a) + enc_attr(x),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a.push(x).skip(1) =~= Seq::empty());
        assert(enc_attrs_front(a.push(x).skip(1)) =~= Seq::<char>::empty());
        assert(enc_attrs_front(a.push(x)) =~= enc_attrs_front(a) + enc_attr(x));
    } else {
        assert(a.push(x).skip(1) =~= a.skip(1).push(x));
        lemma_front_push(a.skip(1), x);
        assert(enc_attr(a[0]) + (enc_attrs_front(a.skip(1)) + enc_attr(x)) =~= (enc_attr(a[0]) + enc_attrs_front(a.skip(1))) + enc_attr(x));
    }
}
proof fn lemma_front(a: Attrs)
    ensures enc_attrs(a) == enc_attrs_front(a),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_front(a.drop_last());
        lemma_front_push(a.drop_last(), a.last());
        assert(a.drop_last().push(a.last()) =~= a);
    }
}
proof fn lemma_okname(s: Seq<char>)
    requires okname(s),
    ensures esc(s, true) == s,
{
    assert forall|i: int| 0 <= i < s.len() implies plain_char(#[trigger] s[i]) by { assert(name_char(s[i])); }
    lemma_plain(s, true);
}
proof fn lemma_ws(s: Seq<char>)
    requires ws(s),
    ensures esc(s, true) == s, none_of(s, '<'),
{
    assert forall|i: int| 0 <= i < s.len() implies plain_char(#[trigger] s[i]) by { assert(ws_char(s[i])); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '<' by { assert(ws_char(s[i])); }
    lemma_plain(s, true);
}
// a text in front of a tag (or the end) is read as that text
proof fn lemma_text(acc: Seq<char>, b: Seq<char>, raw: bool)
    requires b.len() == 0 || b[0] == '<', raw ==> none_of(acc, '<'),
    ensures tok(shown(acc, raw) + b, raw) == flush(acc) + tok(b, raw),
{
    reveal(tok);
    let a = shown(acc, raw);
    let s = a + b;
    if !raw { lemma_unesc(acc, true); lemma_esc_none(acc, true); }
    if acc.len() == 0 {
        assert(s =~= b);
        assert(flush(acc) + tok(b, raw) =~= tok(b, raw));
    } else {
        assert(a.len() > 0) by { if !raw { assert(unesc(Seq::<char>::empty()) =~= Seq::<char>::empty()); if a.len() == 0 { assert(a =~= Seq::empty()); } } }
        assert(s[0] == a[0]);
        assert forall|i: int| 0 <= i < a.len() implies !eqc('<')(#[trigger] a[i]) by {}
        lemma_idx(a, b, eqc('<'));
        assert(s.take(a.len() as int) =~= a);
        assert(s.skip(a.len() as int) =~= b);
    }
}
proof fn lemma_tok_close(name: Seq<char>, er: Seq<char>, raw: bool)
    requires okname(name),
    ensures
        tok(enc(P::Close(name)) + er, raw) == seq![Tok::Close(name)] + tok(er, false),
        (enc(P::Close(name)) + er)[0] == '<',
{
    reveal(tok);
    let e = enc(P::Close(name)) + er;
    lemma_okname(name);
    let b = seq!['>'] + er;
    assert(e =~= seq!['<', '/'] + (name + b));
    assert(e[0] == '<' && e[1] == '/');
    assert(e.skip(2) =~= name + b);
    assert forall|i: int| 0 <= i < name.len() implies !eqc('>')(#[trigger] name[i]) by { assert(name_char(name[i])); }
    assert(b[0] == '>');
    lemma_idx(name, b, eqc('>'));
    let n = name.len() as int;
    assert(e.subrange(2, 2 + n) =~= name);
    assert(e.skip(3 + n) =~= er);
}
proof fn lemma_tok_open(name: Seq<char>, attrs: Attrs, void: bool, er: Seq<char>)
    requires okname(name), letter(name[0]), okattrs(attrs),
    ensures
        tok(enc(P::Open { name, attrs, void }) + er, false) == seq![Tok::Open { name, attrs, void }] + tok(er, !void && is_raw(name)),
        (enc(P::Open { name, attrs, void }) + er)[0] == '<',
{
    let e = enc(P::Open { name, attrs, void }) + er;
    lemma_okname(name);
    lemma_front(attrs);
    let af = enc_attrs_front(attrs);
    let at = af + tag_end(void) + er;
    let x = name + at;
    assert(e =~= seq!['<'] + x);
    lemma_attrs(attrs, void, er);
    lemma_at(attrs, void, er);
    let k = af.len() as int + tag_end(void).len();
    assert(at.skip(k) =~= er);
    assert(at.len() >= k);
    lemma_tok_name(name, at, attrs, void, k, er);
}
proof fn lemma_at(attrs: Attrs, void: bool, er: Seq<char>)
    ensures name_end()((enc_attrs_front(attrs) + tag_end(void) + er)[0]),
{
    let af = enc_attrs_front(attrs);
    let at = af + tag_end(void) + er;
    if attrs.len() == 0 { assert(at =~= tag_end(void) + er); assert(at[0] == tag_end(void)[0]); }
    else { assert(at[0] == af[0]); assert(af[0] == enc_attr(attrs[0])[0]); assert(enc_attr(attrs[0])[0] == ' '); }
}
proof fn lemma_tok_name(name: Seq<char>, at: Seq<char>, attrs: Attrs, void: bool, k: int, er: Seq<char>)
    requires okname(name), letter(name[0]), at.len() >= k > 0, name_end()(at[0]), read_attrs(at) == Some((attrs, void, k)), at.skip(k) == er,
    ensures
        tok(seq!['<'] + (name + at), false) == seq![Tok::Open { name, attrs, void }] + tok(er, !void && is_raw(name)),
        (seq!['<'] + (name + at))[0] == '<',
{
    reveal(tok);
    let x = name + at;
    let e = seq!['<'] + x;
    assert(e[0] == '<' && e[1] == x[0] && x[0] == name[0]);
    assert(name_char(name[0]));
    assert(e.skip(1) =~= x);
    assert forall|i: int| 0 <= i < name.len() implies !name_end()(#[trigger] name[i]) by { assert(name_char(name[i])); }
    lemma_idx(name, at, name_end());
    let n = name.len() as int;
    assert(x.take(n) =~= name);
    assert(x.skip(n) =~= at);
    assert(x.skip(n + k) =~= at.skip(k));
}
// every well-formed sequence of pieces is read back as its tokens
proof fn lemma_tok(ps: Seq<P>, acc: Seq<char>, raw: bool)
    requires wfp(ps, raw), raw ==> none_of(acc, '<'),
    ensures tok(shown(acc, raw) + enc_all(ps), raw) == tokens(ps, acc),
    decreases ps.len(),
{
    let e = enc_all(ps);
    let a = shown(acc, raw);
    if ps.len() == 0 {
        lemma_text(acc, e, raw);
        assert(tok(e, raw) =~= Seq::empty()) by { reveal(tok); }
        assert(flush(acc) + tok(e, raw) =~= flush(acc));
    } else {
        let r = ps.skip(1);
        let er = enc_all(r);
        let none = Seq::<char>::empty();
        match ps[0] {
            P::Txt(t) => {
                if raw { lemma_ws(t); } else { lemma_esc_add(acc, t, true); }
                assert(a + (enc(ps[0]) + er) =~= shown(acc + t, raw) + er);
                lemma_tok(r, acc + t, raw);
            }
            P::Raw(t) => {
                assert(a + (enc(ps[0]) + er) =~= shown(acc + t, raw) + er);
                assert(none_of(acc + t, '<'));
                lemma_tok(r, acc + t, raw);
            }
            P::Close(name) => {
                lemma_tok_close(name, er, raw);
                lemma_text(acc, e, raw);
                lemma_tok(r, none, false);
                assert(shown(none, false) + er =~= er);
                assert(flush(acc) + (seq![Tok::Close(name)] + tok(er, false)) =~= flush(acc) + seq![Tok::Close(name)] + tok(er, false));
            }
            P::Open { name, attrs, void } => {
                let rw = !void && is_raw(name);
                lemma_tok_open(name, attrs, void, er);
                lemma_text(acc, e, raw);
                lemma_tok(r, none, rw);
                assert(shown(none, rw) + er =~= er);
                let t = seq![Tok::Open { name, attrs, void }];
                assert(flush(acc) + (t + tok(er, rw)) =~= flush(acc) + t + tok(er, rw));
            }
            P::Com(_) => {}
        }
    }
}
