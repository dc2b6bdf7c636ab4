// ---- trees, the lines served for them, and what a parser is meant to read --------------------------------------------------
pub enum N {
    El { name: Seq<char>, attrs: Attrs, kids: Seq<N> },
    Tx(Seq<char>),
    Co(Seq<char>),
}
pub open spec fn is_void(n: Seq<char>) -> bool {
    n == "area"@ || n == "base"@ || n == "br"@ || n == "col"@ || n == "embed"@ || n == "hr"@ || n == "img"@ || n == "input"@
        || n == "link"@ || n == "meta"@ || n == "param"@ || n == "source"@ || n == "track"@ || n == "wbr"@
}
pub open spec fn or_none(acc: Option<Seq<char>>) -> Seq<char> { match acc { Some(t) => t, None => Seq::empty() } }
pub open spec fn flush_n(acc: Option<Seq<char>>) -> Seq<N> { match acc { Some(t) => seq![N::Tx(t)], None => Seq::empty() } }
// neighbouring texts joined, comments dropped
pub open spec fn mg(kids: Seq<N>, acc: Option<Seq<char>>) -> Seq<N>
    decreases kids.len(),
{
    if kids.len() == 0 { flush_n(acc) } else {
        match kids[0] {
            N::Tx(t) => mg(kids.skip(1), Some(or_none(acc) + t)),
            N::Co(_) => mg(kids.skip(1), acc),
            N::El { .. } => flush_n(acc) + seq![kids[0]] + mg(kids.skip(1), None),
        }
    }
}
pub open spec fn one_text(m: Seq<N>) -> bool { m.len() == 1 && m[0] is Tx }
pub open spec fn spaces(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn pad(id: Option<nat>) -> P { P::Txt(match id { Some(n) => spaces(n), None => Seq::empty() }) }
pub open spec fn deeper(id: Option<nat>) -> Option<nat> { match id { Some(n) => Some(n + 2), None => None } }
pub open spec fn content(name: Seq<char>, t: Seq<char>) -> P { if is_raw(name) { P::Raw(t) } else { P::Txt(t) } }
pub open spec fn flush_l(acc: Option<Seq<char>>, id: Option<nat>) -> Seq<Seq<P>> {
    match acc { Some(t) => seq![seq![pad(id), P::Txt(t)]], None => Seq::empty() }
}
// the lines the server writes for a node
pub open spec fn lines(n: N, id: Option<nat>) -> Seq<Seq<P>>
    decreases n, 0int,
{
    match n {
        N::Tx(t) => seq![seq![pad(id), P::Txt(t)]],
        N::Co(t) => seq![seq![pad(id), P::Com(t)]],
        N::El { name, attrs, kids } =>
            if is_void(name) { seq![seq![pad(id), P::Open { name, attrs, void: true }]] }
            else {
                let m = mg(kids, None);
                let open = P::Open { name, attrs, void: false };
                if one_text(m) { seq![seq![pad(id), open, content(name, m[0]->Tx_0), P::Close(name)]] }
                else { seq![seq![pad(id), open]] + lk(kids, None, deeper(id)) + seq![seq![pad(id), P::Close(name)]] }
            },
    }
}
pub open spec fn lk(kids: Seq<N>, acc: Option<Seq<char>>, id: Option<nat>) -> Seq<Seq<P>>
    decreases kids, 1int, kids.len(),
{
    if kids.len() == 0 { flush_l(acc, id) } else {
        match kids[0] {
            N::Tx(t) => lk(kids.skip(1), Some(or_none(acc) + t), id),
            N::Co(_) => lk(kids.skip(1), acc, id),
            N::El { .. } => flush_l(acc, id) + lines(kids[0], id) + lk(kids.skip(1), None, id),
        }
    }
}
// what a parser is meant to read: the tree itself, in document order
pub open spec fn p2(n: N) -> Seq<P>
    decreases n, 0int,
{
    match n {
        N::Tx(t) => seq![P::Txt(t)],
        N::Co(_) => Seq::empty(),
        N::El { name, attrs, kids } =>
            if is_void(name) { seq![P::Open { name, attrs, void: true }] }
            else { seq![P::Open { name, attrs, void: false }] + p2k(kids) + seq![P::Close(name)] },
    }
}
pub open spec fn p2k(kids: Seq<N>) -> Seq<P>
    decreases kids, 1int, kids.len(),
{
    if kids.len() == 0 { Seq::empty() } else { p2(kids[0]) + p2k(kids.skip(1)) }
}
// the lines of several nodes one after another
pub open spec fn ml(m: Seq<N>, id: Option<nat>) -> Seq<Seq<P>>
    decreases m.len(),
{
    if m.len() == 0 { Seq::empty() } else { ml(m.drop_last(), id) + lines(m.last(), id) }
}
proof fn lemma_ml_add(a: Seq<N>, b: Seq<N>, id: Option<nat>)
    ensures ml(a + b, id) == ml(a, id) + ml(b, id),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(ml(a, id) + ml(b, id) =~= ml(a, id));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ml_add(a, b.drop_last(), id);
        assert(ml(a, id) + (ml(b.drop_last(), id) + lines(b.last(), id)) =~= (ml(a, id) + ml(b.drop_last(), id)) + lines(b.last(), id));
    }
}
proof fn lemma_ml_one(n: N, id: Option<nat>)
    ensures ml(seq![n], id) == lines(n, id),
{
    assert(seq![n].drop_last() =~= Seq::<N>::empty());
    assert(ml(seq![n].drop_last(), id) =~= Seq::<Seq<P>>::empty());
    assert(ml(seq![n], id) =~= lines(n, id));
}
proof fn lemma_mg_lines(kids: Seq<N>, acc: Option<Seq<char>>, id: Option<nat>)
    ensures ml(mg(kids, acc), id) == lk(kids, acc, id),
    decreases kids.len(),
{
    let f = flush_n(acc);
    assert(ml(f, id) == flush_l(acc, id)) by {
        if acc is Some { lemma_ml_one(N::Tx(acc->0), id); } else { assert(ml(f, id) =~= flush_l(acc, id)); }
    }
    if kids.len() > 0 {
        let r = kids.skip(1);
        match kids[0] {
            N::Tx(t) => { lemma_mg_lines(r, Some(or_none(acc) + t), id); }
            N::Co(_) => { lemma_mg_lines(r, acc, id); }
            N::El { .. } => {
                lemma_mg_lines(r, None, id);
                lemma_ml_add(f + seq![kids[0]], mg(r, None), id);
                lemma_ml_add(f, seq![kids[0]], id);
                lemma_ml_one(kids[0], id);
            }
        }
    }
}
// an element among the joined children is one of the children
proof fn lemma_mg_in(kids: Seq<N>, acc: Option<Seq<char>>, i: int)
    requires 0 <= i < mg(kids, acc).len(), mg(kids, acc)[i] is El,
    ensures kids.contains(mg(kids, acc)[i]),
    decreases kids.len(),
{
    let f = flush_n(acc);
    let x = mg(kids, acc)[i];
    if kids.len() > 0 {
        let r = kids.skip(1);
        match kids[0] {
            N::Tx(t) => { lemma_mg_in(r, Some(or_none(acc) + t), i); let j = r.index_of(x); assert(kids[j + 1] == x); }
            N::Co(_) => { lemma_mg_in(r, acc, i); let j = r.index_of(x); assert(kids[j + 1] == x); }
            N::El { .. } => {
                if i == f.len() { assert(x == kids[0]); }
                else if i > f.len() {
                    assert(x == mg(r, None)[i - f.len() - 1]);
                    lemma_mg_in(r, None, i - f.len() - 1);
                    let j = r.index_of(x); assert(kids[j + 1] == x);
                }
            }
        }
    }
}
// the joined children seen from the back, as they are collected
pub open spec fn mgb(done: Seq<N>) -> (Seq<N>, Option<Seq<char>>)
    decreases done.len(),
{
    if done.len() == 0 { (Seq::empty(), None) } else {
        let (m, acc) = mgb(done.drop_last());
        match done.last() {
            N::Tx(t) => (m, Some(or_none(acc) + t)),
            N::Co(_) => (m, acc),
            N::El { .. } => (m + flush_n(acc) + seq![done.last()], None),
        }
    }
}
proof fn lemma_mgb(done: Seq<N>, rest: Seq<N>)
    ensures mgb(done).0 + mg(rest, mgb(done).1) == mg(done + rest, None),
    decreases done.len(),
{
    if done.len() == 0 {
        assert(done + rest =~= rest);
        assert(Seq::<N>::empty() + mg(rest, None) =~= mg(rest, None));
    } else {
        let d = done.drop_last();
        let x = done.last();
        let r = seq![x] + rest;
        let (m, acc) = mgb(d);
        assert(d + r =~= done + rest);
        assert(r.skip(1) =~= rest);
        lemma_mgb(d, r);
        assert(r[0] == x);
        match x {
            N::El { .. } => {
                assert(m + (flush_n(acc) + seq![x] + mg(rest, None)) =~= (m + flush_n(acc) + seq![x]) + mg(rest, None));
            }
            _ => {}
        }
    }
}

// ---- the tokens, with the white space of indentation put aside -----------------------------------------------------------
pub open spec fn triml(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && ws_char(s[0]) { triml(s.skip(1)) } else { s }
}
pub open spec fn trimr(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && ws_char(s.last()) { trimr(s.drop_last()) } else { s }
}
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trimr(triml(s)) }
// what is left of a text: all of it, or (f) all but the white space at its ends
pub open spec fn cut(s: Seq<char>, f: bool) -> Seq<char> { if f { trim(s) } else { s } }
pub open spec fn tk(ps: Seq<P>, acc: Seq<char>, f: bool) -> Seq<Tok>
    decreases ps.len(),
{
    if ps.len() == 0 { flush(cut(acc, f)) } else {
        let r = ps.skip(1);
        match ps[0] {
            P::Open { name, attrs, void } => flush(cut(acc, f)) + (seq![Tok::Open { name, attrs, void }] + tk(r, Seq::empty(), f)),
            P::Close(name) => flush(cut(acc, f)) + (seq![Tok::Close(name)] + tk(r, Seq::empty(), f)),
            P::Txt(t) => tk(r, acc + t, f),
            P::Raw(t) => tk(r, acc + t, f),
            P::Com(_) => tk(r, acc, f),
        }
    }
}
pub open spec fn cut_tok(t: Tok, f: bool) -> Seq<Tok> {
    match t { Tok::Txt(s) => flush(cut(s, f)), _ => seq![t] }
}
// the tokens with every text cut, and empty texts left out
pub open spec fn cut_toks(ts: Seq<Tok>, f: bool) -> Seq<Tok>
    decreases ts.len(),
{
    if ts.len() == 0 { Seq::empty() } else { cut_tok(ts[0], f) + cut_toks(ts.skip(1), f) }
}
proof fn lemma_cut_add(a: Seq<Tok>, b: Seq<Tok>, f: bool)
    ensures cut_toks(a + b, f) == cut_toks(a, f) + cut_toks(b, f),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(cut_toks(a, f) + cut_toks(b, f) =~= cut_toks(b, f));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_cut_add(a.skip(1), b, f);
        assert(cut_tok(a[0], f) + (cut_toks(a.skip(1), f) + cut_toks(b, f)) =~= (cut_tok(a[0], f) + cut_toks(a.skip(1), f)) + cut_toks(b, f));
    }
}
proof fn lemma_cut_one(t: Tok, f: bool)
    ensures cut_toks(seq![t], f) == cut_tok(t, f),
{
    assert(seq![t].skip(1) =~= Seq::<Tok>::empty());
    assert(cut_toks(seq![t].skip(1), f) =~= Seq::<Tok>::empty());
    assert(cut_toks(seq![t], f) =~= cut_tok(t, f));
}
proof fn lemma_cut_flush(acc: Seq<char>, f: bool)
    ensures cut_toks(flush(acc), f) == flush(cut(acc, f)),
{
    if acc.len() == 0 {
        assert(cut(acc, f).len() == 0);
        assert(cut_toks(flush(acc), f) =~= flush(cut(acc, f)));
    } else {
        lemma_cut_one(Tok::Txt(acc), f);
    }
}
proof fn lemma_tk(ps: Seq<P>, acc: Seq<char>, f: bool)
    ensures cut_toks(tokens(ps, acc), f) == tk(ps, acc, f),
    decreases ps.len(),
{
    lemma_cut_flush(acc, f);
    if ps.len() > 0 {
        let r = ps.skip(1);
        match ps[0] {
            P::Txt(t) => { lemma_tk(r, acc + t, f); }
            P::Raw(t) => { lemma_tk(r, acc + t, f); }
            P::Com(_) => { lemma_tk(r, acc, f); }
            _ => {
                let t = match ps[0] { P::Open { name, attrs, void } => Tok::Open { name, attrs, void }, P::Close(name) => Tok::Close(name), _ => Tok::Bad };
                lemma_tk(r, Seq::empty(), f);
                lemma_cut_one(t, f);
                lemma_cut_add(flush(acc) + seq![t], tokens(r, Seq::empty()), f);
                lemma_cut_add(flush(acc), seq![t], f);
                assert((flush(cut(acc, f)) + seq![t]) + tk(r, Seq::empty(), f) =~= flush(cut(acc, f)) + (seq![t] + tk(r, Seq::empty(), f)));
            }
        }
    }
}
proof fn lemma_triml(w: Seq<char>, s: Seq<char>)
    requires ws(w),
    ensures triml(w + s) == triml(s),
    decreases w.len(),
{
    if w.len() == 0 {
        assert(w + s =~= s);
    } else {
        assert((w + s)[0] == w[0] && ws_char(w[0]));
        assert((w + s).skip(1) =~= w.skip(1) + s);
        assert forall|i: int| 0 <= i < w.skip(1).len() implies ws_char(#[trigger] w.skip(1)[i]) by { assert(w.skip(1)[i] == w[i + 1]); }
        lemma_triml(w.skip(1), s);
    }
}
proof fn lemma_trimr(s: Seq<char>, w: Seq<char>)
    requires ws(w),
    ensures trimr(s + w) == trimr(s),
    decreases w.len(),
{
    if w.len() == 0 {
        assert(s + w =~= s);
    } else {
        assert((s + w).last() == w.last() && ws_char(w[w.len() - 1]));
        assert((s + w).drop_last() =~= s + w.drop_last());
        assert forall|i: int| 0 <= i < w.drop_last().len() implies ws_char(#[trigger] w.drop_last()[i]) by { assert(w.drop_last()[i] == w[i]); }
        lemma_trimr(s, w.drop_last());
    }
}
proof fn lemma_triml_tail(s: Seq<char>, w: Seq<char>)
    requires ws(w),
    ensures triml(s + w) == triml(s) + w || (ws(s) && triml(s + w).len() == 0 && triml(s).len() == 0),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s + w =~= w);
        assert(w + Seq::<char>::empty() =~= w);
        lemma_triml(w, Seq::empty());
        assert(triml(Seq::<char>::empty()).len() == 0);
    } else if ws_char(s[0]) {
        assert((s + w)[0] == s[0]);
        assert((s + w).skip(1) =~= s.skip(1) + w);
        lemma_triml_tail(s.skip(1), w);
        if ws(s.skip(1)) {
            assert forall|i: int| 0 <= i < s.len() implies ws_char(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
        }
    } else {
        assert((s + w)[0] == s[0]);
    }
}
proof fn lemma_trim(v: Seq<char>, s: Seq<char>, w: Seq<char>)
    requires ws(v), ws(w),
    ensures trim(v + s + w) == trim(s),
{
    assert(v + s + w =~= v + (s + w));
    lemma_triml(v, s + w);
    lemma_triml_tail(s, w);
    if triml(s + w) == triml(s) + w { lemma_trimr(triml(s), w); }
}
// white space the reader puts aside
pub open spec fn soft(w: Seq<char>, f: bool) -> bool { ws(w) && (f || w.len() == 0) }
proof fn lemma_soft_add(v: Seq<char>, w: Seq<char>, f: bool)
    requires soft(v, f), soft(w, f),
    ensures soft(v + w, f),
{
    assert forall|i: int| 0 <= i < (v + w).len() implies ws_char(#[trigger] (v + w)[i]) by {
        if i < v.len() { assert((v + w)[i] == v[i]); } else { assert((v + w)[i] == w[i - v.len()]); }
    }
}
proof fn lemma_cut(v: Seq<char>, s: Seq<char>, w: Seq<char>, f: bool)
    requires soft(v, f), soft(w, f),
    ensures cut(v + s + w, f) == cut(s, f),
{
    if f { lemma_trim(v, s, w); } else { assert(v + s + w =~= s); }
}
pub open spec fn tag_first(ps: Seq<P>) -> bool { ps.len() == 0 || ps[0] is Open || ps[0] is Close }
proof fn lemma_tk_soft(ps: Seq<P>, v: Seq<char>, s: Seq<char>, w: Seq<char>, f: bool)
    requires tag_first(ps), soft(v, f), soft(w, f),
    ensures tk(ps, v + s + w, f) == tk(ps, s, f),
{
    lemma_cut(v, s, w, f);
}
// a tag separates: what follows it is read on its own
proof fn lemma_tk_tag(a: Seq<P>, x: Seq<P>, acc: Seq<char>, f: bool)
    requires a.len() > 0, a.last() is Open || a.last() is Close,
    ensures tk(a + x, acc, f) == tk(a, acc, f) + tk(x, Seq::empty(), f),
    decreases a.len(),
{
    let r = a.skip(1);
    assert((a + x).skip(1) =~= r + x);
    assert((a + x)[0] == a[0]);
    let none = Seq::<char>::empty();
    if a.len() == 1 {
        assert(r =~= Seq::empty());
        assert(r + x =~= x);
        assert(tk(r, none, f) =~= Seq::<Tok>::empty()) by { assert(cut(none, f) =~= none); }
        let t = match a[0] { P::Open { name, attrs, void } => Tok::Open { name, attrs, void }, P::Close(name) => Tok::Close(name), _ => Tok::Bad };
        assert(flush(cut(acc, f)) + (seq![t] + tk(x, none, f)) =~= flush(cut(acc, f)) + (seq![t] + tk(r, none, f)) + tk(x, none, f));
    } else {
        assert(r.last() == a.last());
        match a[0] {
            P::Txt(t) => { lemma_tk_tag(r, x, acc + t, f); }
            P::Raw(t) => { lemma_tk_tag(r, x, acc + t, f); }
            P::Com(_) => { lemma_tk_tag(r, x, acc, f); }
            _ => {
                lemma_tk_tag(r, x, none, f);
                let t = match a[0] { P::Open { name, attrs, void } => Tok::Open { name, attrs, void }, P::Close(name) => Tok::Close(name), _ => Tok::Bad };
                assert(flush(cut(acc, f)) + (seq![t] + (tk(r, none, f) + tk(x, none, f))) =~= flush(cut(acc, f)) + (seq![t] + tk(r, none, f)) + tk(x, none, f));
            }
        }
    }
}

// ---- the served lines mean the tree ------------------------------------------------------------------------------------------
pub open spec fn nl(f: bool) -> P { P::Txt(if f { seq!['\n'] } else { Seq::empty() }) }
// the pieces of the lines; indented, each line begins with a line break
pub open spec fn flat(ls: Seq<Seq<P>>, f: bool) -> Seq<P>
    decreases ls.len(),
{
    if ls.len() == 0 { Seq::empty() } else { flat(ls.drop_last(), f) + (seq![nl(f)] + ls.last()) }
}
proof fn lemma_flat_add(a: Seq<Seq<P>>, b: Seq<Seq<P>>, f: bool)
    ensures flat(a + b, f) == flat(a, f) + flat(b, f),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(flat(a, f) + flat(b, f) =~= flat(a, f));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_flat_add(a, b.drop_last(), f);
        let z = seq![nl(f)] + b.last();
        assert(flat(a, f) + (flat(b.drop_last(), f) + z) =~= (flat(a, f) + flat(b.drop_last(), f)) + z);
    }
}
proof fn lemma_flat_one(l: Seq<P>, f: bool)
    ensures flat(seq![l], f) == seq![nl(f)] + l,
{
    assert(seq![l].drop_last() =~= Seq::<Seq<P>>::empty());
    assert(flat(seq![l].drop_last(), f) =~= Seq::<P>::empty());
    assert(flat(seq![l], f) =~= seq![nl(f)] + l);
}
pub open spec fn raw_ok(kids: Seq<N>) -> bool {
    let m = mg(kids, None);
    m.len() == 0 || one_text(m) && none_of(m[0]->Tx_0, '<')
}
// trees that HTML text can express
pub open spec fn wfn(n: N) -> bool
    decreases n, 0int,
{
    match n {
        N::Tx(_) => true,
        N::Co(_) => true,
        N::El { name, attrs, kids } => okname(name) && letter(name[0]) && okattrs(attrs)
            && (is_void(name) ==> mg(kids, None).len() == 0)
            && (is_raw(name) && !is_void(name) ==> raw_ok(kids))
            && wfk(kids),
    }
}
pub open spec fn wfk(kids: Seq<N>) -> bool
    decreases kids, 1int, kids.len(),
{
    if kids.len() == 0 { true } else { wfn(kids[0]) && wfk(kids.skip(1)) }
}
proof fn lemma_pad(id: Option<nat>, f: bool)
    requires f == (id is Some),
    ensures pad(id) is Txt, nl(f) is Txt, soft(pad(id)->Txt_0, f), soft(nl(f)->Txt_0, f), soft(nl(f)->Txt_0 + pad(id)->Txt_0, f),
{
    lemma_soft_add(nl(f)->Txt_0, pad(id)->Txt_0, f);
}
proof fn lemma_tk_txt(p: P, x: Seq<P>, acc: Seq<char>, f: bool)
    requires is_text(p),
    ensures tk(seq![p] + x, acc, f) == tk(x, acc + text_of(p), f),
{
    let ps = seq![p] + x;
    assert(ps[0] == p);
    assert(ps.skip(1) =~= x);
}
proof fn lemma_tk_open(p: P, x: Seq<P>, acc: Seq<char>, f: bool)
    requires p is Open,
    ensures tk(seq![p] + x, acc, f) == flush(cut(acc, f)) + (seq![Tok::Open { name: p->name, attrs: p->attrs, void: p->void }] + tk(x, Seq::empty(), f)),
{
    let ps = seq![p] + x;
    assert(ps[0] == p);
    assert(ps.skip(1) =~= x);
}
proof fn lemma_p2k(kids: Seq<N>, x: Seq<P>)
    requires kids.len() > 0,
    ensures
        p2k(kids) + x == p2(kids[0]) + (p2k(kids.skip(1)) + x),
        kids[0] is Tx ==> p2(kids[0]) == seq![P::Txt(kids[0]->Tx_0)],
        kids[0] is Co ==> p2k(kids) + x == p2k(kids.skip(1)) + x,
        kids[0] is El ==> p2(kids[0]).len() > 0 && p2(kids[0])[0] is Open && (p2(kids[0]).last() is Open || p2(kids[0]).last() is Close),
{
    assert(p2k(kids) + x =~= p2(kids[0]) + (p2k(kids.skip(1)) + x));
    if kids[0] is Co {
        assert(p2(kids[0]) =~= Seq::empty());
        assert(p2k(kids) + x =~= p2k(kids.skip(1)) + x);
    }
}
// the start of a line
pub open spec fn head(id: Option<nat>, f: bool) -> Seq<char> { nl(f)->Txt_0 + pad(id)->Txt_0 }
proof fn lemma_head(id: Option<nat>, f: bool, x: Seq<P>, acc: Seq<char>)
    requires f == (id is Some),
    ensures tk(seq![nl(f), pad(id)] + x, acc, f) == tk(x, acc + head(id, f), f), soft(head(id, f), f),
{
    lemma_pad(id, f);
    let a = nl(f)->Txt_0;
    let b = pad(id)->Txt_0;
    let ps = seq![nl(f), pad(id)] + x;
    let y = seq![pad(id)] + x;
    assert(ps =~= seq![nl(f)] + y);
    lemma_tk_txt(nl(f), y, acc, f);
    lemma_tk_txt(pad(id), x, acc + a, f);
    assert((acc + a) + b =~= acc + (a + b));
}
proof fn lemma_head_tag(id: Option<nat>, f: bool, x: Seq<P>, acc: Seq<char>)
    requires f == (id is Some), tag_first(x),
    ensures tk(seq![nl(f), pad(id)] + x, acc, f) == tk(x, acc, f),
{
    lemma_head(id, f, x, acc);
    assert(Seq::<char>::empty() + acc + head(id, f) =~= acc + head(id, f));
    lemma_tk_soft(x, Seq::empty(), acc, head(id, f), f);
}
// the only text below an element
proof fn lemma_text_only(kids: Seq<N>, acc: Option<Seq<char>>, x: Seq<P>, a: Seq<char>, f: bool)
    requires one_text(mg(kids, acc)),
    ensures tk(p2k(kids) + x, a + or_none(acc), f) == tk(x, a + (mg(kids, acc)[0]->Tx_0), f),
    decreases kids.len(),
{
    if kids.len() == 0 {
        assert(p2k(kids) + x =~= x);
    } else {
        let r = kids.skip(1);
        lemma_p2k(kids, x);
        match kids[0] {
            N::Tx(t) => {
                lemma_text_only(r, Some(or_none(acc) + t), x, a, f);
                assert((a + or_none(acc)) + t =~= a + (or_none(acc) + t));
                lemma_tk_txt(P::Txt(t), p2k(r) + x, a + or_none(acc), f);
            }
            N::Co(_) => {
                lemma_text_only(r, acc, x, a, f);
            }
            N::El { .. } => {
                assert(mg(kids, acc)[flush_n(acc).len() as int] == kids[0]);
            }
        }
    }
}
// the shape of the served pieces of an element
pub open spec fn el_open(n: N) -> P { P::Open { name: n->name, attrs: n->attrs, void: is_void(n->name) } }
proof fn lemma_shape(n: N, id: Option<nat>, x: Seq<P>, f: bool)
    requires f == (id is Some), n is El,
    ensures
        is_void(n->name) ==> flat(lines(n, id), f) + x == seq![nl(f), pad(id)] + (seq![el_open(n)] + x),
        !is_void(n->name) && one_text(mg(n->kids, None)) ==>
            flat(lines(n, id), f) + x == seq![nl(f), pad(id)] + (seq![el_open(n)] + (seq![content(n->name, mg(n->kids, None)[0]->Tx_0)] + (seq![P::Close(n->name)] + x))),
        !is_void(n->name) && !one_text(mg(n->kids, None)) ==>
            flat(lines(n, id), f) + x == seq![nl(f), pad(id)] + (seq![el_open(n)] + (flat(lk(n->kids, None, deeper(id)), f) + (seq![nl(f), pad(id)] + (seq![P::Close(n->name)] + x)))),
{
    let name = n->name;
    let kids = n->kids;
    let ls = lines(n, id);
    let o = el_open(n);
    let c = P::Close(name);
    let m = mg(kids, None);
    if is_void(name) {
        lemma_flat_one(seq![pad(id), o], f);
        assert(flat(ls, f) + x =~= seq![nl(f), pad(id)] + (seq![o] + x));
    } else if one_text(m) {
        let t = content(name, m[0]->Tx_0);
        lemma_flat_one(seq![pad(id), o, t, c], f);
        assert(flat(ls, f) + x =~= seq![nl(f), pad(id)] + (seq![o] + (seq![t] + (seq![c] + x))));
    } else {
        let mid = lk(kids, None, deeper(id));
        let l0 = seq![seq![pad(id), o]];
        let l1 = seq![seq![pad(id), c]];
        assert(ls == l0 + mid + l1);
        lemma_flat_add(l0 + mid, l1, f);
        lemma_flat_add(l0, mid, f);
        lemma_flat_one(seq![pad(id), o], f);
        lemma_flat_one(seq![pad(id), c], f);
        let fm = flat(mid, f);
        assert(flat(ls, f) == (seq![nl(f)] + seq![pad(id), o]) + fm + (seq![nl(f)] + seq![pad(id), c]));
        assert(flat(ls, f) + x =~= seq![nl(f), pad(id)] + (seq![o] + (fm + (seq![nl(f), pad(id)] + (seq![c] + x)))));
    }
}
proof fn lemma_lines(n: N, id: Option<nat>, x: Seq<P>, acc: Seq<char>, f: bool)
    requires f == (id is Some), n is El,
    ensures tk(flat(lines(n, id), f) + x, acc, f) == tk(p2(n) + x, acc, f),
    decreases n, 0int,
{
    let name = n->name;
    let kids = n->kids;
    let none = Seq::<char>::empty();
    let o = el_open(n);
    lemma_shape(n, id, x, f);
    if is_void(name) {
        lemma_head_tag(id, f, seq![o] + x, acc);
        assert(p2(n) == seq![o]);
    } else {
        let c = P::Close(name);
        let m = mg(kids, None);
        let y = seq![c] + x;
        let body = p2k(kids) + y;
        assert(p2(n) == seq![o] + p2k(kids) + seq![c]);
        assert(p2(n) + x =~= seq![o] + body);
        lemma_tk_open(o, body, acc, f);
        if one_text(m) {
            let t = content(name, m[0]->Tx_0);
            let z = seq![t] + y;
            lemma_head_tag(id, f, seq![o] + z, acc);
            lemma_tk_open(o, z, acc, f);
            lemma_tk_txt(t, y, none, f);
            lemma_text_only(kids, None, y, none, f);
            assert(none + or_none(None) =~= none);
        } else {
            let d = deeper(id);
            let tail = seq![nl(f), pad(id)] + y;
            let z = flat(lk(kids, None, d), f) + tail;
            lemma_head_tag(id, f, seq![o] + z, acc);
            lemma_tk_open(o, z, acc, f);
            // the end of the element is read the same with and without the white space in front of it
            lemma_lk(kids, None, d, tail, y, f, id);
            assert(or_none(None) =~= none);
        }
    }
}
// x is y behind the head of a line
proof fn lemma_lk(kids: Seq<N>, acc: Option<Seq<char>>, id: Option<nat>, x: Seq<P>, y: Seq<P>, f: bool, id0: Option<nat>)
    requires f == (id is Some), f == (id0 is Some), tag_first(y), x == seq![nl(f), pad(id0)] + y,
    ensures tk(flat(lk(kids, acc, id), f) + x, Seq::empty(), f) == tk(p2k(kids) + y, or_none(acc), f),
    decreases kids, 1int, kids.len(),
{
    let none = Seq::<char>::empty();
    let h = head(id, f);
    let fl = flat(flush_l(acc, id), f);
    let t = or_none(acc);
    if acc is Some {
        lemma_flat_one(seq![pad(id), P::Txt(t)], f);
        assert(fl =~= seq![nl(f), pad(id)] + seq![P::Txt(t)]);
    } else {
        assert(fl =~= Seq::empty());
    }
    lemma_head(id, f, Seq::empty(), none);
    if kids.len() == 0 {
        lemma_head_tag(id0, f, y, none);
        assert(p2k(kids) + y =~= y);
        if acc is Some {
            let z = seq![P::Txt(t)] + x;
            assert(fl + x =~= seq![nl(f), pad(id)] + z);
            lemma_head(id, f, z, none);
            assert(z.skip(1) =~= x);
            assert(none + h =~= h);
            lemma_head_tag(id0, f, y, h + t);
            assert(h + t + none =~= h + t);
            lemma_tk_soft(y, h, t, none, f);
        } else {
            assert(fl + x =~= x);
        }
    } else {
        let r = kids.skip(1);
        lemma_p2k(kids, y);
        match kids[0] {
            N::Tx(s) => {
                lemma_lk(r, Some(t + s), id, x, y, f, id0);
                lemma_tk_txt(P::Txt(s), p2k(r) + y, t, f);
            }
            N::Co(_) => {
                lemma_lk(r, acc, id, x, y, f, id0);
            }
            N::El { .. } => {
                let e = kids[0];
                let le = lines(e, id);
                let lr = lk(r, None, id);
                lemma_lk(r, None, id, x, y, f, id0);
                lemma_flat_add(flush_l(acc, id) + le, lr, f);
                lemma_flat_add(flush_l(acc, id), le, f);
                let z = flat(lr, f) + x;
                let w = flat(le, f) + z;
                assert(flat(lk(kids, acc, id), f) + x =~= fl + w);
                let pe = p2(e);
                assert(pe[0] is Open);
                let a = if acc is Some { h + t } else { none };
                assert(tk(fl + w, none, f) == tk(w, a, f)) by {
                    if acc is Some {
                        assert(fl + w =~= seq![nl(f), pad(id)] + (seq![P::Txt(t)] + w));
                        lemma_head(id, f, seq![P::Txt(t)] + w, none);
                        assert((seq![P::Txt(t)] + w).skip(1) =~= w);
                        assert(none + h =~= h);
                    } else { assert(fl + w =~= w); }
                }
                lemma_lines(e, id, z, a, f);
                lemma_tk_tag(pe, z, t, f);
                lemma_tk_tag(pe, p2k(r) + y, t, f);
                assert(tk(pe + z, a, f) == tk(pe + z, t, f)) by {
                    if acc is Some {
                        assert(h + t + none =~= h + t);
                        assert((pe + z)[0] == pe[0]);
                        lemma_tk_soft(pe + z, h, t, none, f);
                    }
                }
                assert(p2k(kids) + y =~= pe + (p2k(r) + y));
                assert(or_none(None) =~= none);
            }
        }
    }
}
// the served lines are well-formed text
proof fn lemma_wf_txt(t: Seq<char>, x: Seq<P>, raw: bool)
    requires raw ==> ws(t), wfp(x, raw),
    ensures wfp(seq![P::Txt(t)] + x, raw),
{
    assert((seq![P::Txt(t)] + x).skip(1) =~= x);
}
proof fn lemma_wf_head(id: Option<nat>, x: Seq<P>, raw: bool, f: bool)
    requires f == (id is Some), wfp(x, raw),
    ensures wfp(seq![nl(f), pad(id)] + x, raw),
{
    lemma_pad(id, f);
    let p = P::Txt(pad(id)->Txt_0);
    let q = P::Txt(nl(f)->Txt_0);
    lemma_wf_txt(pad(id)->Txt_0, x, raw);
    lemma_wf_txt(nl(f)->Txt_0, seq![p] + x, raw);
    assert(seq![q] + (seq![p] + x) =~= seq![nl(f), pad(id)] + x);
}
proof fn lemma_wf_step(p: P, x: Seq<P>, raw: bool)
    requires
        match p {
            P::Open { name, attrs, void } => !raw && okname(name) && letter(name[0]) && okattrs(attrs) && wfp(x, !void && is_raw(name)),
            P::Close(name) => okname(name) && wfp(x, false),
            P::Txt(t) => (raw ==> ws(t)) && wfp(x, raw),
            P::Raw(t) => raw && none_of(t, '<') && wfp(x, raw),
            P::Com(_) => false,
        },
    ensures wfp(seq![p] + x, raw),
{
    assert((seq![p] + x)[0] == p);
    assert((seq![p] + x).skip(1) =~= x);
}
proof fn lemma_wf_lines(n: N, id: Option<nat>, x: Seq<P>, f: bool)
    requires f == (id is Some), wfn(n), n is El, wfp(x, false),
    ensures wfp(flat(lines(n, id), f) + x, false),
    decreases n, 0int,
{
    let name = n->name;
    let kids = n->kids;
    let o = el_open(n);
    lemma_shape(n, id, x, f);
    if is_void(name) {
        lemma_wf_step(o, x, false);
        lemma_wf_head(id, seq![o] + x, false, f);
    } else {
        let c = P::Close(name);
        let m = mg(kids, None);
        let y = seq![c] + x;
        let rw = is_raw(name);
        lemma_wf_step(c, x, rw);
        if one_text(m) {
            let t = content(name, m[0]->Tx_0);
            let z = seq![t] + y;
            lemma_wf_step(t, y, rw);
            lemma_wf_step(o, z, false);
            lemma_wf_head(id, seq![o] + z, false, f);
        } else {
            let d = deeper(id);
            let mid = flat(lk(kids, None, d), f);
            let tail = seq![nl(f), pad(id)] + y;
            lemma_wf_head(id, y, rw, f);
            let z = mid + tail;
            if rw {
                lemma_mg_lines(kids, None, d);
                assert(m =~= Seq::empty());
                assert(lk(kids, None, d) =~= Seq::empty());
                assert(mid =~= Seq::empty());
                assert(z =~= tail);
            } else {
                lemma_wf_lk(kids, None, d, tail, f);
            }
            lemma_wf_step(o, z, false);
            lemma_wf_head(id, seq![o] + z, false, f);
        }
    }
}
proof fn lemma_wf_pend(acc: Option<Seq<char>>, id: Option<nat>, w: Seq<P>, f: bool)
    requires f == (id is Some), wfp(w, false),
    ensures wfp(flat(flush_l(acc, id), f) + w, false),
{
    let fl = flat(flush_l(acc, id), f);
    let t = or_none(acc);
    if acc is Some {
        lemma_flat_one(seq![pad(id), P::Txt(t)], f);
        assert(fl =~= seq![nl(f), pad(id)] + seq![P::Txt(t)]);
        lemma_wf_step(P::Txt(t), w, false);
        lemma_wf_head(id, seq![P::Txt(t)] + w, false, f);
        assert(fl + w =~= seq![nl(f), pad(id)] + (seq![P::Txt(t)] + w));
    } else {
        assert(fl =~= Seq::empty());
        assert(fl + w =~= w);
    }
}
proof fn lemma_wf_lk(kids: Seq<N>, acc: Option<Seq<char>>, id: Option<nat>, x: Seq<P>, f: bool)
    requires f == (id is Some), wfk(kids), wfp(x, false),
    ensures wfp(flat(lk(kids, acc, id), f) + x, false),
    decreases kids, 1int, kids.len(),
{
    let t = or_none(acc);
    if kids.len() == 0 {
        lemma_wf_pend(acc, id, x, f);
    } else {
        let r = kids.skip(1);
        assert(wfn(kids[0]) && wfk(r));
        match kids[0] {
            N::Tx(s) => { lemma_wf_lk(r, Some(t + s), id, x, f); }
            N::Co(_) => { lemma_wf_lk(r, acc, id, x, f); }
            N::El { .. } => {
                let le = lines(kids[0], id);
                let lr = lk(r, None, id);
                let z = flat(lr, f) + x;
                lemma_wf_lk(r, None, id, x, f);
                lemma_wf_lines(kids[0], id, z, f);
                lemma_wf_pend(acc, id, flat(le, f) + z, f);
                lemma_flat_add(flush_l(acc, id) + le, lr, f);
                lemma_flat_add(flush_l(acc, id), le, f);
                let fl = flat(flush_l(acc, id), f);
                assert(flat(lk(kids, acc, id), f) + x =~= fl + (flat(le, f) + z));
            }
        }
    }
}
// THEOREM (C06): the served text of a tree, read back by the parser, is the tree
pub open spec fn ident0(f: bool) -> Option<nat> { if f { Some(0nat) } else { None } }
pub open spec fn served(n: N, f: bool) -> Seq<char> { enc_all(flat(lines(n, ident0(f)), f)) }
proof fn theorem_read_back(n: N, f: bool)
    requires wfn(n), n is El,
    ensures
        cut_toks(tok(served(n, f), false), f) == tk(p2(n), Seq::empty(), f),
        !f ==> tok(served(n, f), false) == tokens(p2(n), Seq::empty()),
{
    let none = Seq::<char>::empty();
    let np = Seq::<P>::empty();
    let id = ident0(f);
    let ps = flat(lines(n, id), f);
    assert(ps + np =~= ps);
    assert(p2(n) + np =~= p2(n));
    assert(wfp(np, false));
    lemma_wf_lines(n, id, np, f);
    lemma_lines(n, id, np, none, f);
    lemma_tok(ps, none, false);
    assert(shown(none, false) + enc_all(ps) =~= enc_all(ps));
    lemma_tk(ps, none, f);
    if !f {
        lemma_same(ps, none);
        lemma_same(p2(n), none);
    }
}
proof fn lemma_same(ps: Seq<P>, acc: Seq<char>)
    ensures tk(ps, acc, false) == tokens(ps, acc),
    decreases ps.len(),
{
    if ps.len() > 0 {
        let r = ps.skip(1);
        match ps[0] {
            P::Txt(t) => { lemma_same(r, acc + t); }
            P::Raw(t) => { lemma_same(r, acc + t); }
            P::Com(_) => { lemma_same(r, acc); }
            _ => {
                lemma_same(r, Seq::empty());
                let t = match ps[0] { P::Open { name, attrs, void } => Tok::Open { name, attrs, void }, P::Close(name) => Tok::Close(name), _ => Tok::Bad };
                assert(flush(acc) + (seq![t] + tokens(r, Seq::empty())) =~= flush(acc) + seq![t] + tokens(r, Seq::empty()));
            }
        }
    }
}
