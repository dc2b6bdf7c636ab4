// ---- the documented wire layout, as a tree of tagged pieces ----------------------------------------------------
// big-endian integers
mod bel {
    use super::*;
pub open spec fn be(v: nat, k: nat) -> Seq<u8>
    decreases k,
{
    if k == 0 { Seq::empty() } else { be(v / 256, (k - 1) as nat).push((v % 256) as u8) }
}
pub broadcast proof fn lemma_be_len(v: nat, k: nat)
    ensures #[trigger] be(v, k).len() == k,
    decreases k,
{
    if k > 0 { lemma_be_len(v / 256, (k - 1) as nat); }
}
}
use bel::*;
pub open spec fn unbe(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { unbe(s.drop_last()) * 256 + s.last() as nat }
}
pub open spec fn p256(k: nat) -> nat
    decreases k,
{
    if k == 0 { 1 } else { 256 * p256((k - 1) as nat) }
}
pub proof fn lemma_be(v: nat, k: nat)
    requires v < p256(k),
    ensures be(v, k).len() == k, unbe(be(v, k)) == v,
    decreases k,
{
    if k > 0 {
        assert(v / 256 < p256((k - 1) as nat)) by (nonlinear_arith)
            requires v < p256(k), p256(k) == 256 * p256((k - 1) as nat);
        lemma_be(v / 256, (k - 1) as nat);
        assert(be(v, k).drop_last() =~= be(v / 256, (k - 1) as nat));
        assert(v == (v / 256) * 256 + v % 256);
    }
}
pub proof fn lemma_unbe(s: Seq<u8>)
    ensures unbe(s) < p256(s.len()), be(unbe(s), s.len()) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_unbe(s.drop_last());
        let q = unbe(s.drop_last());
        let d = s.last() as nat;
        assert((q * 256 + d) / 256 == q && (q * 256 + d) % 256 == d);
        assert(be(unbe(s), s.len()) =~= s.drop_last().push(s.last()));
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub proof fn lemma_p256()
    ensures p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(p256, 9);
}
pub enum K { V, J }

pub struct Pair { pub key: Seq<char>, pub val: T }
pub enum Body {
    Raw(Seq<u8>),
    List(Seq<T>),
    Obj(Seq<Pair>),
    Sub(Box<T>),
}
pub struct T { pub tag: u8, pub body: Body }

// length-prefixed bytes
pub open spec fn lp(b: Seq<u8>) -> Seq<u8> { be(b.len(), 4) + b }

pub open spec fn enc(t: T) -> Seq<u8>
    decreases t,
{
    seq![t.tag] + match t.body {
        Body::Raw(b) => b,
        Body::List(l) => be(l.len(), 4) + enc_list(l),
        Body::Obj(l) => be(l.len(), 2) + enc_obj(l),
        Body::Sub(x) => enc(*x),
    }
}
pub open spec fn enc_list(l: Seq<T>) -> Seq<u8>
    decreases l,
{
    if l.len() == 0 { Seq::empty() } else { enc_list(l.drop_last()) + enc(l.last()) }
}
pub open spec fn enc_obj(l: Seq<Pair>) -> Seq<u8>
    decreases l,
{
    if l.len() == 0 { Seq::empty() } else { enc_obj(l.drop_last()) + lp(encode_utf8(l.last().key)) + enc(l.last().val) }
}

pub open spec fn shape(k: K, tag: u8) -> int {
    // -2 list, -3 object, -4 nested JSON, -5 length-prefixed bytes, -6 length-prefixed text, -1 invalid, otherwise number of bytes
    match k {
        K::V => if tag == 1 || tag == 2 { 4 } else if tag == 3 || tag == 4 || tag == 5 { 8 } else if 6 <= tag <= 9 { 0 }
            else if tag == 10 { -5 } else if tag == 11 { -6 } else if tag == 12 { -2 } else if tag == 13 { -3 } else if tag == 14 { -4 } else { -1 },
        K::J => if 1 <= tag <= 3 { 0 } else if tag == 4 { -6 } else if tag == 5 { 8 } else if tag == 6 { -2 } else if tag == 7 { -3 } else { -1 },
    }
}
pub open spec fn distinct_keys(l: Seq<Pair>) -> bool {
    forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j ==> (#[trigger] l[i]).key != (#[trigger] l[j]).key
}
// a well-formed encoding tree
pub open spec fn okt(t: T, k: K) -> bool
    decreases t,
{
    let s = shape(k, t.tag);
    match t.body {
        Body::Raw(b) =>
            if s >= 0 { b.len() == s }
            else if s == -5 { exists|x: Seq<u8>| b == #[trigger] lp(x) && x.len() < 0x1_0000_0000 }
            else if s == -6 { exists|x: Seq<u8>| b == #[trigger] lp(x) && x.len() < 0x1_0000_0000 && valid_utf8(x) }
            else { false },
        Body::List(l) => s == -2 && l.len() < 0x1_0000_0000 && forall|i: int| 0 <= i < l.len() ==> okt(#[trigger] l[i], k),
        Body::Obj(l) => s == -3 && l.len() <= 65535 && distinct_keys(l) && forall|i: int| 0 <= i < l.len() ==> okp(#[trigger] l[i], k),
        Body::Sub(x) => s == -4 && okt(*x, K::J),
    }
}
pub open spec fn okp(p: Pair, k: K) -> bool
    decreases p,
{
    encode_utf8(p.key).len() < 0x1_0000_0000 && okt(p.val, k)
}

// ---- reading: the tree at the front of a byte sequence, and how many bytes it takes ----
pub open spec fn parse(b: Seq<u8>, k: K) -> Option<(T, nat)>
    decreases b.len(), 0nat, 0nat,
{
    if b.len() == 0 { None } else {
        let tag = b[0];
        let s = shape(k, tag);
        if s >= 0 {
            if b.len() < 1 + s { None } else { Some((T { tag, body: Body::Raw(b.subrange(1, 1 + s)) }, (1 + s) as nat)) }
        } else if s == -5 || s == -6 {
            if b.len() < 5 { None } else {
                let n = unbe(b.subrange(1, 5));
                if b.len() < 5 + n { None }
                else if s == -6 && !valid_utf8(b.subrange(5, 5 + n as int)) { None }
                else { Some((T { tag, body: Body::Raw(b.subrange(1, 5 + n as int)) }, 5 + n)) }
            }
        } else if s == -2 {
            if b.len() < 5 { None } else {
                match parse_list(b.skip(5), unbe(b.subrange(1, 5)), k) {
                    Some((l, n)) => Some((T { tag, body: Body::List(l) }, 5 + n)),
                    None => None,
                }
            }
        } else if s == -3 {
            if b.len() < 3 { None } else {
                match parse_obj(b.skip(3), unbe(b.subrange(1, 3)), k) {
                    Some((l, n)) => Some((T { tag, body: Body::Obj(l) }, 3 + n)),
                    None => None,
                }
            }
        } else if s == -4 {
            match parse(b.skip(1), K::J) {
                Some((x, n)) => Some((T { tag, body: Body::Sub(Box::new(x)) }, 1 + n)),
                None => None,
            }
        } else { None }
    }
}
// c items one after the other; cut off behind the part already read
pub open spec fn parse_list(b: Seq<u8>, c: nat, k: K) -> Option<(Seq<T>, nat)>
    decreases b.len(), 1nat, c,
{
    if c == 0 { Some((Seq::empty(), 0)) } else {
        match parse_list(b, (c - 1) as nat, k) {
            None => None,
            Some((l, m)) => if m > b.len() { None } else {
                match parse(b.skip(m as int), k) {
                    None => None,
                    Some((x, n)) => if n > b.len() - m { None } else { Some((l.push(x), m + n)) },
                }
            },
        }
    }
}
pub open spec fn parse_obj(b: Seq<u8>, c: nat, k: K) -> Option<(Seq<Pair>, nat)>
    decreases b.len(), 1nat, c,
{
    if c == 0 { Some((Seq::empty(), 0)) } else {
        match parse_obj(b, (c - 1) as nat, k) {
            None => None,
            Some((l, m)) => if m + 4 > b.len() { None } else {
                let n = unbe(b.subrange(m as int, (m + 4) as int));
                if m + 4 + n > b.len() || !valid_utf8(b.subrange((m + 4) as int, (m + 4 + n) as int)) { None } else {
                    match parse(b.skip((m + 4 + n) as int), k) {
                        None => None,
                        Some((x, q)) => if q > b.len() - (m + 4 + n) { None }
                            else { Some((l.push(Pair { key: decode_utf8(b.subrange((m + 4) as int, (m + 4 + n) as int)), val: x }), m + 4 + n + q)) },
                    }
                }
            },
        }
    }
}

pub proof fn lemma_parse_enc(t: T, k: K, tail: Seq<u8>)
    requires okt(t, k),
    ensures parse(enc(t) + tail, k) == Some((t, enc(t).len())), enc(t).len() > 0,
    decreases t, 0nat,
{
    let b = enc(t) + tail;
    lemma_p256();
    assert(b[0] == t.tag);
    match t.body {
        Body::Raw(raw) => {
            assert(b =~= seq![t.tag] + raw + tail);
            let s = shape(k, t.tag);
            if s >= 0 {
                assert(b.subrange(1, 1 + s) =~= raw);
            } else {
                let x = choose|x: Seq<u8>| raw == #[trigger] lp(x) && x.len() < 0x1_0000_0000 && (s == -6 ==> valid_utf8(x));
                lemma_be(x.len(), 4);
                assert(b.subrange(1, 5) =~= be(x.len(), 4));
                assert(b.subrange(5, 5 + x.len() as int) =~= x);
                assert(b.subrange(1, 5 + x.len() as int) =~= raw);
            }
        }
        Body::List(l) => {
            lemma_be(l.len(), 4);
            assert(b =~= seq![t.tag] + be(l.len(), 4) + enc_list(l) + tail);
            assert(b.subrange(1, 5) =~= be(l.len(), 4));
            assert(b.skip(5) =~= enc_list(l) + tail);
            lemma_parse_enc_list(l, k, tail);
        }
        Body::Obj(l) => {
            lemma_be(l.len(), 2);
            assert(b =~= seq![t.tag] + be(l.len(), 2) + enc_obj(l) + tail);
            assert(b.subrange(1, 3) =~= be(l.len(), 2));
            assert(b.skip(3) =~= enc_obj(l) + tail);
            lemma_parse_enc_obj(l, k, tail);
        }
        Body::Sub(x) => {
            assert(b.skip(1) =~= enc(*x) + tail);
            lemma_parse_enc(*x, K::J, tail);
        }
    }
}
proof fn lemma_parse_enc_list(l: Seq<T>, k: K, tail: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> okt(#[trigger] l[i], k),
    ensures parse_list(enc_list(l) + tail, l.len(), k) == Some((l, enc_list(l).len())),
    decreases l, 1nat,
{
    let b = enc_list(l) + tail;
    if l.len() > 0 {
        let p = l.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies okt(#[trigger] p[i], k) by { assert(p[i] == l[i]); }
        assert(b =~= enc_list(p) + (enc(l.last()) + tail));
        lemma_parse_enc_list(p, k, enc(l.last()) + tail);
        assert(okt(l[l.len() - 1], k));
        lemma_parse_enc(l.last(), k, tail);
        assert(b.skip(enc_list(p).len() as int) =~= enc(l.last()) + tail);
        assert(p.push(l.last()) =~= l);
    } else {
        assert(l =~= Seq::<T>::empty());
    }
}
proof fn lemma_parse_enc_obj(l: Seq<Pair>, k: K, tail: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> okp(#[trigger] l[i], k),
    ensures parse_obj(enc_obj(l) + tail, l.len(), k) == Some((l, enc_obj(l).len())),
    decreases l, 1nat,
{
    let b = enc_obj(l) + tail;
    if l.len() > 0 {
        let p = l.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies okp(#[trigger] p[i], k) by { assert(p[i] == l[i]); }
        let last = l.last();
        let kb = encode_utf8(last.key);
        let rest = lp(kb) + enc(last.val) + tail;
        assert(b =~= enc_obj(p) + rest);
        lemma_parse_enc_obj(p, k, rest);
        assert(okp(l[l.len() - 1], k));
        lemma_parse_enc(last.val, k, tail);
        lemma_p256();
        lemma_be(kb.len(), 4);
        let m = enc_obj(p).len();
        assert(b.subrange(m as int, (m + 4) as int) =~= be(kb.len(), 4));
        assert(b.subrange((m + 4) as int, (m + 4 + kb.len()) as int) =~= kb);
        assert(b.skip((m + 4 + kb.len()) as int) =~= enc(last.val) + tail);
        encode_utf8_valid_utf8(last.key);
        encode_utf8_decode_utf8(last.key);
        assert(p.push(last) =~= l);
    } else {
        assert(l =~= Seq::<Pair>::empty());
    }
}
pub proof fn lemma_parse_len(b: Seq<u8>, k: K)
    requires parse(b, k) is Some,
    ensures 0 < parse(b, k).unwrap().1 <= b.len(),
    decreases b.len(),
{
    let s = shape(k, b[0]);
    if s == -2 { lemma_parse_list_prefix(b.skip(5), unbe(b.subrange(1, 5)), 0, k); }
    if s == -3 { lemma_parse_obj_prefix(b.skip(3), unbe(b.subrange(1, 3)), 0, k); }
    if s == -4 { lemma_parse_len(b.skip(1), K::J); }
}
// every successful read of c items contains the successful reads of fewer
pub proof fn lemma_parse_list_prefix(b: Seq<u8>, c: nat, d: nat, k: K)
    requires d <= c, parse_list(b, c, k) is Some,
    ensures parse_list(b, d, k) is Some, parse_list(b, d, k).unwrap().1 <= parse_list(b, c, k).unwrap().1,
        parse_list(b, c, k).unwrap().1 <= b.len(), parse_list(b, c, k).unwrap().0.len() == c,
        parse_list(b, d, k).unwrap().0 == parse_list(b, c, k).unwrap().0.take(d as int),
    decreases c,
{
    if c > 0 {
        if d < c { lemma_parse_list_prefix(b, (c - 1) as nat, d, k); }
        else { lemma_parse_list_prefix(b, (c - 1) as nat, (c - 1) as nat, k); }
    }
    assert(parse_list(b, d, k).unwrap().0 =~= parse_list(b, c, k).unwrap().0.take(d as int));
}
pub proof fn lemma_parse_obj_prefix(b: Seq<u8>, c: nat, d: nat, k: K)
    requires d <= c, parse_obj(b, c, k) is Some,
    ensures parse_obj(b, d, k) is Some, parse_obj(b, d, k).unwrap().1 <= parse_obj(b, c, k).unwrap().1,
        parse_obj(b, c, k).unwrap().1 <= b.len(), parse_obj(b, c, k).unwrap().0.len() == c,
        parse_obj(b, d, k).unwrap().0 == parse_obj(b, c, k).unwrap().0.take(d as int),
    decreases c,
{
    if c > 0 {
        if d < c {
            lemma_parse_obj_prefix(b, (c - 1) as nat, d, k);
            assert(parse_obj(b, d, k).unwrap().0 =~= parse_obj(b, c, k).unwrap().0.take(d as int));
        }
        else {
            lemma_parse_obj_prefix(b, (c - 1) as nat, (c - 1) as nat, k);
            assert(parse_obj(b, d, k).unwrap().0 =~= parse_obj(b, c, k).unwrap().0.take(d as int));
        }
    } else {
        assert(parse_obj(b, d, k).unwrap().0 =~= parse_obj(b, c, k).unwrap().0.take(d as int));
    }
}
