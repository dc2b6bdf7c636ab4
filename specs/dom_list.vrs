#![feature(allocator_api)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::hash::*;
use std::collections::{HashMap, VecDeque};
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::vecdeque::group_vec_dequeue_axioms};

// elements and texts have no contents placed before them; a marker (a comment) has
axiom fn axiom_solid(n: DomNode)
    requires !(n is Comment),
    ensures solid(nid(n));

// ---- trusted: the DOM, the functions given by the program ----------------------------------------------------------
impl Clone for DomId {
    #[verifier::external_body]
    fn clone(&self) -> (r: DomId) ensures r == *self, { unimplemented!() }
}
impl Copy for DomId {}

// The children of the parent, each standing for itself and for what it placed before itself (a marker).
// own is the marker whose contents are placed, pre and post what stands before its contents and behind it.
struct World {
    shown: Ghost<Seq<DomId>>,
    used: Ghost<Set<DomId>>,
    renders: Ghost<Seq<int>>,
    parent: Ghost<DomId>,
    own: Ghost<DomId>,
    pre: Ghost<Seq<DomId>>,
    post: Ghost<Seq<DomId>>,
}
spec fn same_place(a: World, b: World) -> bool {
    a.parent == b.parent && a.own == b.own && a.pre == b.pre && a.post == b.post
}
// nothing is placed before this node by what it contains
uninterp spec fn solid(n: DomId) -> bool;

spec fn rid(s: Seq<DomId>, gone: Set<DomId>) -> Seq<DomId> { s.filter(|y: DomId| !gone.contains(y)) }
// x inserted before r
spec fn ins(s: Seq<DomId>, x: DomId, r: DomId) -> Seq<DomId>
    decreases s.len(),
{
    if s.len() == 0 { seq![x] } else if s[0] == r { seq![x] + s } else { seq![s[0]] + ins(s.skip(1), x, r) }
}
// x moved (or placed) before r
spec fn mv(s: Seq<DomId>, x: DomId, r: DomId) -> Seq<DomId> { ins(rid(s, set![x]), x, r) }
// all of xs moved before r, in their order
spec fn place(s: Seq<DomId>, xs: Seq<DomId>, r: DomId) -> Seq<DomId>
    decreases xs.len(),
{
    if xs.len() == 0 { s } else { mv(place(s, xs.drop_last(), r), xs.last(), r) }
}

impl World {
    // moving a marker moves what it contains; placing a node before a marker would place it behind the contents of the marker
    #[verifier::external_body]
    fn insert_before(&mut self, parent: DomId, child: DomId, ref_id: Option<DomId>)
        requires
            parent == old(self).parent@,
            ref_id is Some,
            ref_id->0 == old(self).own@ || solid(ref_id->0),
            old(self).shown@.contains(ref_id->0),
            child != ref_id->0,
        ensures
            final(self).shown@ == mv(old(self).shown@, child, ref_id->0),
            final(self).used == old(self).used, final(self).renders == old(self).renders,
            same_place(*old(self), *final(self)),
    { unimplemented!() }
    // the nodes which are no longer held are removed
    #[verifier::external_body]
    fn dropped(&mut self, gone: Ghost<Set<DomId>>)
        ensures
            final(self).shown@ == rid(old(self).shown@, gone@),
            final(self).used == old(self).used, final(self).renders == old(self).renders,
            same_place(*old(self), *final(self)),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(K)]
struct KeyFn<T, K> { f: Vec<(T, K)> }
uninterp spec fn key_of<T, K>(f: KeyFn<T, K>, t: T) -> K;
impl<T, K> KeyFn<T, K> {
    #[verifier::external_body]
    fn call(&self, t: &T) -> (r: K) ensures r == key_of(*self, *t), { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct RenderFn<T> { f: Vec<T> }
// the number of an item, to record in World what was rendered
uninterp spec fn code<T>(t: T) -> int;
uninterp spec fn item_of<T>(c: int) -> T;
// the item a node was rendered from
uninterp spec fn origin<T>(n: DomNode) -> T;
impl<T> RenderFn<T> {
    #[verifier::external_body]
    fn call(&self, t: &T, w: &mut World) -> (r: DomNode)
        ensures
            origin::<T>(r) == *t,
            !old(w).used@.contains(nid(r)),
            final(w).used@ == old(w).used@.insert(nid(r)),
            exists|c: int| item_of::<T>(c) == *t && final(w).renders@ == #[trigger] old(w).renders@.push(c),
            final(w).shown == old(w).shown, same_place(*old(w), *final(w)),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
// PartialEq of the items
uninterp spec fn teq<T>(a: T, b: T) -> bool;
#[verifier::external_body]
fn vx_eq<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r == teq(*a, *b), { a == b }
// equal items have equal keys
spec fn coherent<T, K>(f: KeyFn<T, K>) -> bool {
    forall|a: T, b: T| #[trigger] teq(a, b) ==> key_of(f, a) == key_of(f, b)
}
// std
pub assume_specification<T, A>[std::collections::VecDeque::<T, A>::is_empty](v: &std::collections::VecDeque<T, A>) -> (r: bool)
    where A: std::alloc::Allocator,
    ensures r == (v@.len() == 0),
;
#[verifier::external_body]
fn vx_entry<'a, K: Eq + Hash, V>(m: &'a mut HashMap<K, VecDeque<V>>, k: K) -> (r: &'a mut VecDeque<V>)
    requires obeys_key_model::<K>(),
    ensures
        r@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Seq::empty() }),
        final(m)@ == old(m)@.insert(k, *final(r)),
{ m.entry(k).or_default() }
#[verifier::external_body]
fn vx_items<T>(v: VecDeque<T>) -> (r: Vec<T>) ensures r@ == v@ { v.into_iter().collect() }
#[verifier::external_body]
fn vx_refs<T>(v: &VecDeque<T>) -> (r: Vec<&T>) ensures r@.unref() == v@ { v.iter().collect() }
#[verifier::external_body]
fn vx_deque<T>(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { v.into_iter().collect() }
#[verifier::external_body]
fn vx_take<T>(v: &mut VecDeque<T>) -> (r: VecDeque<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }

#[verifier::external_body]
struct DropResource { _p: () }
#[verifier::external_body]
struct DomElement { _p: () }
#[verifier::external_body]
struct DomText { _p: () }
#[verifier::external_body]
struct DomComment { _p: () }
impl DomElement {
    uninterp spec fn id(self) -> DomId;
    #[verifier::external_body]
    fn id_dom(&self) -> (r: DomId) ensures r == self.id(), { unimplemented!() }
}
impl DomText {
    uninterp spec fn id(self) -> DomId;
    #[verifier::external_body]
    fn id_dom(&self) -> (r: DomId) ensures r == self.id(), { unimplemented!() }
}
impl DomComment {
    uninterp spec fn id(self) -> DomId;
    #[verifier::external_body]
    fn id_dom(&self) -> (r: DomId) ensures r == self.id(), { unimplemented!() }
}

//@file crates/vertigo/src/dom/dom_id.rs
//@item struct DomId
struct DomId(u64);
//@end
//@file crates/vertigo/src/dom/dom_node.rs
//@item enum DomNode
pub enum DomNode {
    Node { node: DomElement },
    Text { node: DomText },
    Comment { node: DomComment },
}
//@end
spec fn nid(n: DomNode) -> DomId {
    match n {
        DomNode::Node { node } => node.id(),
        DomNode::Text { node } => node.id(),
        DomNode::Comment { node } => node.id(),
    }
}
impl DomNode {
//@item impl DomNode :: fn id_dom
    pub fn id_dom(&self) -> «(r:» DomId «) ensures r == nid(*self),»
    {
        match self {
            Self::Node { node } => node.id_dom(),
            Self::Text { node } => node.id_dom(),
            Self::Comment { node } => node.id_dom(),
        }
    }
//@end
}

// ---- sequences -------------------------------------------------------------------------------------------------------
spec fn ids<T>(s: Seq<(T, DomNode)>) -> Seq<DomId> { s.map_values(|p: (T, DomNode)| nid(p.1)) }
spec fn nids(s: Seq<DomNode>) -> Seq<DomId> { s.map_values(|p: DomNode| nid(p)) }
spec fn items<T>(s: Seq<(T, DomNode)>) -> Seq<T> { s.map_values(|p: (T, DomNode)| p.0) }

proof fn lemma_rid_add(a: Seq<DomId>, b: Seq<DomId>, g: Set<DomId>)
    ensures rid(a + b, g) == rid(a, g) + rid(b, g),
{
    Seq::filter_distributes_over_add(a, b, |y: DomId| !g.contains(y));
}
proof fn lemma_rid_same(a: Seq<DomId>, g: Set<DomId>)
    requires forall|i: int| 0 <= i < a.len() ==> !g.contains(#[trigger] a[i]),
    ensures rid(a, g) == a,
    decreases a.len(),
{
    reveal(Seq::filter);
    if a.len() > 0 {
        lemma_rid_same(a.drop_last(), g);
        assert(a =~= a.drop_last().push(a.last()));
        assert(!g.contains(a[a.len() - 1]));
    }
}
proof fn lemma_rid_none(a: Seq<DomId>, g: Set<DomId>)
    requires forall|i: int| 0 <= i < a.len() ==> g.contains(#[trigger] a[i]),
    ensures rid(a, g) == Seq::<DomId>::empty(),
    decreases a.len(),
{
    reveal(Seq::filter);
    if a.len() > 0 {
        lemma_rid_none(a.drop_last(), g);
        assert(g.contains(a[a.len() - 1]));
    }
}
proof fn lemma_rid_contains(a: Seq<DomId>, g: Set<DomId>, x: DomId)
    ensures rid(a, g).contains(x) <==> (a.contains(x) && !g.contains(x)),
    decreases a.len(),
{
    reveal(Seq::filter);
    if a.len() > 0 {
        let d = a.drop_last();
        lemma_rid_contains(d, g, x);
        assert(a =~= d.push(a.last()));
        assert(a.contains(x) <==> d.contains(x) || a.last() == x) by {
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(a[i] == x); }
            if a.last() == x { assert(a[a.len() - 1] == x); }
        }
        if !g.contains(a.last()) {
            let f = rid(d, g);
            let e = f.push(a.last());
            assert(rid(a, g) == e);
            if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(e[i] == x); }
            if a.last() == x { assert(e[f.len() as int] == x); }
            if e.contains(x) { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; if i < f.len() { assert(f[i] == x); } }
        }
    }
}
proof fn lemma_rid_rid(a: Seq<DomId>, g: Set<DomId>, h: Set<DomId>)
    ensures rid(rid(a, g), h) == rid(a, g.union(h)),
    decreases a.len(),
{
    reveal(Seq::filter);
    if a.len() > 0 {
        lemma_rid_rid(a.drop_last(), g, h);
        if !g.contains(a.last()) {
            let f = rid(a.drop_last(), g);
            assert(f.push(a.last()).drop_last() =~= f);
        }
    }
}
proof fn lemma_ins(a: Seq<DomId>, x: DomId, r: DomId, b: Seq<DomId>)
    requires !a.contains(r),
    ensures ins(a + seq![r] + b, x, r) == a + seq![x] + seq![r] + b,
    decreases a.len(),
{
    let s = a + seq![r] + b;
    if a.len() == 0 {
        assert(s[0] == r);
        assert(seq![x] + s =~= a + seq![x] + seq![r] + b);
    } else {
        let t = a.skip(1);
        assert(a[0] != r);
        assert(forall|y: DomId| t.contains(y) ==> a.contains(y)) by {
            assert forall|y: DomId| t.contains(y) implies a.contains(y) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; assert(a[i + 1] == y); }
        }
        lemma_ins(t, x, r, b);
        assert(s.skip(1) =~= t + seq![r] + b);
        assert(s[0] == a[0]);
        assert(seq![a[0]] + (t + seq![x] + seq![r] + b) =~= a + seq![x] + seq![r] + b);
    }
}
proof fn lemma_ins_contains(s: Seq<DomId>, x: DomId, r: DomId, y: DomId)
    requires s.contains(y) || y == x,
    ensures ins(s, x, r).contains(y),
    decreases s.len(),
{
    let o = ins(s, x, r);
    if s.len() == 0 {
        assert(o[0] == x);
    } else if s[0] == r {
        if y == x { assert(o[0] == x); } else {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
            assert(o[i + 1] == y);
        }
    } else {
        let t = s.skip(1);
        if s[0] == y && y != x { assert(o[0] == y); } else {
            if y != x { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i - 1] == y); }
            lemma_ins_contains(t, x, r, y);
            let q = ins(t, x, r);
            let i = choose|i: int| 0 <= i < q.len() && q[i] == y;
            assert(o[i + 1] == y);
        }
    }
}
proof fn lemma_mv_contains(s: Seq<DomId>, x: DomId, r: DomId, y: DomId)
    requires s.contains(y),
    ensures mv(s, x, r).contains(y),
{
    lemma_rid_contains(s, set![x], y);
    lemma_ins_contains(rid(s, set![x]), x, r, y);
}
proof fn lemma_place(p: Seq<DomId>, r: DomId, q: Seq<DomId>, xs: Seq<DomId>)
    requires
        xs.no_duplicates(), !xs.contains(r), !p.contains(r),
        forall|i: int| 0 <= i < xs.len() ==> !q.contains(#[trigger] xs[i]),
    ensures
        place(p + seq![r] + q, xs, r) == rid(p, xs.to_set()) + xs + seq![r] + q,
    decreases xs.len(),
{
    let s = p + seq![r] + q;
    if xs.len() == 0 {
        assert(xs.to_set() =~= Set::<DomId>::empty());
        lemma_rid_same(p, xs.to_set());
        assert(s =~= rid(p, xs.to_set()) + xs + seq![r] + q);
    } else {
        let d = xs.drop_last();
        let x = xs.last();
        assert(xs =~= d.push(x));
        assert(xs[xs.len() - 1] == x);
        assert(!d.contains(r)) by { if d.contains(r) { let i = choose|i: int| 0 <= i < d.len() && d[i] == r; assert(xs[i] == r); } }
        assert(!d.contains(x)) by { if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(xs[i] == x); } }
        assert forall|i: int| 0 <= i < d.len() implies !q.contains(#[trigger] d[i]) by { assert(xs[i] == d[i]); }
        lemma_place(p, r, q, d);
        let f = rid(p, d.to_set());
        let g = set![x];
        lemma_rid_add(f + d + seq![r], q, g);
        lemma_rid_add(f + d, seq![r], g);
        lemma_rid_add(f, d, g);
        assert forall|i: int| 0 <= i < q.len() implies !g.contains(#[trigger] q[i]) by { assert(q.contains(q[i])); }
        lemma_rid_same(q, g);
        lemma_rid_same(seq![r], g);
        assert forall|i: int| 0 <= i < d.len() implies !g.contains(#[trigger] d[i]) by { assert(d.contains(d[i])); }
        lemma_rid_same(d, g);
        lemma_rid_rid(p, d.to_set(), g);
        assert(d.to_set().union(g) =~= xs.to_set()) by {
            assert forall|y: DomId| d.to_set().union(g).contains(y) <==> xs.to_set().contains(y) by {
                if d.contains(y) { let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert(xs[i] == y); }
                if xs.contains(y) { let i = choose|i: int| 0 <= i < xs.len() && xs[i] == y; if i < d.len() { assert(d[i] == y); } }
            }
        }
        let e = rid(p, xs.to_set());
        assert(!(e + d).contains(r)) by {
            lemma_rid_contains(p, xs.to_set(), r);
            let ed = e + d;
            if ed.contains(r) {
                let i = choose|i: int| 0 <= i < ed.len() && ed[i] == r;
                if i < e.len() { assert(e[i] == r); } else { assert(d[i - e.len()] == r); }
            }
        }
        lemma_ins(e + d, x, r, q);
        assert(e + d + seq![x] =~= e + xs);
    }
}

// ---- counting by key ---------------------------------------------------------------------------------------------------
spec fn cnt<T, K>(f: KeyFn<T, K>, s: Seq<T>, k: K) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { cnt(f, s.drop_last(), k) + if key_of(f, s.last()) == k { 1nat } else { 0nat } }
}
proof fn lemma_cnt_add<T, K>(f: KeyFn<T, K>, a: Seq<T>, b: Seq<T>, k: K)
    ensures cnt(f, a + b, k) == cnt(f, a, k) + cnt(f, b, k),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_cnt_add(f, a, b.drop_last(), k);
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_cnt_same<T, K>(f: KeyFn<T, K>, a: Seq<T>, b: Seq<T>, k: K)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> key_of(f, #[trigger] a[i]) == key_of(f, b[i]),
    ensures cnt(f, a, k) == cnt(f, b, k),
    decreases b.len(),
{
    if b.len() > 0 {
        assert(key_of(f, a[a.len() - 1]) == key_of(f, b[a.len() - 1]));
        assert forall|i: int| 0 <= i < a.len() - 1 implies key_of(f, #[trigger] a.drop_last()[i]) == key_of(f, b.drop_last()[i]) by { assert(a[i] == a.drop_last()[i]); }
        lemma_cnt_same(f, a.drop_last(), b.drop_last(), k);
    }
}
spec fn rendered<T>(r: Seq<int>) -> Seq<T> { r.map_values(|c: int| item_of::<T>(c)) }
// as many as needed beyond those that are there
spec fn lacking(new: nat, old: nat) -> nat { if new > old { (new - old) as nat } else { 0 } }

// what is remembered for each key
spec fn queue<K>(m: Map<K, VecDeque<DomNode>>, k: K) -> Seq<DomNode> {
    if m.contains_key(k) { m[k]@ } else { Seq::empty() }
}
// every node is of an item with the key of its place
spec fn good<T, K>(f: KeyFn<T, K>, s: Seq<(T, DomNode)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> key_of(f, origin::<T>(#[trigger] s[i].1)) == key_of(f, s[i].0)
}
spec fn within<T, K>(f: KeyFn<T, K>, m: Map<K, VecDeque<DomNode>>, from: Seq<DomId>) -> bool {
    forall|k: K, j: int| 0 <= j < queue(m, k).len() ==> from.contains(nid(#[trigger] queue(m, k)[j])) && key_of(f, origin::<T>(queue(m, k)[j])) == k
}
spec fn distinct<K>(m: Map<K, VecDeque<DomNode>>) -> bool {
    forall|k: K, j: int, l: K, i: int| 0 <= j < queue(m, k).len() && 0 <= i < queue(m, l).len()
        && nid(#[trigger] queue(m, k)[j]) == nid(#[trigger] queue(m, l)[i]) ==> k == l && j == i
}
spec fn outside<K>(m: Map<K, VecDeque<DomNode>>, o: Seq<DomId>) -> bool {
    forall|k: K, j: int| 0 <= j < queue(m, k).len() ==> !o.contains(nid(#[trigger] queue(m, k)[j]))
}
// the marker's contents: these nodes, in this order, between what stands before and behind them
spec fn shows(w: World, n: Seq<DomId>) -> bool {
    w.shown@ == w.pre@ + n + seq![w.own@] + w.post@
}
spec fn tracked_by(w: World) -> bool {
    w.shown@.no_duplicates() && forall|i: int| 0 <= i < w.shown@.len() ==> w.used@.contains(#[trigger] w.shown@[i])
}
// the list is shown, in order, and every node is of an item with the right key
spec fn inv<T, K>(w: World, f: KeyFn<T, K>, s: Seq<(T, DomNode)>) -> bool {
    shows(w, ids(s)) && tracked_by(w) && good(f, s)
}
// the result of an update: one node for each new item, of an item with the same key; the nodes are old ones or new ones, and
// of each key as many are new as there were too few
spec fn updated<T, K>(a: World, b: World, f: KeyFn<T, K>, old: Seq<(T, DomNode)>, new: Seq<T>, out: Seq<(T, DomNode)>) -> bool {
    &&& out.len() == new.len()
    &&& good(f, out)
    &&& forall|i: int| 0 <= i < new.len() ==> key_of(f, #[trigger] out[i].0) == key_of(f, new[i])
    &&& forall|i: int| 0 <= i < out.len() ==> ids(old).contains(nid(#[trigger] out[i].1)) || !a.used@.contains(nid(out[i].1))
    &&& forall|k: K| #[trigger] cnt(f, rendered::<T>(b.renders@), k) == cnt(f, rendered::<T>(a.renders@), k) + lacking(cnt(f, new, k), cnt(f, items(old), k))
}

//@file crates/vertigo/src/render/dom_list.rs
//@item fn is_marker
fn is_marker(node: &DomNode) -> «(r:» bool «) ensures r == (*node is Comment),»
{
    matches!(node, DomNode::Comment { .. })
}
//@end
// how many markers the list begins with
spec fn leading<T>(s: Seq<(T, DomNode)>) -> nat
    decreases s.len(),
{
    if s.len() > 0 && s[0].1 is Comment { 1 + leading(s.skip(1)) } else { 0 }
}
proof fn lemma_leading<T>(s: Seq<(T, DomNode)>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).1 is Comment, n < s.len() ==> !(s[n].1 is Comment),
    ensures leading(s) == n,
    decreases n,
{
    if n > 0 {
        assert(s[0].1 is Comment);
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] t[i]).1 is Comment by { assert(s[i + 1].1 is Comment); }
        lemma_leading(t, n - 1);
    }
}
proof fn lemma_leading_bound<T>(s: Seq<(T, DomNode)>)
    ensures leading(s) <= s.len(), leading(s) < s.len() ==> !(s[leading(s) as int].1 is Comment),
        forall|i: int| 0 <= i < leading(s) ==> (#[trigger] s[i]).1 is Comment,
    decreases s.len(),
{
    if s.len() > 0 && s[0].1 is Comment {
        lemma_leading_bound(s.skip(1));
        assert forall|i: int| 0 <= i < leading(s) implies (#[trigger] s[i]).1 is Comment by {
            if i > 0 { assert(s.skip(1)[i - 1].1 is Comment); }
        }
    }
}
//@item fn find_first_dom
// The first node before which other nodes can be placed. Not a marker, as its contents are placed before it.
fn find_first_dom<T>(list: &VecDeque<(T, DomNode)>) -> «(r:» Option<DomId>«)
    ensures
        r is None <==> leading(list@) == list@.len(),
        r is Some ==> r->0 == nid(list@[leading(list@) as int].1) && solid(r->0),»
{
«    let vx_l = vx_refs(list);
    proof { lemma_leading_bound(list@); }»
    for (_, node) in «it:» ⟦list.iter()⇒vx_l⟧
«        invariant
            it.seq().unref() == list@,
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] list@[i]).1 is Comment,»
    {
«        assert(it.seq().unref()[it.index@] == list@[it.index@]);»
        if !is_marker(node) {
«            proof { lemma_leading(list@, it.index@ as int); axiom_solid(*node); }»
            return Some(node.id_dom());
        }
    }
«    proof { lemma_leading(list@, list@.len() as int); }»

    None
}
//@end
//@item fn move_markers
// The markers at the beginning of the list have to be moved (with their contents) behind the nodes just placed
fn move_markers<T>(parent_id: DomId, last_before: DomId, list: &VecDeque<(T, DomNode)>«, w: &mut World»)
«    requires
        parent_id == old(w).parent@,
        last_before == old(w).own@ || solid(last_before),
        old(w).shown@.contains(last_before),
        forall|i: int| 0 <= i < leading(list@) ==> nid((#[trigger] list@[i]).1) != last_before,
    ensures
        final(w).shown@ == place(old(w).shown@, ids(list@).take(leading(list@) as int), last_before),
        final(w).used == old(w).used, final(w).renders == old(w).renders, same_place(*old(w), *final(w)),»
{
    ⟦let driver = get_driver();⇒⟧

«    let vx_l = vx_refs(list);
    proof { lemma_leading_bound(list@); }
    assert(ids(list@).take(0) =~= Seq::<DomId>::empty());»
    for (_, node) in «it:» ⟦list.iter()⇒vx_l⟧
«        invariant
            it.seq().unref() == list@,
            parent_id == w.parent@, same_place(*old(w), *w), w.used == old(w).used, w.renders == old(w).renders,
            last_before == old(w).own@ || solid(last_before),
            w.shown@.contains(last_before),
            it.index@ <= leading(list@) <= list@.len(),
            forall|i: int| 0 <= i < leading(list@) ==> (#[trigger] list@[i]).1 is Comment,
            leading(list@) < list@.len() ==> !(list@[leading(list@) as int].1 is Comment),
            forall|i: int| 0 <= i < leading(list@) ==> nid((#[trigger] list@[i]).1) != last_before,
            w.shown@ == place(old(w).shown@, ids(list@).take(it.index@ as int), last_before),»
    {
«        assert(it.seq().unref()[it.index@] == list@[it.index@]);»
        if !is_marker(node) {
            return;
        }

«        proof {
            let i = it.index@ as int;
            assert(i < leading(list@));
            let n = ids(list@).take(i + 1);
            assert(n.drop_last() =~= ids(list@).take(i));
            assert(n.last() == nid(list@[i].1));
            lemma_mv_contains(w.shown@, nid(list@[i].1), last_before, last_before);
        }»
        ⟦driver
            .inner
            .dom
            .insert_before⇒w.insert_before⟧(parent_id, node.id_dom(), Some(last_before));
    }
}
//@end

// Try to match starting from top
//@item fn get_pairs_top
fn get_pairs_top<T: PartialEq>(
    current: &mut VecDeque<(T, DomNode)>,
    new_child: &mut VecDeque<T>,
) -> «(r:» VecDeque<(T, DomNode)>«)
    ensures
        old(current)@ == r@ + final(current)@,
        old(new_child)@.len() == r@.len() + final(new_child)@.len(),
        final(new_child)@ == old(new_child)@.skip(r@.len() as int),
        forall|i: int| 0 <= i < r@.len() ==> teq((#[trigger] r@[i]).0, old(new_child)@[i]),»
{
    let mut pairs_top = VecDeque::new();

    loop
«        invariant
            old(current)@ =~= pairs_top@ + current@,
            old(new_child)@.len() == pairs_top@.len() + new_child@.len(),
            new_child@ =~= old(new_child)@.skip(pairs_top@.len() as int),
            forall|i: int| 0 <= i < pairs_top@.len() ==> teq((#[trigger] pairs_top@[i]).0, old(new_child)@[i]),
        decreases current@.len(),»
    {
«        let ghost vx_c = current@; let ghost vx_n = new_child@;»
        let node = current.pop_front();
        let child = new_child.pop_front();

        match (node, child) {
            (Some((id1, node)), Some(id2)) => {
                if ⟦id1 == id2⇒vx_eq(&id1, &id2)⟧ {
                    pairs_top.push_back((id1, node));
                    continue;
                }

                current.push_front((id1, node));
                new_child.push_front(id2);
            }
            (Some(pair), None) => {
                current.push_front(pair);
            }
            (None, Some(child)) => {
                new_child.push_front(child);
            }
            (None, None) => {}
        }

«        assert(current@ =~= vx_c); assert(new_child@ =~= vx_n);»
        return pairs_top;
    }
}
//@end

// Try to match starting from bottom
//@item fn get_pairs_bottom
fn get_pairs_bottom<T: PartialEq>(
    current: &mut VecDeque<(T, DomNode)>,
    new_child: &mut VecDeque<T>,
) -> «(r:» VecDeque<(T, DomNode)>«)
    ensures
        old(current)@ == final(current)@ + r@,
        old(new_child)@.len() == r@.len() + final(new_child)@.len(),
        final(new_child)@ == old(new_child)@.take(final(new_child)@.len() as int),
        forall|i: int| 0 <= i < r@.len() ==> teq((#[trigger] r@[i]).0, old(new_child)@[i + final(new_child)@.len()]),»
{
    let mut pairs_bottom = VecDeque::new();

    loop
«        invariant
            old(current)@ =~= current@ + pairs_bottom@,
            old(new_child)@.len() == pairs_bottom@.len() + new_child@.len(),
            new_child@ =~= old(new_child)@.take(new_child@.len() as int),
            forall|i: int| 0 <= i < pairs_bottom@.len() ==> teq((#[trigger] pairs_bottom@[i]).0, old(new_child)@[i + new_child@.len()]),
        decreases current@.len(),»
    {
«        let ghost vx_c = current@; let ghost vx_n = new_child@; let ghost vx_b = pairs_bottom@;»
        let node = current.pop_back();
        let child = new_child.pop_back();

        match (node, child) {
            (Some((id1, node)), Some(id2)) => {
                if ⟦id1 == id2⇒vx_eq(&id1, &id2)⟧ {
                    pairs_bottom.push_front((id1, node));
«                    assert forall|i: int| 0 <= i < pairs_bottom@.len() implies teq((#[trigger] pairs_bottom@[i]).0, old(new_child)@[i + new_child@.len()]) by {
                        if i > 0 { assert(pairs_bottom@[i] == vx_b[i - 1]); }
                    }»
                    continue;
                }

                current.push_back((id1, node));
                new_child.push_back(id2);
            }
            (Some(node), None) => {
                current.push_back(node);
            }
            (None, Some(child)) => {
                new_child.push_back(child);
            }
            (None, None) => {}
        }

«        assert(current@ =~= vx_c); assert(new_child@ =~= vx_n);»
        return pairs_bottom;
    }
}
//@end

#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(K)]
//@item struct CacheNode
struct CacheNode<K: Eq + Hash, T> {
    get_key: ⟦Rc<dyn Fn(&T) -> K + 'static>⇒KeyFn<T, K>⟧,
    create_new: ⟦Rc<dyn Fn(&T) -> DomNode + 'static>⇒RenderFn<T>⟧,
    data: HashMap<K, VecDeque<DomNode>>,
}
//@end
impl<K: Eq + Hash, T> CacheNode<K, T> {
//@item impl CacheNode :: fn new
    pub fn new(
        get_key: ⟦Rc<dyn Fn(&T) -> K + 'static>⇒KeyFn<T, K>⟧,
        create_new: ⟦Rc<dyn Fn(&T) -> DomNode + 'static>⇒RenderFn<T>⟧,
    ) -> «(r:» CacheNode<K, T>«)
        requires obeys_key_model::<K>(),
        ensures r.get_key == get_key, forall|k: K| #[trigger] queue(r.data@, k).len() == 0,»
    {
        CacheNode {
            get_key,
            create_new,
            data: HashMap::new(),
        }
    }
//@end
//@item impl CacheNode :: fn insert
    pub fn insert(&mut self, item: &T, element: DomNode)
«        requires obeys_key_model::<K>(),
        ensures
            final(self).get_key == old(self).get_key,
            forall|k: K| #[trigger] queue(final(self).data@, k) == (if k == key_of(old(self).get_key, *item) { queue(old(self).data@, k).push(element) } else { queue(old(self).data@, k) }),»
    {
        let key = ⟦(self.get_key)(item)⇒self.get_key.call(item)⟧;
        let item = ⟦self.data.entry(key).or_default()⇒vx_entry(&mut self.data, key)⟧;
        item.push_back(element);
    }
//@end
//@item impl CacheNode :: fn get_or_create
    pub fn get_or_create(&mut self, item: &T«, w: &mut World») -> «(r:» DomNode«)
        requires obeys_key_model::<K>(),
        ensures
            final(self).get_key == old(self).get_key,
            final(w).shown == old(w).shown, same_place(*old(w), *final(w)),
            ({
                let key = key_of(old(self).get_key, *item);
                let q = queue(old(self).data@, key);
                if q.len() > 0 {
                    &&& r == q[0]
                    &&& *final(w) == *old(w)
                    &&& forall|k: K| #[trigger] queue(final(self).data@, k) == (if k == key { q.skip(1) } else { queue(old(self).data@, k) })
                } else {
                    &&& origin::<T>(r) == *item
                    &&& !old(w).used@.contains(nid(r))
                    &&& final(w).used@ == old(w).used@.insert(nid(r))
                    &&& exists|c: int| item_of::<T>(c) == *item && final(w).renders@ == #[trigger] old(w).renders@.push(c)
                    &&& forall|k: K| #[trigger] queue(final(self).data@, k) == queue(old(self).data@, k)
                }
            }),»
    {
        let key = ⟦(self.get_key)(item)⇒self.get_key.call(item)⟧;
«        let ghost vx_key = key;»
        let element = ⟦self.data.entry(key).or_default()⇒vx_entry(&mut self.data, key)⟧.pop_front();

        ⟦let CacheNode { create_new, .. } = self;⇒⟧

«        proof {
            let q = queue(old(self).data@, vx_key);
            assert forall|k: K| #[trigger] queue(self.data@, k) =~= (if k == vx_key { if q.len() > 0 { q.skip(1) } else { q } } else { queue(old(self).data@, k) }) by {}
        }»
        match element {
            Some(node) => node,
            None => ⟦create_new(item)⇒self.create_new.call(item, w)⟧,
        }
    }
//@end
}

// what is known while the list is put together: prev are the old nodes, m what is still there of them, done the items handled
spec fn pooled<T, K>(w0: World, w: World, f: KeyFn<T, K>, m: Map<K, VecDeque<DomNode>>, prev: Seq<(T, DomNode)>, done: Seq<T>, out: Seq<(T, DomNode)>) -> bool {
    &&& within(f, m, ids(prev))
    &&& distinct(m)
    &&& outside(m, ids(out))
    &&& good(f, out)
    &&& items(out) == done
    &&& ids(out).no_duplicates()
    &&& forall|i: int| 0 <= i < out.len() ==> (ids(prev).contains(nid(#[trigger] out[i].1)) || !w0.used@.contains(nid(out[i].1))) && w.used@.contains(nid(out[i].1))
    &&& forall|d: DomId| w0.used@.contains(d) ==> #[trigger] w.used@.contains(d)
    &&& forall|k: K| #[trigger] queue(m, k).len() == lacking(cnt(f, items(prev), k), cnt(f, done, k))
    &&& forall|k: K| #[trigger] cnt(f, rendered::<T>(w.renders@), k) == cnt(f, rendered::<T>(w0.renders@), k) + lacking(cnt(f, done, k), cnt(f, items(prev), k))
}
proof fn lemma_pooled_step<T, K>(w0: World, a: World, b: World, f: KeyFn<T, K>, m: Map<K, VecDeque<DomNode>>, n: Map<K, VecDeque<DomNode>>,
    prev: Seq<(T, DomNode)>, done: Seq<T>, out: Seq<(T, DomNode)>, item: T, node: DomNode)
    requires
        pooled(w0, a, f, m, prev, done, out),
        forall|i: int| 0 <= i < prev.len() ==> w0.used@.contains(nid(#[trigger] prev[i].1)),
        ({
            let key = key_of(f, item);
            let q = queue(m, key);
            if q.len() > 0 {
                &&& node == q[0]
                &&& b.used == a.used && b.renders == a.renders
                &&& forall|k: K| #[trigger] queue(n, k) == (if k == key { q.skip(1) } else { queue(m, k) })
            } else {
                &&& origin::<T>(node) == item
                &&& !a.used@.contains(nid(node))
                &&& b.used@ == a.used@.insert(nid(node))
                &&& exists|c: int| item_of::<T>(c) == item && b.renders@ == #[trigger] a.renders@.push(c)
                &&& forall|k: K| #[trigger] queue(n, k) == queue(m, k)
            }
        }),
    ensures
        pooled(w0, b, f, n, prev, done.push(item), out.push((item, node))),
{
    let key = key_of(f, item);
    let q = queue(m, key);
    let o = out.push((item, node));
    let d = done.push(item);
    assert(d.drop_last() =~= done);
    assert forall|k: K| cnt(f, d, k) == #[trigger] cnt(f, done, k) + (if k == key { 1nat } else { 0nat }) by {}
    assert(items(o) =~= items(out).push(item));
    assert(ids(o) =~= ids(out).push(nid(node)));
    if q.len() > 0 {
        assert(queue(m, key)[0] == node);
        assert forall|k: K, j: int| 0 <= j < queue(n, k).len() implies (#[trigger] queue(n, k)[j]) == queue(m, k)[if k == key { j + 1 } else { j }] by {}
        assert forall|k: K, j: int| 0 <= j < queue(n, k).len() implies ids(prev).contains(nid(#[trigger] queue(n, k)[j])) && key_of(f, origin::<T>(queue(n, k)[j])) == k by {
            assert(queue(n, k)[j] == queue(m, k)[if k == key { j + 1 } else { j }]);
        }
        assert forall|k: K, j: int, l: K, i: int| 0 <= j < queue(n, k).len() && 0 <= i < queue(n, l).len()
            && nid(#[trigger] queue(n, k)[j]) == nid(#[trigger] queue(n, l)[i]) implies k == l && j == i by {
            assert(queue(n, k)[j] == queue(m, k)[if k == key { j + 1 } else { j }]);
            assert(queue(n, l)[i] == queue(m, l)[if l == key { i + 1 } else { i }]);
        }
        assert forall|k: K, j: int| 0 <= j < queue(n, k).len() implies !ids(o).contains(nid(#[trigger] queue(n, k)[j])) by {
            let x = queue(n, k)[j];
            assert(x == queue(m, k)[if k == key { j + 1 } else { j }]);
            if ids(o).contains(nid(x)) {
                let i = choose|i: int| 0 <= i < ids(o).len() && ids(o)[i] == nid(x);
                if i < out.len() { assert(ids(out)[i] == nid(x)); }
            }
        }
        let i = choose|i: int| 0 <= i < ids(prev).len() && ids(prev)[i] == nid(node);
        assert(ids(prev).contains(nid(node)));
        assert(w0.used@.contains(nid(prev[i].1)));
        if ids(out).contains(nid(node)) { assert(false); }
        assert(b.renders == a.renders);
    } else {
        assert forall|k: K, j: int| 0 <= j < queue(n, k).len() implies ids(prev).contains(nid(#[trigger] queue(n, k)[j])) && key_of(f, origin::<T>(queue(n, k)[j])) == k by {
            assert(queue(n, k)[j] == queue(m, k)[j]);
        }
        assert forall|k: K, j: int, l: K, i: int| 0 <= j < queue(n, k).len() && 0 <= i < queue(n, l).len()
            && nid(#[trigger] queue(n, k)[j]) == nid(#[trigger] queue(n, l)[i]) implies k == l && j == i by {
            assert(queue(n, k)[j] == queue(m, k)[j]);
            assert(queue(n, l)[i] == queue(m, l)[i]);
        }
        assert forall|k: K, j: int| 0 <= j < queue(n, k).len() implies !ids(o).contains(nid(#[trigger] queue(n, k)[j])) by {
            let x = queue(n, k)[j];
            assert(x == queue(m, k)[j]);
            if ids(o).contains(nid(x)) {
                let i = choose|i: int| 0 <= i < ids(o).len() && ids(o)[i] == nid(x);
                if i < out.len() { assert(ids(out)[i] == nid(x)); } else {
                    let r = choose|r: int| 0 <= r < ids(prev).len() && ids(prev)[r] == nid(x);
                    assert(w0.used@.contains(nid(prev[r].1)));
                }
            }
        }
        if ids(out).contains(nid(node)) {
            let i = choose|i: int| 0 <= i < ids(out).len() && ids(out)[i] == nid(node);
            assert(a.used@.contains(nid(out[i].1)));
        }
        let c = choose|c: int| item_of::<T>(c) == item && b.renders@ == #[trigger] a.renders@.push(c);
        assert(rendered::<T>(b.renders@) =~= rendered::<T>(a.renders@).push(item));
        assert(rendered::<T>(b.renders@).drop_last() =~= rendered::<T>(a.renders@));
        assert(queue(m, key).len() == lacking(cnt(f, items(prev), key), cnt(f, done, key)));
    }
    assert forall|k: K| #[trigger] queue(n, k).len() == lacking(cnt(f, items(prev), k), cnt(f, d, k)) by {
        assert(queue(m, k).len() == lacking(cnt(f, items(prev), k), cnt(f, done, k)));
        assert(cnt(f, d, k) == cnt(f, done, k) + (if k == key { 1nat } else { 0nat }));
    }
    assert forall|k: K| #[trigger] cnt(f, rendered::<T>(b.renders@), k) == cnt(f, rendered::<T>(w0.renders@), k) + lacking(cnt(f, d, k), cnt(f, items(prev), k)) by {
        assert(cnt(f, rendered::<T>(a.renders@), k) == cnt(f, rendered::<T>(w0.renders@), k) + lacking(cnt(f, done, k), cnt(f, items(prev), k)));
        assert(queue(m, k).len() == lacking(cnt(f, items(prev), k), cnt(f, done, k)));
        assert(cnt(f, d, k) == cnt(f, done, k) + (if k == key { 1nat } else { 0nat }));
    }
    assert forall|i: int| 0 <= i < o.len() implies (ids(prev).contains(nid(#[trigger] o[i].1)) || !w0.used@.contains(nid(o[i].1))) && b.used@.contains(nid(o[i].1)) by {
        if i < out.len() { assert(o[i] == out[i]); }
    }
    assert forall|i: int| 0 <= i < o.len() implies key_of(f, origin::<T>(#[trigger] o[i].1)) == key_of(f, o[i].0) by {
        if i < out.len() { assert(o[i] == out[i]); }
    }
}

//@item fn get_pairs_middle
fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
    parent_id: DomId,
    last_before: DomId,
    real_child: VecDeque<(T, DomNode)>,
    new_child: VecDeque<T>,
    get_key: ⟦Rc<dyn Fn(&T) -> K + 'static>⇒KeyFn<T, K>⟧,
    render: ⟦Rc<dyn Fn(&T) -> DomNode + 'static>⇒RenderFn<T>⟧,«
    w: &mut World»
) -> «(r:» VecDeque<(T, DomNode)>«)
    requires
        obeys_key_model::<K>(),
        parent_id == old(w).parent@,
        last_before == old(w).own@ || solid(last_before),
        old(w).shown@.contains(last_before),
        old(w).used@.contains(last_before),
        good(get_key, real_child@),
        ids(real_child@).no_duplicates(),
        !ids(real_child@).contains(last_before),
        forall|i: int| 0 <= i < real_child@.len() ==> old(w).used@.contains(nid(#[trigger] real_child@[i].1)),
    ensures
        items(r@) == new_child@,
        good(get_key, r@),
        ids(r@).no_duplicates(),
        !ids(r@).contains(last_before),
        forall|i: int| 0 <= i < r@.len() ==> (ids(real_child@).contains(nid(#[trigger] r@[i].1)) || !old(w).used@.contains(nid(r@[i].1))) && final(w).used@.contains(nid(r@[i].1)),
        forall|d: DomId| old(w).used@.contains(d) ==> #[trigger] final(w).used@.contains(d),
        forall|k: K| #[trigger] cnt(get_key, rendered::<T>(final(w).renders@), k) == cnt(get_key, rendered::<T>(old(w).renders@), k) + lacking(cnt(get_key, new_child@, k), cnt(get_key, items(real_child@), k)),
        final(w).shown@ == place(old(w).shown@, ids(r@), last_before),
        same_place(*old(w), *final(w)),»
{
    let mut pairs_middle: VecDeque<(T, DomNode)> = VecDeque::new();

    let mut real_node: CacheNode<K, T> = CacheNode::new(get_key, render);

«    let ghost prev = real_child@;
    let ghost f = get_key;
    assert(items(prev.take(0)) =~= Seq::<T>::empty());»
    for (id, node) in «it:» ⟦real_child.into_iter()⇒vx_items(real_child)⟧
«        invariant
            obeys_key_model::<K>(),
            it.seq() == prev,
            real_node.get_key == f,
            good(f, prev), ids(prev).no_duplicates(),
            within(f, real_node.data@, ids(prev.take(it.index@ as int))),
            distinct(real_node.data@),
            forall|k: K| #[trigger] queue(real_node.data@, k).len() == cnt(f, items(prev.take(it.index@ as int)), k),»
    {
«        let ghost i = it.index@ as int;
        let ghost m = real_node.data@;
        assert(prev[i] == (id, node));»
        real_node.insert(&id, node);
«        proof {
            let n = real_node.data@;
            let key = key_of(f, id);
            assert(prev.take(i + 1) =~= prev.take(i).push(prev[i]));
            assert(ids(prev.take(i + 1)) =~= ids(prev.take(i)).push(nid(node)));
            assert(items(prev.take(i + 1)) =~= items(prev.take(i)).push(id));
            assert(items(prev.take(i + 1)).drop_last() =~= items(prev.take(i)));
            assert(!ids(prev.take(i)).contains(nid(node))) by {
                if ids(prev.take(i)).contains(nid(node)) {
                    let x = choose|x: int| 0 <= x < i && ids(prev.take(i))[x] == nid(node);
                    assert(ids(prev)[x] == ids(prev)[i]);
                }
            }
            assert(ids(prev.take(i + 1)).contains(nid(node))) by { assert(ids(prev.take(i + 1))[i] == nid(node)); }
            assert forall|x: DomId| ids(prev.take(i)).contains(x) implies #[trigger] ids(prev.take(i + 1)).contains(x) by {
                let y = choose|y: int| 0 <= y < i && ids(prev.take(i))[y] == x;
                assert(ids(prev.take(i + 1))[y] == x);
            }
            assert forall|k: K, j: int| 0 <= j < queue(n, k).len() implies
                if k == key && j == queue(m, k).len() { #[trigger] queue(n, k)[j] == node } else { queue(n, k)[j] == queue(m, k)[j] && j < queue(m, k).len() } by {}
            assert forall|k: K, j: int, l: K, i: int| 0 <= j < queue(n, k).len() && 0 <= i < queue(n, l).len()
                && nid(#[trigger] queue(n, k)[j]) == nid(#[trigger] queue(n, l)[i]) implies k == l && j == i by {
                if j < queue(m, k).len() { assert(queue(n, k)[j] == queue(m, k)[j]); }
                if i < queue(m, l).len() { assert(queue(n, l)[i] == queue(m, l)[i]); }
            }
        }»
    }

    ⟦let driver = get_driver();⇒⟧

«    assert(prev.take(prev.len() as int) =~= prev);
    let ghost new = new_child@;
    assert(new.take(0) =~= Seq::<T>::empty());
    assert(items(pairs_middle@) =~= Seq::<T>::empty());
    assert(ids(pairs_middle@) =~= Seq::<DomId>::empty());»
    for item in «it:» ⟦new_child.into_iter()⇒vx_items(new_child)⟧
«        invariant
            obeys_key_model::<K>(),
            it.seq() == new,
            real_node.get_key == f,
            parent_id == w.parent@, same_place(*old(w), *w),
            last_before == old(w).own@ || solid(last_before),
            w.shown@.contains(last_before),
            old(w).used@.contains(last_before),
            !ids(prev).contains(last_before),
            forall|i: int| 0 <= i < prev.len() ==> old(w).used@.contains(nid(#[trigger] prev[i].1)),
            pooled(*old(w), *w, f, real_node.data@, prev, new.take(it.index@ as int), pairs_middle@),
            !ids(pairs_middle@).contains(last_before),
            w.shown@ == place(old(w).shown@, ids(pairs_middle@), last_before),»
    {
«        let ghost i = it.index@ as int;
        let ghost m = real_node.data@;
        let ghost a = *w;
        assert(prev =~= prev.take(prev.len() as int));
        assert(new.take(i + 1) =~= new.take(i).push(item));»
        let node = real_node.get_or_create(&item«, w»);

«        proof {
            lemma_pooled_step(*old(w), a, *w, f, m, real_node.data@, prev, new.take(i), pairs_middle@, item, node);
            let o = pairs_middle@.push((item, node));
            assert(ids(o) =~= ids(pairs_middle@).push(nid(node)));
            assert(ids(o).drop_last() =~= ids(pairs_middle@));
            assert(nid(node) != last_before) by {
                assert(nid(o[o.len() - 1].1) == nid(node));
                assert(ids(prev).contains(nid(o[o.len() - 1].1)) || !old(w).used@.contains(nid(node)));
            }
            assert(!ids(o).contains(last_before)) by {
                if ids(o).contains(last_before) {
                    let x = choose|x: int| 0 <= x < ids(o).len() && ids(o)[x] == last_before;
                    if x < pairs_middle@.len() { assert(ids(pairs_middle@)[x] == last_before); }
                }
            }
            lemma_mv_contains(w.shown@, nid(node), last_before, last_before);
        }»
        ⟦driver
            .inner
            .dom
            .insert_before⇒w.insert_before⟧(parent_id, node.id_dom(), Some(last_before));

        pairs_middle.push_back((item, node));
    }

«    assert(new.take(new.len() as int) =~= new);»
    pairs_middle
}
//@end

proof fn lemma_add_contains(a: Seq<DomId>, b: Seq<DomId>)
    ensures forall|y: DomId| #[trigger] (a + b).contains(y) <==> a.contains(y) || b.contains(y),
{
    let s = a + b;
    assert forall|y: DomId| #[trigger] s.contains(y) <==> a.contains(y) || b.contains(y) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < a.len() { assert(a[i] == y); } else { assert(b[i - a.len()] == y); } }
        if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(s[i] == y); }
        if b.contains(y) { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; assert(s[i + a.len()] == y); }
    }
}
proof fn lemma_split(a: Seq<DomId>, b: Seq<DomId>)
    requires (a + b).no_duplicates(),
    ensures a.no_duplicates(), b.no_duplicates(), forall|y: DomId| !(#[trigger] a.contains(y) && #[trigger] b.contains(y)),
{
    let s = a + b;
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(s[i] == a[i] && s[j] == a[j]); }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(s[i + a.len()] == b[i] && s[j + a.len()] == b[j]); }
    assert forall|y: DomId| !(#[trigger] a.contains(y) && #[trigger] b.contains(y)) by {
        if a.contains(y) && b.contains(y) {
            let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
            let j = choose|j: int| 0 <= j < b.len() && b[j] == y;
            assert(s[i] == s[j + a.len()]);
        }
    }
}
proof fn lemma_join(a: Seq<DomId>, b: Seq<DomId>)
    requires a.no_duplicates(), b.no_duplicates(), forall|y: DomId| !(#[trigger] a.contains(y) && #[trigger] b.contains(y)),
    ensures (a + b).no_duplicates(),
{
    let s = a + b;
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if i < a.len() { assert(a.contains(s[i])); } else { assert(b[i - a.len()] == s[i]); assert(b.contains(s[i])); }
        if j < a.len() { assert(a.contains(s[j])); } else { assert(b[j - a.len()] == s[j]); assert(b.contains(s[j])); }
    }
}
// a and b have nothing in common
#[verifier::opaque]
spec fn apart(a: Seq<DomId>, b: Seq<DomId>) -> bool { forall|y: DomId| !(#[trigger] a.contains(y) && #[trigger] b.contains(y)) }
proof fn lemma_apart_swap(a: Seq<DomId>, b: Seq<DomId>)
    requires apart(a, b),
    ensures apart(b, a),
{ reveal(apart); }
proof fn lemma_apart_add(a: Seq<DomId>, b: Seq<DomId>, c: Seq<DomId>)
    requires apart(a, c), apart(b, c),
    ensures apart(a + b, c),
{ reveal(apart); lemma_add_contains(a, b); }
proof fn lemma_apart_sub(a: Seq<DomId>, g: Set<DomId>, c: Seq<DomId>)
    requires apart(a, c),
    ensures apart(rid(a, g), c),
{
    reveal(apart);
    assert forall|y: DomId| !(#[trigger] rid(a, g).contains(y) && #[trigger] c.contains(y)) by { lemma_rid_contains(a, g, y); }
}
proof fn lemma_rid_apart(a: Seq<DomId>, b: Seq<DomId>)
    requires apart(a, b),
    ensures rid(a, b.to_set()) == a,
{
    reveal(apart);
    assert forall|i: int| 0 <= i < a.len() implies !b.to_set().contains(#[trigger] a[i]) by { assert(a.contains(a[i])); }
    lemma_rid_same(a, b.to_set());
}
proof fn lemma_apart_joined(a: Seq<DomId>, b: Seq<DomId>)
    requires a.no_duplicates(), b.no_duplicates(), apart(a, b),
    ensures (a + b).no_duplicates(),
{ reveal(apart); lemma_join(a, b); }
// xs, which may stand in p, is placed before the first of z
proof fn lemma_place_apart(p: Seq<DomId>, z: Seq<DomId>, xs: Seq<DomId>)
    requires xs.no_duplicates(), z.len() > 0, apart(p, z), apart(xs, z),
    ensures place(p + z, xs, z[0]) == rid(p, xs.to_set()) + xs + z,
{
    reveal(apart);
    let r = z[0];
    let q = z.skip(1);
    assert(z.contains(r));
    assert forall|i: int| 0 <= i < xs.len() implies !q.contains(#[trigger] xs[i]) by {
        assert(xs.contains(xs[i]));
        if q.contains(xs[i]) { let j = choose|j: int| 0 <= j < q.len() && q[j] == xs[i]; assert(z[j + 1] == xs[i]); assert(z.contains(xs[i])); }
    }
    assert(p + seq![r] + q =~= p + z);
    lemma_place(p, r, q, xs);
    assert(rid(p, xs.to_set()) + xs + seq![r] + q =~= rid(p, xs.to_set()) + xs + z);
}
spec fn all_apart(pre: Seq<DomId>, t: Seq<DomId>, m: Seq<DomId>, l: Seq<DomId>, z: Seq<DomId>) -> bool {
    apart(pre, t)
    && apart(pre, m)
    && apart(pre, l)
    && apart(pre, z)
    && apart(t, m)
    && apart(t, l)
    && apart(t, z)
    && apart(m, l)
    && apart(m, z)
    && apart(l, z)
    && pre.no_duplicates() && t.no_duplicates() && m.no_duplicates() && l.no_duplicates() && z.no_duplicates()
}
proof fn lemma_parts(pre: Seq<DomId>, t: Seq<DomId>, m: Seq<DomId>, l: Seq<DomId>, z: Seq<DomId>)
    requires (pre + t + m + l + z).no_duplicates(),
    ensures all_apart(pre, t, m, l, z),
{
    let (a, b, c, s) = (pre + t, pre + t + m, pre + t + m + l, pre + t + m + l + z);
    reveal(apart);
    lemma_split(c, z);
    lemma_split(b, l);
    lemma_split(a, m);
    lemma_split(pre, t);
    lemma_add_contains(c, z);
    lemma_add_contains(b, l);
    lemma_add_contains(a, m);
    lemma_add_contains(pre, t);
    assert(forall|y: DomId| #[trigger] a.contains(y) ==> b.contains(y) && c.contains(y));
    assert(forall|y: DomId| #[trigger] b.contains(y) ==> c.contains(y));
    assert(forall|y: DomId| #[trigger] pre.contains(y) ==> a.contains(y));
    assert(forall|y: DomId| #[trigger] t.contains(y) ==> a.contains(y));
    assert(forall|y: DomId| #[trigger] m.contains(y) ==> b.contains(y));
    assert(forall|y: DomId| #[trigger] l.contains(y) ==> c.contains(y));
}
proof fn lemma_new_apart(pre: Seq<DomId>, t: Seq<DomId>, m: Seq<DomId>, l: Seq<DomId>, z: Seq<DomId>, xs: Seq<DomId>)
    requires
        all_apart(pre, t, m, l, z),
        forall|x: DomId| xs.contains(x) ==> m.contains(x) || !(pre + t + m + l + z).contains(x),
    ensures apart(pre, xs), apart(t, xs), apart(l, xs), apart(z, xs), apart(xs, z),
{
    reveal(apart);
    let (a, b, c, s) = (pre + t, pre + t + m, pre + t + m + l, pre + t + m + l + z);
    lemma_add_contains(c, z);
    lemma_add_contains(b, l);
    lemma_add_contains(a, m);
    lemma_add_contains(pre, t);
    assert(forall|y: DomId| #[trigger] b.contains(y) ==> c.contains(y) && s.contains(y));
    assert(forall|y: DomId| #[trigger] a.contains(y) ==> b.contains(y));
    assert(forall|y: DomId| #[trigger] c.contains(y) ==> s.contains(y));
    assert(forall|y: DomId| #[trigger] pre.contains(y) ==> a.contains(y));
    assert(forall|y: DomId| #[trigger] t.contains(y) ==> a.contains(y));
    assert(forall|y: DomId| #[trigger] l.contains(y) ==> c.contains(y));
    assert(forall|y: DomId| #[trigger] z.contains(y) ==> s.contains(y));
}
// the moves of an update: l are the markers which the part that is kept at the bottom begins with
spec fn moved(s: Seq<DomId>, xs: Seq<DomId>, l: Seq<DomId>, r: DomId) -> Seq<DomId> {
    if xs.len() > 0 { place(place(s, xs, r), l, r) } else { s }
}
#[verifier::spinoff_prover]
proof fn lemma_update(pre: Seq<DomId>, t: Seq<DomId>, m: Seq<DomId>, l: Seq<DomId>, z: Seq<DomId>, xs: Seq<DomId>)
    requires
        (pre + t + m + l + z).no_duplicates(), z.len() > 0, xs.no_duplicates(),
        forall|x: DomId| xs.contains(x) ==> m.contains(x) || !(pre + t + m + l + z).contains(x),
    ensures
        rid(moved(pre + t + m + l + z, xs, l, z[0]), gone(m, xs)) == pre + t + xs + l + z,
        (pre + t + xs + l + z).no_duplicates(),
        xs.len() == 0 ==> moved(pre + t + m + l + z, xs, l, z[0]) == pre + t + m + l + z,
{
    let s = pre + t + m + l + z;
    let r = z[0];
    let x = xs.to_set();
    let g = gone(m, xs);
    lemma_parts(pre, t, m, l, z);
    lemma_new_apart(pre, t, m, l, z, xs);
    lemma_apart_swap(l, xs);
    lemma_apart_swap(m, l);
    let rm = rid(m, x);
    lemma_apart_sub(m, x, l);
    lemma_apart_sub(m, x, z);
    assert(rid(rm, g) == Seq::<DomId>::empty()) by {
        lemma_rid_rid(m, x, g);
        assert forall|i: int| 0 <= i < m.len() implies x.union(g).contains(#[trigger] m[i]) by { assert(m.contains(m[i])); }
        lemma_rid_none(m, x.union(g));
    }
    let end = pre + t + rm + xs + l + z;
    if xs.len() > 0 {
        let p = pre + t + m + l;
        lemma_apart_add(pre, t, z);
        lemma_apart_add(pre + t, m, z);
        lemma_apart_add(pre + t + m, l, z);
        lemma_place_apart(p, z, xs);
        lemma_rid_add(pre + t + m, l, x);
        lemma_rid_add(pre + t, m, x);
        lemma_rid_add(pre, t, x);
        lemma_rid_apart(pre, xs);
        lemma_rid_apart(t, xs);
        lemma_rid_apart(l, xs);
        let p2 = pre + t + rm + l + xs;
        let s1 = place(s, xs, r);
        assert(s1 =~= p2 + z);
        lemma_apart_add(pre + t, rm, z);
        lemma_apart_add(pre + t + rm, l, z);
        lemma_apart_add(pre + t + rm + l, xs, z);
        lemma_place_apart(p2, z, l);
        let ls = l.to_set();
        lemma_rid_add(pre + t + rm + l, xs, ls);
        lemma_rid_add(pre + t + rm, l, ls);
        lemma_rid_add(pre + t, rm, ls);
        lemma_rid_add(pre, t, ls);
        lemma_rid_apart(pre, l);
        lemma_rid_apart(t, l);
        lemma_rid_apart(rm, l);
        lemma_rid_apart(xs, l);
        assert forall|i: int| 0 <= i < l.len() implies ls.contains(#[trigger] l[i]) by { assert(l.contains(l[i])); }
        lemma_rid_none(l, ls);
        assert(moved(s, xs, l, r) =~= end);
    } else {
        assert(xs =~= Seq::<DomId>::empty());
        assert(rid(m, x) == m) by {
            assert forall|i: int| 0 <= i < m.len() implies !x.contains(#[trigger] m[i]) by {}
            lemma_rid_same(m, x);
        }
        assert(s =~= end);
    }
    assert(rid(end, g) =~= pre + t + xs + l + z) by {
        lemma_rid_add(pre + t + rm + xs + l, z, g);
        lemma_rid_add(pre + t + rm + xs, l, g);
        lemma_rid_add(pre + t + rm, xs, g);
        lemma_rid_add(pre + t, rm, g);
        lemma_rid_add(pre, t, g);
        lemma_apart_swap(m, z);
        lemma_not_gone(pre, m, xs);
        lemma_not_gone(t, m, xs);
        lemma_not_gone(l, m, xs);
        lemma_not_gone(z, m, xs);
        assert forall|i: int| 0 <= i < xs.len() implies !g.contains(#[trigger] xs[i]) by { assert(xs.contains(xs[i])); }
        lemma_rid_same(xs, g);
    }
    lemma_apart_joined(pre, t);
    lemma_apart_add(pre, t, xs);
    lemma_apart_joined(pre + t, xs);
    lemma_apart_add(pre, t, l);
    lemma_apart_add(pre + t, xs, l);
    lemma_apart_joined(pre + t + xs, l);
    lemma_apart_add(pre, t, z);
    lemma_apart_add(pre + t, xs, z);
    lemma_apart_add(pre + t + xs, l, z);
    lemma_apart_joined(pre + t + xs + l, z);
}
proof fn lemma_not_gone(a: Seq<DomId>, m: Seq<DomId>, xs: Seq<DomId>)
    requires apart(a, m),
    ensures rid(a, gone(m, xs)) == a,
{
    reveal(apart);
    assert forall|i: int| 0 <= i < a.len() implies !gone(m, xs).contains(#[trigger] a[i]) by { assert(a.contains(a[i])); }
    lemma_rid_same(a, gone(m, xs));
}
// the nodes of a which are not in b
spec fn gone(a: Seq<DomId>, b: Seq<DomId>) -> Set<DomId> { a.to_set().difference(b.to_set()) }

// what is used of the parts: their elements differ
proof fn lemma_elements(pre: Seq<DomId>, t: Seq<DomId>, m: Seq<DomId>, l: Seq<DomId>, z: Seq<DomId>)
    requires (pre + t + m + l + z).no_duplicates(), z.len() > 0,
    ensures
        m.no_duplicates(), !m.contains(z[0]),
        forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != z[0],
        apart(t, m), apart(m, l + z),
{
    lemma_parts(pre, t, m, l, z);
    lemma_apart_swap(m, l);
    lemma_apart_swap(m, z);
    lemma_apart_add(l, z, m);
    lemma_apart_swap(l + z, m);
    reveal(apart);
    assert(z.contains(z[0]));
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != z[0] by { assert(l.contains(l[i])); }
}
proof fn lemma_gone(t: Seq<DomId>, m: Seq<DomId>, b: Seq<DomId>, xs: Seq<DomId>)
    requires apart(t, m), apart(m, b),
    ensures gone(t + m + b, t + xs + b) == gone(m, xs),
{
    reveal(apart);
    lemma_add_contains(t + m, b);
    lemma_add_contains(t, m);
    lemma_add_contains(t + xs, b);
    lemma_add_contains(t, xs);
    assert forall|y: DomId| gone(t + m + b, t + xs + b).contains(y) <==> gone(m, xs).contains(y) by {
        assert((t + m).contains(y) <==> t.contains(y) || m.contains(y));
        assert((t + xs).contains(y) <==> t.contains(y) || xs.contains(y));
    }
    assert(gone(t + m + b, t + xs + b) =~= gone(m, xs));
}
spec fn bottom<T>(w: World, pb: Seq<(T, DomNode)>) -> Seq<DomId> { ids(pb).skip(leading(pb) as int) + seq![w.own@] + w.post@ }
spec fn markers<T>(pb: Seq<(T, DomNode)>) -> Seq<DomId> { ids(pb).take(leading(pb) as int) }
spec fn parts<T>(w: World, pt: Seq<(T, DomNode)>, pm: Seq<(T, DomNode)>, pb: Seq<(T, DomNode)>) -> Seq<DomId> {
    w.pre@ + ids(pt) + ids(pm) + markers(pb) + bottom(w, pb)
}
proof fn lemma_start<T, K>(w: World, f: KeyFn<T, K>, pt: Seq<(T, DomNode)>, pm: Seq<(T, DomNode)>, pb: Seq<(T, DomNode)>)
    requires inv(w, f, pt + pm + pb),
    ensures
        leading(pb) <= pb.len(),
        w.shown@ == parts(w, pt, pm, pb),
        bottom(w, pb).len() > 0,
        bottom(w, pb)[0] == (if leading(pb) < pb.len() { nid(pb[leading(pb) as int].1) } else { w.own@ }),
        w.shown@.contains(bottom(w, pb)[0]),
        w.used@.contains(bottom(w, pb)[0]),
        good(f, pm), ids(pm).no_duplicates(), !ids(pm).contains(bottom(w, pb)[0]),
        forall|i: int| 0 <= i < pm.len() ==> w.used@.contains(nid(#[trigger] pm[i].1)),
        forall|i: int| 0 <= i < leading(pb) ==> nid((#[trigger] pb[i]).1) != bottom(w, pb)[0],
{
    let prev = pt + pm + pb;
    let (pre, t, m, b) = (w.pre@, ids(pt), ids(pm), ids(pb));
    let (l, z) = (markers(pb), bottom(w, pb));
    let s = parts(w, pt, pm, pb);
    lemma_leading_bound(pb);
    assert(ids(prev) =~= t + m + b);
    assert(b =~= l + b.skip(leading(pb) as int));
    assert(w.shown@ =~= s);
    lemma_elements(pre, t, m, l, z);
    let at = (pre.len() + t.len() + m.len() + l.len()) as int;
    assert(w.shown@[at] == z[0]);
    assert(w.used@.contains(w.shown@[at]));
    assert forall|i: int| 0 <= i < pm.len() implies key_of(f, origin::<T>(#[trigger] pm[i].1)) == key_of(f, pm[i].0) by { assert(prev[i + pt.len()] == pm[i]); }
    assert forall|i: int| 0 <= i < pm.len() implies w.used@.contains(nid(#[trigger] pm[i].1)) by {
        assert(m[i] == nid(pm[i].1));
        assert(w.used@.contains(w.shown@[pre.len() + t.len() + i]));
    }
    assert forall|i: int| 0 <= i < leading(pb) implies nid((#[trigger] pb[i]).1) != z[0] by { assert(l[i] == nid(pb[i].1)); }
}
proof fn lemma_moved<T, K>(w0: World, f: KeyFn<T, K>, pt: Seq<(T, DomNode)>, pm: Seq<(T, DomNode)>, pb: Seq<(T, DomNode)>, px: Seq<(T, DomNode)>)
    requires
        inv(w0, f, pt + pm + pb),
        ids(px).no_duplicates(),
        forall|i: int| 0 <= i < px.len() ==> ids(pm).contains(nid(#[trigger] px[i].1)) || !w0.used@.contains(nid(px[i].1)),
    ensures
        ({
            let out = pt + px + pb;
            let shown = moved(w0.shown@, ids(px), markers(pb), bottom(w0, pb)[0]);
            &&& rid(shown, gone(ids(pt + pm + pb), ids(out))) == w0.pre@ + ids(out) + seq![w0.own@] + w0.post@
            &&& (w0.pre@ + ids(out) + seq![w0.own@] + w0.post@).no_duplicates()
        }),
{
    let prev = pt + pm + pb;
    let (pre, t, m, b) = (w0.pre@, ids(pt), ids(pm), ids(pb));
    let (l, z) = (markers(pb), bottom(w0, pb));
    let s = parts(w0, pt, pm, pb);
    let xs = ids(px);
    lemma_start(w0, f, pt, pm, pb);
    assert forall|x: DomId| xs.contains(x) implies m.contains(x) || !s.contains(x) by {
        let i = choose|i: int| 0 <= i < xs.len() && xs[i] == x;
        assert(nid(px[i].1) == x);
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(w0.used@.contains(w0.shown@[j])); }
    }
    lemma_update(pre, t, m, l, z, xs);
    let out = pt + px + pb;
    assert(ids(out) =~= t + xs + b);
    assert(ids(prev) =~= t + m + b);
    assert(b =~= l + b.skip(leading(pb) as int));
    assert(pre + t + xs + l + z =~= pre + ids(out) + seq![w0.own@] + w0.post@);
    lemma_elements(pre, t, m, l, z);
    let e = seq![w0.own@] + w0.post@;
    assert(l + z =~= b + e);
    assert(apart(m, b)) by {
        reveal(apart);
        lemma_add_contains(b, e);
        assert forall|y: DomId| !(#[trigger] m.contains(y) && #[trigger] b.contains(y)) by { assert(b.contains(y) ==> (b + e).contains(y)); }
    }
    lemma_gone(t, m, b, xs);
}
proof fn lemma_result<T, K>(w0: World, w: World, f: KeyFn<T, K>, pt: Seq<(T, DomNode)>, pm: Seq<(T, DomNode)>, pb: Seq<(T, DomNode)>, px: Seq<(T, DomNode)>, nt: Seq<T>, nb: Seq<T>)
    requires
        coherent(f), inv(w0, f, pt + pm + pb),
        nt.len() == pt.len(), nb.len() == pb.len(),
        forall|i: int| 0 <= i < pt.len() ==> teq((#[trigger] pt[i]).0, nt[i]),
        forall|i: int| 0 <= i < pb.len() ==> teq((#[trigger] pb[i]).0, nb[i]),
        good(f, px),
        forall|i: int| 0 <= i < px.len() ==> (ids(pm).contains(nid(#[trigger] px[i].1)) || !w0.used@.contains(nid(px[i].1))) && w.used@.contains(nid(px[i].1)),
        forall|d: DomId| w0.used@.contains(d) ==> #[trigger] w.used@.contains(d),
        forall|k: K| #[trigger] cnt(f, rendered::<T>(w.renders@), k) == cnt(f, rendered::<T>(w0.renders@), k) + lacking(cnt(f, items(px), k), cnt(f, items(pm), k)),
    ensures
        updated(w0, w, f, pt + pm + pb, nt + items(px) + nb, pt + px + pb),
        forall|i: int| 0 <= i < (pt + px + pb).len() ==> w.used@.contains(nid((#[trigger] (pt + px + pb)[i]).1)),
{
    let (prev, out, new) = (pt + pm + pb, pt + px + pb, nt + items(px) + nb);
    let (a, c) = (pt.len() as int, (pt.len() + px.len()) as int);
    let s = w0.shown@;
    assert forall|i: int| 0 <= i < prev.len() implies w0.used@.contains(nid(#[trigger] prev[i].1)) by {
        assert(ids(prev)[i] == nid(prev[i].1));
        assert(w0.used@.contains(s[w0.pre@.len() + i]));
    }
    assert forall|i: int| 0 <= i < out.len() implies
        key_of(f, origin::<T>(#[trigger] out[i].1)) == key_of(f, out[i].0) && w.used@.contains(nid(out[i].1))
        && (ids(prev).contains(nid(out[i].1)) || !w0.used@.contains(nid(out[i].1))) by {
        if i < a { assert(out[i] == prev[i]); assert(ids(prev)[i] == nid(out[i].1)); }
        else if i < c {
            assert(out[i] == px[i - a]);
            if ids(pm).contains(nid(out[i].1)) {
                let j = choose|j: int| 0 <= j < pm.len() && ids(pm)[j] == nid(out[i].1);
                assert(ids(prev)[a + j] == nid(out[i].1));
            }
        } else { assert(out[i] == prev[i - px.len() + pm.len()]); assert(ids(prev)[i - px.len() + pm.len()] == nid(out[i].1)); }
    }
    assert forall|i: int| 0 <= i < new.len() implies key_of(f, #[trigger] out[i].0) == key_of(f, new[i]) by {
        if i < a { assert(teq(pt[i].0, nt[i])); } else if i < c { assert(items(px)[i - a] == px[i - a].0); }
        else { assert(teq(pb[i - c].0, nb[i - c])); }
    }
    assert(items(prev) =~= items(pt) + items(pm) + items(pb));
    assert forall|k: K| #[trigger] cnt(f, rendered::<T>(w.renders@), k) == cnt(f, rendered::<T>(w0.renders@), k) + lacking(cnt(f, new, k), cnt(f, items(prev), k)) by {
        lemma_cnt_add(f, items(pt) + items(pm), items(pb), k);
        lemma_cnt_add(f, items(pt), items(pm), k);
        lemma_cnt_add(f, nt + items(px), nb, k);
        lemma_cnt_add(f, nt, items(px), k);
        assert forall|i: int| 0 <= i < nt.len() implies key_of(f, #[trigger] nt[i]) == key_of(f, items(pt)[i]) by { assert(teq(pt[i].0, nt[i])); }
        lemma_cnt_same(f, nt, items(pt), k);
        assert forall|i: int| 0 <= i < nb.len() implies key_of(f, #[trigger] nb[i]) == key_of(f, items(pb)[i]) by { assert(teq(pb[i].0, nb[i])); }
        lemma_cnt_same(f, nb, items(pb), k);
    }
}
//@item fn reorder_nodes
fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
    parent_id: DomId,
    comment_id: DomId,
    mut real_child: VecDeque<(T, DomNode)>,
    mut new_child: VecDeque<T>,
    get_key: ⟦Rc<dyn Fn(&T) -> K + 'static>⇒KeyFn<T, K>⟧,
    render: ⟦Rc<dyn Fn(&T) -> DomNode + 'static>⇒RenderFn<T>⟧,«
    w: &mut World»
) -> «(r:» VecDeque<(T, DomNode)>«)
    requires
        obeys_key_model::<K>(), coherent(get_key),
        parent_id == old(w).parent@, comment_id == old(w).own@,
        inv(*old(w), get_key, real_child@),
    ensures
        updated(*old(w), *final(w), get_key, real_child@, new_child@, r@),
        same_place(*old(w), *final(w)),
        // when the nodes left over are removed, the new list is shown
        rid(final(w).shown@, gone(ids(real_child@), ids(r@))) == final(w).pre@ + ids(r@) + seq![final(w).own@] + final(w).post@,
        (final(w).pre@ + ids(r@) + seq![final(w).own@] + final(w).post@).no_duplicates(),
        forall|i: int| 0 <= i < r@.len() ==> final(w).used@.contains(nid((#[trigger] r@[i]).1)),
        forall|d: DomId| old(w).used@.contains(d) ==> #[trigger] final(w).used@.contains(d),»
{
«    let ghost w0 = *w; let ghost f = get_key; let ghost prev = real_child@; let ghost new = new_child@;»
    let pairs_top = get_pairs_top(&mut real_child, &mut new_child);
«    let ghost mid_new = new_child@;»
    let mut pairs_bottom = get_pairs_bottom(&mut real_child, &mut new_child);

«    let ghost (pt, pm, pb) = (pairs_top@, real_child@, pairs_bottom@);
    let ghost nm = new_child@;
    proof {
        assert(prev =~= pt + pm + pb);
        lemma_start(w0, f, pt, pm, pb);
    }»
    let last_before: DomId = find_first_dom(&pairs_bottom).unwrap_or(comment_id);
    let mut pairs_middle = get_pairs_middle(
        parent_id,
        last_before,
        real_child,
        new_child,
        get_key,
        render,
«        w,»
    );

«    let ghost px = pairs_middle@;
    proof {
        lemma_moved(w0, f, pt, pm, pb, px);
        lemma_place_keeps(w0.shown@, ids(px), last_before, last_before);
    }»
    if !pairs_middle.is_empty() {
        move_markers(parent_id, last_before, &pairs_bottom«, w»);
    }

    let mut pairs = pairs_top;
    pairs.append(&mut pairs_middle);
    pairs.append(&mut pairs_bottom);
«    proof {
        assert(ids(px).len() == px.len());
        assert(w.shown@ == moved(w0.shown@, ids(px), markers(pb), bottom(w0, pb)[0]));
        let nt = new.take(pt.len() as int);
        let nb = new.skip((pt.len() + nm.len()) as int);
        assert(new =~= nt + nm + nb);
        assert(pairs@ =~= pt + px + pb);
        assert forall|i: int| 0 <= i < pb.len() implies teq((#[trigger] pb[i]).0, nb[i]) by { assert(nb[i] == mid_new[i + nm.len()]); }
        lemma_result(w0, *w, f, pt, pm, pb, px, nt, nb);
    }»
    pairs
}
//@end
proof fn lemma_place_keeps(s: Seq<DomId>, xs: Seq<DomId>, r: DomId, y: DomId)
    requires s.contains(y),
    ensures place(s, xs, r).contains(y),
    decreases xs.len(),
{
    if xs.len() > 0 {
        lemma_place_keeps(s, xs.drop_last(), r, y);
        lemma_mv_contains(place(s, xs.drop_last(), r), xs.last(), r, y);
    }
}

//@item fn render_list
pub fn render_list<T: PartialEq + Clone + 'static, K: Eq + Hash>(
    ⟦computed: Computed<Vec<T>>⇒new_list: Vec<T>⟧,
    get_key: ⟦impl Fn(&T) -> K + 'static⇒KeyFn<T, K>⟧,
    render: ⟦impl Fn(&T) -> DomNode + 'static⇒RenderFn<T>⟧,
«    parent_id: DomId, comment_id: DomId, current: &mut VecDeque<(T, DomNode)>, w: &mut World,»
) ⟦-> DomNode⇒⟧
«    requires
        obeys_key_model::<K>(), coherent(get_key),
        parent_id == old(w).parent@, comment_id == old(w).own@,
        inv(*old(w), get_key, old(current)@),
    ensures
        // the list stays shown, in order, over every sequence of updates
        inv(*final(w), get_key, final(current)@),
        updated(*old(w), *final(w), get_key, old(current)@, new_list@, final(current)@),
        same_place(*old(w), *final(w)),»
{
«    let ghost w0 = *w; let ghost prev = current@; let ghost f = get_key; let ghost new = new_list@;»
    let get_key = ⟦Rc::new(get_key)⇒get_key⟧;
    let render = ⟦Rc::new(render)⇒render⟧;

    ⟦DomComment::new_marker("list element", move |parent_id, comment_id| {
        let current_list: Rc<ValueMut<VecDeque<(T, DomNode)>>> =
            Rc::new(ValueMut::new(VecDeque::new()));

        Some(computed.clone().subscribe({⇒{{⟧
            let get_key = get_key.clone();
            let render = render.clone();

            ⟦move |new_list|⇒⟧ {
                let new_list = ⟦VecDeque::from_iter(new_list)⇒vx_deque(new_list)⟧;
                ⟦current_list.change({⇒{⟧
                    let get_key = get_key.clone();
                    let render = render.clone();

                    ⟦move |current|⇒⟧ {
                        let current_list = ⟦std::mem::take(current)⇒vx_take(current)⟧;

                        let new_order = reorder_nodes(
                            parent_id,
                            comment_id,
                            current_list,
                            new_list,
                            get_key.clone(),
                            render,
«                            w,»
                        );

«                        let ghost w1 = *w;
                        w.dropped(Ghost(gone(ids(prev), ids(new_order@))));
                        proof { lemma_dropped(w0, w1, *w, f, prev, new, new_order@); }»
                        *current = new_order;
                    }
                ⟦})⇒}⟧
            }
        ⟦}))
    })
    .into()⇒}}⟧
}
//@end
proof fn lemma_dropped<T, K>(w0: World, w1: World, w: World, f: KeyFn<T, K>, prev: Seq<(T, DomNode)>, new: Seq<T>, out: Seq<(T, DomNode)>)
    requires
        inv(w0, f, prev),
        updated(w0, w1, f, prev, new, out),
        same_place(w0, w1), same_place(w1, w), w.used == w1.used, w.renders == w1.renders,
        w.shown@ == w.pre@ + ids(out) + seq![w.own@] + w.post@,
        w.shown@.no_duplicates(),
        forall|i: int| 0 <= i < out.len() ==> w.used@.contains(nid((#[trigger] out[i]).1)),
        forall|d: DomId| w0.used@.contains(d) ==> #[trigger] w.used@.contains(d),
    ensures
        inv(w, f, out), updated(w0, w, f, prev, new, out),
{
    let (p, n, b) = (w.pre@.len() as int, out.len() as int, prev.len() as int);
    assert forall|i: int| 0 <= i < w.shown@.len() implies w.used@.contains(#[trigger] w.shown@[i]) by {
        if i < p { assert(w0.used@.contains(w0.shown@[i])); }
        else if i < p + n { assert(w.shown@[i] == nid(out[i - p].1)); }
        else { assert(w0.shown@[i - n + b] == w.shown@[i]); assert(w0.used@.contains(w0.shown@[i - n + b])); }
    }
}

//@file crates/vertigo/src/dom/dom_comment.rs
impl DomComment {
//@item impl DomComment :: fn dom_fragment
    pub fn dom_fragment(list: Vec<DomNode>«, parent_id: DomId, comment_id: DomId, w: &mut World») -> ⟦DomComment⇒(r: Option<DropResource>)⟧
«        requires
            parent_id == old(w).parent@, comment_id == old(w).own@,
            old(w).shown@ == old(w).pre@ + seq![comment_id] + old(w).post@,
            nids(list@).no_duplicates(), apart(nids(list@), seq![comment_id] + old(w).post@), apart(old(w).pre@, seq![comment_id] + old(w).post@),
        ensures
            // the nodes stand in order before the marker
            final(w).shown@ == rid(old(w).pre@, nids(list@).to_set()) + nids(list@) + seq![comment_id] + old(w).post@,
            final(w).used == old(w).used, same_place(*old(w), *final(w)),
            r is None,»
    {
        ⟦Self::new_marker("list dom node", move |parent_id, comment_id| {⇒{⟧
            ⟦let driver = get_driver();⇒⟧

            // Every node goes directly before the marker of this fragment. A node can't be placed before the next one,
            // because if the next one is a marker then its contents are already before it.
«            let ghost s = w.shown@; let ghost z = seq![comment_id] + w.post@; let ghost pre = w.pre@;
            proof {
                assert(s =~= pre + z);
                assert(s[pre.len() as int] == comment_id);
                reveal(apart);
                assert(z[0] == comment_id);
                assert(z.contains(comment_id));
                lemma_place_apart(pre, z, nids(list@));
                assert(nids(list@).take(0) =~= Seq::<DomId>::empty());
            }»
            for node in «it:» list.iter()
«                invariant
                    it.seq().unref() == list@,
                    parent_id == w.parent@, comment_id == w.own@, same_place(*old(w), *w), w.used == old(w).used,
                    w.shown@.contains(comment_id),
                    !nids(list@).contains(comment_id),
                    w.shown@ == place(s, nids(list@).take(it.index@ as int), comment_id),»
            {
«                proof {
                    let i = it.index@ as int;
                    assert(it.seq().unref()[i] == list@[i]);
                    let n = nids(list@).take(i + 1);
                    assert(n.drop_last() =~= nids(list@).take(i));
                    assert(nids(list@)[i] == nid(list@[i]));
                    assert(nids(list@).contains(nid(list@[i])));
                    lemma_mv_contains(w.shown@, nid(list@[i]), comment_id, comment_id);
                }»
                ⟦driver
                    .inner
                    .dom
                    .insert_before⇒w.insert_before⟧(parent_id, node.id_dom(), Some(comment_id));
            }

«            assert(nids(list@).take(list@.len() as int) =~= nids(list@));
            assert(rid(pre, nids(list@).to_set()) + nids(list@) + z =~= rid(pre, nids(list@).to_set()) + nids(list@) + seq![comment_id] + w.post@);»
            None
        ⟦})⇒}⟧
    }
//@end
}

} // verus!
fn main() {}
