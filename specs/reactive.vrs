#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, gid_axiom::axiom_graph_id_key, prog::axiom_reads};

//@include graph_types.inc
//@include graph_spec.inc
//@include ts_spec.inc

impl GraphId {
    spec fn kind(self) -> GraphIdKind { self.0 }
//@file crates/vertigo/src/computed/graph_id.rs
//@item impl GraphId :: fn get_type
    pub fn get_type(&self) -> «(r:» GraphIdKind «)
        ensures r == self.kind(),»
    {
        self.0
    }
//@end
}

// ---- the state of the driver, and what the program's functions mean -------------------------------------------------
pub enum Event { Refresh(GraphId), End }

pub struct WS {
    pub store: Map<GraphId, Val>,      // contents of the source values
    pub cache: Map<GraphId, Val>,      // calculated values kept by computed values and subscribers (state is Some)
    pub edges: Set<Edge>,              // (parent, dependant)
    pub live: Set<GraphId>,            // registered refresh functions
    pub connectable: Set<GraphId>,     // values with a connection function
    pub conn: Set<GraphId>,            // values whose connection is open
    pub events: Seq<Event>,
    pub dead: Set<GraphId>,            // nodes that were registered and are not any more (identifiers are not used again)
    pub ts: TS,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World {
    pub uninterp spec fn s(&self) -> WS;
}

mod prog {
    use super::*;
    #[verifier::external_body]
    pub struct Val { _p: () }
    pub uninterp spec fn val<T>(t: T) -> Val;
    // what the function of node n yields on the given source values, and which nodes it reads
    pub uninterp spec fn eval(n: GraphId, store: Map<GraphId, Val>) -> Val;
    pub uninterp spec fn reads(n: GraphId, store: Map<GraphId, Val>) -> Set<GraphId>;
    // nodes can be ordered so that functions read lower nodes only (no cycles)
    pub uninterp spec fn rank(n: GraphId) -> nat;
    pub(super) open(super) spec fn node_val(p: GraphId, store: Map<GraphId, Val>) -> Val {
        if p.0 == GraphIdKind::Value { store[p] } else { eval(p, store) }
    }
    // ASSUMPTION: the functions given to computed values are pure: what they return and read depends on what they read
    pub(super) axiom fn axiom_pure(n: GraphId, a: Map<GraphId, Val>, b: Map<GraphId, Val>)
        requires forall|p: GraphId| #[trigger] reads(n, a).contains(p) ==> node_val(p, a) == node_val(p, b),
        ensures reads(n, b) == reads(n, a), eval(n, b) == eval(n, a);
    // ASSUMPTION: acyclic, and subscribers are not read
    pub(super) broadcast axiom fn axiom_reads(n: GraphId, s: Map<GraphId, Val>, p: GraphId)
        requires #[trigger] reads(n, s).contains(p),
        ensures rank(p) < rank(n), p.0 != GraphIdKind::Client;
}
use prog::*;

// ---- the invariant --------------------------------------------------------------------------------------------------
spec fn good(s: WS, n: GraphId) -> bool {
    &&& s.cache[n] == eval(n, s.store)
    &&& forall|p: GraphId| #[trigger] reads(n, s.store).contains(p) ==> s.edges.contains((p, n)) && (p.kind() == GraphIdKind::Value || s.cache.contains_key(p))
}
spec fn shape(s: WS) -> bool {
    &&& forall|p: GraphId, c: GraphId| #[trigger] s.edges.contains((p, c)) ==> rank(p) < rank(c) && c.kind() != GraphIdKind::Value && p.kind() != GraphIdKind::Client
    &&& forall|n: GraphId| #[trigger] s.live.contains(n) ==> n.kind() != GraphIdKind::Value
    // a value is connected exactly while something depends on it
    &&& forall|v: GraphId| #[trigger] s.connectable.contains(v) ==> (s.conn.contains(v) <==> !no_clients(s.edges, v))
    &&& forall|v: GraphId| #[trigger] s.connectable.contains(v) ==> v.kind() == GraphIdKind::Value
    &&& forall|n: GraphId| #[trigger] s.live.contains(n) ==> !s.dead.contains(n)
    &&& forall|p: GraphId, c: GraphId| #[trigger] s.edges.contains((p, c)) ==> c.kind() == GraphIdKind::Client ==> s.live.contains(c) || s.dead.contains(c)
    &&& s.ts is Modification ==> s.ts->level >= 1
}
// every calculated value is what its function yields on the current sources; subscribers waiting to be refreshed excepted
spec fn inv(s: WS, pend: Set<GraphId>) -> bool {
    &&& shape(s)
    &&& forall|n: GraphId| #[trigger] pend.contains(n) ==> n.kind() == GraphIdKind::Client && (s.live.contains(n) || s.dead.contains(n))
    &&& forall|n: GraphId| #[trigger] s.cache.contains_key(n) ==> n.kind() != GraphIdKind::Value && s.live.contains(n)
    &&& forall|n: GraphId| #[trigger] s.cache.contains_key(n) && (n.kind() == GraphIdKind::Computed || !pend.contains(n)) ==> good(s, n)
}
spec fn same_rest(a: WS, b: WS) -> bool {
    b.store == a.store && b.live == a.live && b.events == a.events && b.connectable == a.connectable && b.dead == a.dead && b.ts == a.ts
}
// nothing above rank k changes, and what is read from above rank k keeps its calculated value
spec fn frame(a: WS, b: WS, k: int) -> bool {
    &&& same_rest(a, b)
    &&& forall|c: GraphId| rank(c) > k ==> (#[trigger] b.cache.contains_key(c) <==> a.cache.contains_key(c))
    &&& forall|c: GraphId| rank(c) > k && b.cache.contains_key(c) ==> #[trigger] b.cache[c] == a.cache[c]
    &&& forall|p: GraphId, c: GraphId| rank(c) > k ==> (#[trigger] b.edges.contains((p, c)) <==> a.edges.contains((p, c)))
    &&& forall|q: GraphId, c: GraphId| rank(c) > k && #[trigger] a.edges.contains((q, c)) && a.cache.contains_key(q) ==> b.cache.contains_key(q)
}
proof fn lemma_frame_trans(a: WS, b: WS, c: WS, k: int, l: int)
    requires frame(a, b, k), frame(b, c, l), k <= l,
    ensures frame(a, c, l),
{
    assert forall|q: GraphId, d: GraphId| rank(d) > l && #[trigger] a.edges.contains((q, d)) && a.cache.contains_key(q) implies c.cache.contains_key(q) by {
        assert(b.edges.contains((q, d)));
        assert(b.cache.contains_key(q));
    }
}
proof fn lemma_frame_trans2(a: WS, b: WS, c: WS, k: int, l: int)
    requires frame(a, b, k), frame(b, c, l), l <= k,
    ensures frame(a, c, k),
{
    assert forall|q: GraphId, d: GraphId| rank(d) > k && #[trigger] a.edges.contains((q, d)) && a.cache.contains_key(q) implies c.cache.contains_key(q) by {
        assert(b.edges.contains((q, d)));
        assert(b.cache.contains_key(q));
    }
}
proof fn lemma_frame_keep(a: WS, m: WS, b: WS, n: GraphId)
    requires frame(a, keep(a, m, n), rank(n) as int), frame(m, b, rank(n) - 1),
    ensures frame(a, keep(a, b, n), rank(n) as int),
{
    let x = keep(a, m, n);
    let y = keep(a, b, n);
    assert forall|q: GraphId, d: GraphId| rank(d) > rank(n) && #[trigger] a.edges.contains((q, d)) && a.cache.contains_key(q) implies y.cache.contains_key(q) by {
        assert(x.edges.contains((q, d)));
        assert(x.cache.contains_key(q));
        assert(m.edges.contains((q, d)));
        if q != n || !a.cache.contains_key(n) { assert(m.cache.contains_key(q)); assert(b.cache.contains_key(q)); }
    }
    assert forall|c: GraphId| rank(c) > rank(n) implies (#[trigger] y.cache.contains_key(c) <==> a.cache.contains_key(c)) by {
        assert(x.cache.contains_key(c) <==> a.cache.contains_key(c));
        assert(b.cache.contains_key(c) <==> m.cache.contains_key(c));
    }
    assert forall|c: GraphId| rank(c) > rank(n) && y.cache.contains_key(c) implies #[trigger] y.cache[c] == a.cache[c] by {
        assert(x.cache.contains_key(c) <==> a.cache.contains_key(c));
        assert(b.cache.contains_key(c) <==> m.cache.contains_key(c));
        assert(x.cache[c] == a.cache[c]);
        assert(b.cache[c] == m.cache[c]);
    }
    assert forall|p: GraphId, c: GraphId| rank(c) > rank(n) implies (#[trigger] y.edges.contains((p, c)) <==> a.edges.contains((p, c))) by {
        assert(x.edges.contains((p, c)) <==> a.edges.contains((p, c)));
        assert(b.edges.contains((p, c)) <==> m.edges.contains((p, c)));
    }
}
// what is not registered any more is never registered again
spec fn ages(a: WS, b: WS) -> bool {
    &&& forall|n: GraphId| #[trigger] a.dead.contains(n) ==> b.dead.contains(n)
    &&& forall|n: GraphId| #[trigger] a.live.contains(n) ==> b.live.contains(n) || b.dead.contains(n)
}
spec fn may_calc(s: WS, n: GraphId, pend: Set<GraphId>) -> bool {
    &&& n.kind() != GraphIdKind::Value
    &&& !s.cache.contains_key(n) || (n.kind() == GraphIdKind::Client && pend.contains(n))
}
// calculating n: it has its value, everything else is as good as before
spec fn calculated(a: WS, b: WS, n: GraphId, pend: Set<GraphId>) -> bool {
    &&& inv(b, pend.remove(n))
    &&& b.store == a.store && b.events == a.events && b.ts == a.ts && ages(a, b) && b.live.contains(n)
    &&& b.cache.contains_key(n) && b.cache[n] == eval(n, b.store)
    &&& n.kind() == GraphIdKind::Computed ==> frame(a, b, rank(n) as int)
}

// ---- lemmas ---------------------------------------------------------------------------------------------------------
proof fn lemma_bound(e: Set<Edge>) -> (k: nat)
    ensures forall|p: GraphId, c: GraphId| #[trigger] e.contains((p, c)) ==> rank(c) <= k,
    decreases e.len(),
{
    if e.len() == 0 {
        assert(e =~= Set::empty());
        0
    } else {
        let x = e.choose();
        let k0 = lemma_bound(e.remove(x));
        let k = if rank(x.1) > k0 { rank(x.1) } else { k0 };
        assert forall|p: GraphId, c: GraphId| #[trigger] e.contains((p, c)) implies rank(c) <= k by {
            if (p, c) != x { assert(e.remove(x).contains((p, c))); }
        }
        k
    }
}
// only nodes below n lose their dependants when n's parents are replaced
proof fn lemma_orphan_below(e0: Set<Edge>, n: GraphId, new: Set<GraphId>, e: Set<Edge>, c: GraphId, k: nat)
    requires
        replaced(e0, n, new, e), orphaned(e0, e, c),
        forall|p: GraphId, c: GraphId| #[trigger] e0.contains((p, c)) ==> rank(p) < rank(c) && rank(c) <= k,
    ensures rank(c) < rank(n),
    decreases k - rank(c),
{
    let d = choose|d: GraphId| #[trigger] e0.contains((c, d));
    assert(e0.contains((c, d)) && !e.contains((c, d)));
    if d != n {
        assert(orphaned(e0, e, d));
        lemma_orphan_below(e0, n, new, e, d, k);
    }
}
spec fn off(s: Seq<(GraphId, bool)>, n: GraphId) -> bool { s.contains((n, false)) }
spec fn on(s: Seq<(GraphId, bool)>, n: GraphId) -> bool { s.contains((n, true)) }
// what is left of a after the report s was worked off
spec fn swept(a: WS, b: WS, s: Seq<(GraphId, bool)>) -> bool {
    &&& same_rest(a, b) && b.edges == a.edges
    &&& forall|n: GraphId| #[trigger] b.cache.contains_key(n) ==> a.cache.contains_key(n) && b.cache[n] == a.cache[n] && (n.kind() == GraphIdKind::Value || !off(s, n) || !a.live.contains(n))
    &&& forall|n: GraphId| #[trigger] a.cache.contains_key(n) && !off(s, n) ==> b.cache.contains_key(n)
    &&& forall|v: GraphId| #[trigger] a.connectable.contains(v) ==> (b.conn.contains(v) <==> on(s, v) || (a.conn.contains(v) && !off(s, v)))
}
proof fn lemma_push_in<A>(s: Seq<A>, x: A, y: A)
    ensures s.push(x).contains(y) <==> s.contains(y) || x == y,
{
    if s.contains(y) { let i = s.index_of(y); assert(s.push(x)[i] == y); }
    if x == y { assert(s.push(x)[s.len() as int] == y); }
    if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.len() + 1 && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
}
spec fn report_of(e0: Set<Edge>, e: Set<Edge>, n: GraphId, r: Map<GraphId, bool>) -> bool {
    &&& forall|p: GraphId| #[trigger] r.contains_key(p) <==> p == n || clients_differ(e0, e, p)
    &&& forall|p: GraphId| #[trigger] r.contains_key(p) ==> r[p] == !no_clients(e, p)
}
spec fn entries(s: Seq<(GraphId, bool)>, m: Map<GraphId, bool>) -> bool {
    &&& forall|k: GraphId, v: bool| #[trigger] s.contains((k, v)) <==> m.contains_key(k) && m[k] == v
}
// a: before, b: links replaced and the report worked off
spec fn parents_ok(n: GraphId, new: Set<GraphId>) -> bool {
    forall|p: GraphId| #[trigger] new.contains(p) ==> rank(p) < rank(n) && p.kind() != GraphIdKind::Client
}
proof fn lemma_replace(a: WS, n: GraphId, new: Set<GraphId>, e: Set<Edge>, r: Map<GraphId, bool>, s: Seq<(GraphId, bool)>, b: WS, pend: Set<GraphId>)
    requires
        inv(a, pend), parents_ok(n, new), n.kind() != GraphIdKind::Value,
        n.kind() == GraphIdKind::Computed ==> !a.cache.contains_key(n), n.kind() == GraphIdKind::Client ==> a.live.contains(n) || a.dead.contains(n),
        n.kind() == GraphIdKind::Client ==> (a.live.contains(n) || !a.cache.contains_key(n)),
        replaced(a.edges, n, new, e), report_of(a.edges, e, n, r), entries(s, r),
        swept(WS { edges: e, ..a }, b, s),
    ensures
        inv(b, pend),
        !b.cache.contains_key(n),
        frame(a, WS { cache: if a.cache.contains_key(n) { b.cache.insert(n, a.cache[n]) } else { b.cache }, ..b }, rank(n) as int),
        forall|p: GraphId| new.contains(p) ==> #[trigger] b.edges.contains((p, n)),
{
    let k = lemma_bound(a.edges);
    let a1 = WS { edges: e, ..a };
    assert forall|p: GraphId, c: GraphId| #[trigger] b.edges.contains((p, c)) implies rank(p) < rank(c) && c.kind() != GraphIdKind::Value && p.kind() != GraphIdKind::Client by {
        if c == n { assert(new.contains(p)); } else { assert(a.edges.contains((p, c))); }
    }
    assert forall|v: GraphId| #[trigger] b.connectable.contains(v) implies (b.conn.contains(v) <==> !no_clients(b.edges, v)) by {
        assert(a.connectable.contains(v)); assert(a1.connectable.contains(v));
        if r.contains_key(v) {
            assert(s.contains((v, r[v])));
            if r[v] { assert(on(s, v)); } else { assert(off(s, v)); assert(!s.contains((v, true))); }
        } else {
            assert(!s.contains((v, true)) && !s.contains((v, false)));
            assert(!clients_differ(a.edges, e, v));
            assert(no_clients(a.edges, v) == no_clients(e, v)) by {
                if no_clients(a.edges, v) { assert forall|c: GraphId| !#[trigger] e.contains((v, c)) by { assert(!a.edges.contains((v, c))); } }
                if no_clients(e, v) { assert forall|c: GraphId| !#[trigger] a.edges.contains((v, c)) by { assert(!e.contains((v, c))); } }
            }
        }
    }
    // a node that is linked to a dependant is not reported as off
    assert forall|p: GraphId, m: GraphId| #[trigger] e.contains((p, m)) implies !off(s, p) by {
        if off(s, p) { assert(r.contains_key(p) && !r[p]); assert(no_clients(e, p)); }
    }
    assert(!b.cache.contains_key(n)) by {
        if n.kind() == GraphIdKind::Client {
            assert(no_clients(e, n));
            assert(r.contains_key(n) && !r[n]);
            assert(s.contains((n, false)));
            if b.cache.contains_key(n) { assert(a1.cache.contains_key(n)); assert(a1.live.contains(n)); }
        } else {
            if b.cache.contains_key(n) { assert(a1.cache.contains_key(n)); }
        }
    }
    assert forall|m: GraphId| #[trigger] b.cache.contains_key(m) && (m.kind() == GraphIdKind::Computed || !pend.contains(m)) implies good(b, m) by {
        assert(a1.cache.contains_key(m));
        assert(a.cache.contains_key(m));
        assert(good(a, m));
        assert(m != n);
        assert(!off(s, m)) by { assert(a1.live.contains(m)); }
        if orphaned(a.edges, e, m) {
            let c = choose|c: GraphId| #[trigger] a.edges.contains((m, c));
            assert(a.edges.contains((m, c)) != e.contains((m, c)));
            assert(clients_differ(a.edges, e, m));
            assert(r.contains_key(m));
            assert(no_clients(e, m));
            assert(r[m] == !no_clients(e, m));
            assert(s.contains((m, false)));
        }
        assert forall|p: GraphId| #[trigger] reads(m, b.store).contains(p) implies b.edges.contains((p, m)) && (p.kind() == GraphIdKind::Value || b.cache.contains_key(p)) by {
            assert(a.edges.contains((p, m)));
            assert(e.contains((p, m)));
            if p.kind() != GraphIdKind::Value { assert(a1.cache.contains_key(p)); }
        }
    }
    assert forall|m: GraphId| #[trigger] b.cache.contains_key(m) implies m.kind() != GraphIdKind::Value && b.live.contains(m) by { assert(a1.cache.contains_key(m)); assert(a.cache.contains_key(m)); }
    let b1 = WS { cache: if a.cache.contains_key(n) { b.cache.insert(n, a.cache[n]) } else { b.cache }, ..b };
    assert(frame(a, b1, rank(n) as int)) by {
        assert forall|c: GraphId| rank(c) > rank(n) implies (#[trigger] b1.cache.contains_key(c) <==> a.cache.contains_key(c)) by {
            if a.cache.contains_key(c) {
                assert(a1.cache.contains_key(c));
                if off(s, c) {
                    assert(r.contains_key(c) && !r[c]);
                    assert(clients_differ(a.edges, e, c));
                    let d = choose|d: GraphId| #[trigger] a.edges.contains((c, d)) != e.contains((c, d));
                    assert(!e.contains((c, d)));
                    assert(orphaned(a.edges, e, c));
                    lemma_orphan_below(a.edges, n, new, e, c, k);
                }
            }
        }
        assert forall|p: GraphId, c: GraphId| rank(c) > rank(n) implies (#[trigger] b1.edges.contains((p, c)) <==> a.edges.contains((p, c))) by {
            if orphaned(a.edges, e, c) { lemma_orphan_below(a.edges, n, new, e, c, k); }
        }
        assert forall|q: GraphId, c: GraphId| rank(c) > rank(n) && #[trigger] a.edges.contains((q, c)) && a.cache.contains_key(q) implies b1.cache.contains_key(q) by {
            assert(b1.edges.contains((q, c)));
            assert(e.contains((q, c)));
            assert(a1.cache.contains_key(q));
        }
    }
}

proof fn lemma_swept_step(a: WS, b: WS, s: Seq<(GraphId, bool)>, x: (GraphId, bool), c: WS, full: Seq<(GraphId, bool)>)
    requires
        swept(a, b, s),
        !s.contains((x.0, !x.1)),
        b.cache.contains_key(x.0) || true,
        same_rest(b, c), c.edges == b.edges,
        x.0.kind() == GraphIdKind::Value ==> c.cache == b.cache && c.conn =~= (if x.1 { if b.connectable.contains(x.0) { b.conn.insert(x.0) } else { b.conn } } else { b.conn.remove(x.0) }),
        x.0.kind() != GraphIdKind::Value ==> c.conn == b.conn && c.cache =~= (if x.1 || !b.live.contains(x.0) { b.cache } else { b.cache.remove(x.0) }),
        forall|v: GraphId| #[trigger] a.connectable.contains(v) ==> v.kind() == GraphIdKind::Value,
    ensures swept(a, c, s.push(x)),
{
    assert forall|y: (GraphId, bool)| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y by { lemma_push_in(s, x, y); }
}
proof fn lemma_reach_edge(e: Set<Edge>, x: GraphId, p: GraphId, c: GraphId)
    requires p == x || reachable(e, x, p), e.contains((p, c)),
    ensures reachable(e, x, c),
{
    if p == x {
        let s = seq![x, c];
        assert(is_path(e, s) && s[0] == x && s.last() == c);
    }
    if reachable(e, x, p) {
        let s = choose|s: Seq<GraphId>| #[trigger] is_path(e, s) && s[0] == x && s.last() == p;
        let t = s.push(c);
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] e.contains((t[i], t[i + 1])) by {
            if i < s.len() - 1 { assert(e.contains((s[i], s[i + 1]))); }
        }
        assert(is_path(e, t) && t[0] == x && t.last() == c);
    }
}
// a reached node has a parent
proof fn lemma_reach_last(e: Set<Edge>, x: GraphId, c: GraphId)
    requires reachable(e, x, c),
    ensures exists|p: GraphId| #[trigger] e.contains((p, c)),
{
    let s = choose|s: Seq<GraphId>| #[trigger] is_path(e, s) && s[0] == x && s.last() == c;
    let i = s.len() - 2;
    assert(e.contains((s[i], s[i + 1])));
}
// a node that is not reached from x keeps its value when x is set
proof fn lemma_unreached(a: WS, pend: Set<GraphId>, x: GraphId, v: Val, m: GraphId)
    requires
        inv(a, pend), a.cache.contains_key(m), m.kind() == GraphIdKind::Computed || !pend.contains(m),
        x.kind() == GraphIdKind::Value, !reachable(a.edges, x, m),
    ensures
        reads(m, a.store.insert(x, v)) == reads(m, a.store),
        eval(m, a.store.insert(x, v)) == eval(m, a.store),
        forall|p: GraphId| #[trigger] reads(m, a.store).contains(p) ==> p != x && !reachable(a.edges, x, p),
    decreases rank(m),
{
    let st = a.store.insert(x, v);
    assert(good(a, m));
    assert forall|p: GraphId| #[trigger] reads(m, a.store).contains(p) implies p != x && !reachable(a.edges, x, p) && node_val(p, a.store) == node_val(p, st) by {
        assert(a.edges.contains((p, m)));
        if p == x || reachable(a.edges, x, p) { lemma_reach_edge(a.edges, x, p, m); }
        if p.kind() != GraphIdKind::Value { lemma_unreached(a, pend, x, v, p); }
    }
    axiom_pure(m, a.store, st);
}
// after x was set: the reached computed values were forgotten and the reached subscribers wait
spec fn invalidated(a: WS, b: WS, x: GraphId) -> bool {
    &&& b.edges == a.edges && b.live == a.live && b.connectable == a.connectable && b.conn == a.conn && b.events == a.events && b.dead == a.dead && b.ts == a.ts
    &&& forall|n: GraphId| #[trigger] b.cache.contains_key(n) <==> a.cache.contains_key(n) && !(n.kind() == GraphIdKind::Computed && reachable(a.edges, x, n))
    &&& forall|n: GraphId| b.cache.contains_key(n) ==> #[trigger] b.cache[n] == a.cache[n]
}
proof fn lemma_set(a: WS, pend: Set<GraphId>, x: GraphId, v: Val, b: WS, pend2: Set<GraphId>)
    requires
        inv(a, pend), x.kind() == GraphIdKind::Value, invalidated(a, b, x), b.store == a.store.insert(x, v),
        forall|n: GraphId| #[trigger] pend2.contains(n) <==> pend.contains(n) || (n.kind() == GraphIdKind::Client && reachable(a.edges, x, n)),
    ensures inv(b, pend2),
{
    assert forall|n: GraphId| #[trigger] pend2.contains(n) implies n.kind() == GraphIdKind::Client && (b.live.contains(n) || b.dead.contains(n)) by {
        if !pend.contains(n) {
            lemma_reach_last(a.edges, x, n);
            let p = choose|p: GraphId| #[trigger] a.edges.contains((p, n));
            assert(a.edges.contains((p, n)));
        }
    }
    assert forall|m: GraphId| #[trigger] b.cache.contains_key(m) && (m.kind() == GraphIdKind::Computed || !pend2.contains(m)) implies good(b, m) by {
        assert(m.kind() == GraphIdKind::Computed || !pend.contains(m));
        assert(good(a, m));
        lemma_unreached(a, pend, x, v, m);
        assert forall|p: GraphId| #[trigger] reads(m, b.store).contains(p) implies b.edges.contains((p, m)) && (p.kind() == GraphIdKind::Value || b.cache.contains_key(p)) by {
            assert(reads(m, a.store).contains(p));
        }
    }
}

proof fn lemma_calculated(a: WS, e: WS, m: WS, b: WS, n: GraphId, v: Val, pend: Set<GraphId>)
    requires
        may_calc(a, n, pend), called(a, e, reads(n, e.store), v, n, pend),
        linked(e, m, n, reads(n, e.store)), inv(m, pend), !m.cache.contains_key(n),
        forall|p: GraphId| #[trigger] reads(n, e.store).contains(p) ==> p.kind() == GraphIdKind::Value || m.cache.contains_key(p),
        b == (WS { cache: m.cache.insert(n, v), ..m }),
    ensures calculated(a, b, n, pend),
{
    assert(good(b, n)) by {
        assert forall|p: GraphId| #[trigger] reads(n, b.store).contains(p) implies b.edges.contains((p, n)) && (p.kind() == GraphIdKind::Value || b.cache.contains_key(p)) by {
            assert(m.edges.contains((p, n)));
        }
    }
    assert forall|x: GraphId| #[trigger] b.cache.contains_key(x) && (x.kind() == GraphIdKind::Computed || !pend.remove(n).contains(x)) implies good(b, x) by {
        if x != n {
            assert(m.cache.contains_key(x));
            assert(good(m, x));
        }
    }
    if n.kind() == GraphIdKind::Computed {
        assert(keep(e, m, n).cache =~= m.cache);
        assert(keep(e, m, n) == m);
        lemma_frame_trans(a, e, m, rank(n) - 1, rank(n) as int);
        assert(frame(a, b, rank(n) as int)) by {
            assert forall|q: GraphId, c: GraphId| rank(c) > rank(n) && #[trigger] a.edges.contains((q, c)) && a.cache.contains_key(q) implies b.cache.contains_key(q) by {
                assert(m.cache.contains_key(q));
            }
        }
    }
}

// ---- trusted stand-ins: interior mutability, dynamic dispatch, functions supplied by the program --------------------
#[verifier::external_body]
fn vx_state_get<T>(id: GraphId, w: &World) -> (r: Option<T>)
    ensures r is Some <==> w.s().cache.contains_key(id), r is Some ==> val(r->0) == w.s().cache[id],
{ unimplemented!() }
#[verifier::external_body]
fn vx_state_set<T>(id: GraphId, v: Option<&T>, w: &mut World)
    ensures final(w).s() == (WS { cache: if v is Some { old(w).s().cache.insert(id, val(*v->0)) } else { old(w).s().cache.remove(id) }, ..old(w).s() }),
{ unimplemented!() }
#[verifier::external_body]
fn vx_value_get<T>(id: GraphId, w: &World) -> (r: T)
    ensures val(r) == w.s().store[id],
{ unimplemented!() }
#[verifier::external_body]
fn vx_value_set<T>(id: GraphId, v: T, w: &mut World)
    ensures final(w).s() == (WS { store: old(w).s().store.insert(id, val(v)), ..old(w).s() }),
{ unimplemented!() }
// ASSUMPTION: set_and_check compares with a lawful equality
#[verifier::external_body]
fn vx_value_set_and_check<T: PartialEq>(id: GraphId, v: T, w: &mut World) -> (r: bool)
    ensures
        final(w).s() == (WS { store: old(w).s().store.insert(id, val(v)), ..old(w).s() }),
        !r ==> val(v) == old(w).s().store[id],
{ unimplemented!() }
// the program's function: it only reads (each read keeps the invariant, see GraphValue::get_value and Value::get), and
// a subscriber's callback may besides subscribe and unsubscribe; the nodes it read stay registered
#[verifier::external_body]
fn vx_eval<T>(n: GraphId, context: &mut Context, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>) -> (r: T)
    requires inv(old(w).s(), pend), old(context).parent_ids@.len() == 0, old(w).s().live.contains(n),
    ensures
        inv(final(w).s(), pend),
        final(w).s().store == old(w).s().store, final(w).s().events == old(w).s().events, final(w).s().ts == old(w).s().ts, ages(old(w).s(), final(w).s()),
        final(w).s().cache.contains_key(n) == old(w).s().cache.contains_key(n),
        final(w).s().live.contains(n),
        final(context).parent_ids@.to_set() == reads(n, final(w).s().store),
        forall|p: GraphId| #[trigger] reads(n, final(w).s().store).contains(p) ==> p.kind() == GraphIdKind::Value || final(w).s().live.contains(p),
        val(r) == eval(n, final(w).s().store),
        n.kind() == GraphIdKind::Computed ==> frame(old(w).s(), final(w).s(), rank(n) - 1),
{ unimplemented!() }

pub struct GraphConnections { _p: u8 }
impl GraphConnections {
    // contract proved for GraphConnectionsInner::set_parent_for_client in unit graph
    #[verifier::external_body]
    fn set_parent_for_client(&self, client_id: GraphId, parents_list: BTreeSet<GraphId>, w: &mut World) -> (r: BTreeMap<GraphId, bool>)
        requires acyclic(old(w).s().edges, client_id, parents_list@),
        ensures
            final(w).s() == (WS { edges: final(w).s().edges, ..old(w).s() }),
            replaced(old(w).s().edges, client_id, parents_list@, final(w).s().edges),
            report_of(old(w).s().edges, final(w).s().edges, client_id, r@),
    { unimplemented!() }
    // contract proved for GraphConnectionsInner::get_all_deps in unit graph
    #[verifier::external_body]
    fn get_all_deps(&self, id: GraphId, w: &World) -> (r: BTreeSet<GraphId>)
        ensures forall|x: GraphId| #[trigger] r@.contains(x) <==> reachable(w.s().edges, id, x),
    { unimplemented!() }
}
pub struct ExternalConnections { _p: u8 }
impl ExternalConnections {
    // contracts proved in unit connections
    #[verifier::external_body]
    fn register_connect<F>(&self, id: GraphId, f: F, w: &mut World)
        ensures final(w).s() == (WS { connectable: old(w).s().connectable.insert(id), ..old(w).s() }),
    { unimplemented!() }
    #[verifier::external_body]
    fn unregister_connect(&self, id: GraphId, w: &mut World)
        ensures final(w).s() == (WS { connectable: old(w).s().connectable.remove(id), ..old(w).s() }),
    { unimplemented!() }
    // contract proved in unit connections
    #[verifier::external_body]
    fn set_connection(&self, id: GraphId, should_connect: bool, w: &mut World)
        ensures final(w).s() == (WS { conn: if should_connect { if old(w).s().connectable.contains(id) { old(w).s().conn.insert(id) } else { old(w).s().conn } } else { old(w).s().conn.remove(id) }, ..old(w).s() }),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_map_into_iter(m: BTreeMap<GraphId, bool>) -> (r: Vec<(GraphId, bool)>)
    ensures entries(r@, m@), r@.no_duplicates(),
{ m.into_iter().collect() }

#[verifier::external_body]
fn vx_set_clone(m: &BTreeSet<GraphId>) -> (r: BTreeSet<GraphId>)
    ensures r@ == m@,
{ m.clone() }

//@file crates/vertigo/src/computed/dependencies/refresh.rs
#[derive(Clone, Copy)]
//@item enum RefreshKind
«pub» enum RefreshKind {
    /// Forget the calculated value
    ClearCache,
    /// Calculate the value again
    Refresh,
    /// Calculate the value if there is none
    Restore,
}
//@end

// what the function registered for a node does (proved for the closure in GraphValue::new below)
spec fn dispatched(a: WS, b: WS, id: GraphId, kind: RefreshKind, pend: Set<GraphId>) -> bool {
    match kind {
        RefreshKind::ClearCache => b == (WS { cache: a.cache.remove(id), ..a }),
        RefreshKind::Refresh => if a.cache.contains_key(id) { calculated(a, b, id, pend) } else { b == a },
        RefreshKind::Restore => if a.cache.contains_key(id) { b == a } else { calculated(a, b, id, pend) },
    }
}
// a subscriber that was dropped while it was being refreshed goes away when that refresh is over
spec fn called_back(a: WS, b: WS, id: GraphId, kind: RefreshKind, pend: Set<GraphId>) -> bool {
    if kind is Refresh && id.kind() == GraphIdKind::Client {
        exists|m: WS| #[trigger] dispatched(a, m, id, kind, pend) && (b == m || released(m, b, id, pend.remove(id)))
    } else {
        dispatched(a, b, id, kind, pend)
    }
}
// the effect of dropping node id (proved for GraphValue::drop below)
spec fn released(a: WS, b: WS, id: GraphId, pend: Set<GraphId>) -> bool {
    &&& inv(b, pend) && ages(a, b) && b.dead.contains(id) && !b.cache.contains_key(id)
    &&& b.store == a.store && b.events == a.events && b.ts == a.ts
    &&& forall|p: GraphId| !#[trigger] b.edges.contains((p, id))
}
spec fn may_dispatch(a: WS, id: GraphId, kind: RefreshKind, pend: Set<GraphId>) -> bool {
    match kind {
        RefreshKind::ClearCache => a.live.contains(id),
        RefreshKind::Refresh => inv(a, pend) && a.live.contains(id) && (a.cache.contains_key(id) ==> may_calc(a, id, pend)),
        RefreshKind::Restore => inv(a, pend) && a.live.contains(id) && (!a.cache.contains_key(id) ==> may_calc(a, id, pend)),
    }
}
spec fn noted(a: WS, id: GraphId) -> WS { WS { events: a.events.push(Event::Refresh(id)), ..a } }
proof fn lemma_noted(a: WS, id: GraphId, pend: Set<GraphId>)
    requires inv(a, pend),
    ensures inv(noted(a, id), pend),
{
    let b = noted(a, id);
    assert forall|n: GraphId| #[trigger] b.cache.contains_key(n) && (n.kind() == GraphIdKind::Computed || !pend.contains(n)) implies good(b, n) by { assert(good(a, n)); }
}
// ghost: a refresh function is about to be called
#[verifier::external_body]
fn vx_note(w: &mut World, Ghost(id): Ghost<GraphId>)
    ensures final(w).s() == noted(old(w).s(), id),
{ unimplemented!() }
#[verifier::external_body]
struct Token { _p: () }
impl Token {
    uninterp spec fn id(self) -> GraphId;
    // the call of the registered function
    #[verifier::external_body]
    fn call(self, kind: RefreshKind, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>)
        requires may_dispatch(old(w).s(), self.id(), kind, pend),
        ensures called_back(old(w).s(), final(w).s(), self.id(), kind, pend),
    { unimplemented!() }
}
pub struct Refresh { _p: u8 }
impl Refresh {
    // stores the function under id (proved over BTreeMapMut: insert); what it does is the closure's own contract
    #[verifier::external_body]
    fn refresh_token_add<F: Fn(RefreshKind, &mut World, Ghost<Set<GraphId>>)>(&self, id: GraphId, graph_value_refresh: F, w: &mut World)
        requires
            fresh(old(w).s(), id), id.kind() != GraphIdKind::Value,
            forall|kind: RefreshKind, x: &mut World, pend: Ghost<Set<GraphId>>| #![trigger call_requires(graph_value_refresh, (kind, x, pend))]
                may_dispatch((*x).s(), id, kind, pend@) ==> call_requires(graph_value_refresh, (kind, x, pend)),
            forall|kind: RefreshKind, x: &mut World, pend: Ghost<Set<GraphId>>| #![trigger call_ensures(graph_value_refresh, (kind, x, pend), ())]
                may_dispatch((*x).s(), id, kind, pend@) && call_ensures(graph_value_refresh, (kind, x, pend), ()) ==> dispatched((*x).s(), (*final(x)).s(), id, kind, pend@),
        ensures final(w).s() == (WS { live: old(w).s().live.insert(id), ..old(w).s() }),
    { unimplemented!() }
    // forgets the function.  It is called when the last reference to node id is gone: from here on its calculated value
    // cannot be read any more, and every function that could read it is gone or has been given other values
    #[verifier::external_body]
    fn refresh_token_drop(&self, id: GraphId, w: &mut World)
        ensures final(w).s() == (WS { live: old(w).s().live.remove(id), dead: old(w).s().dead.insert(id), cache: old(w).s().cache.remove(id), ..old(w).s() }),
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, id: &GraphId, w: &World) -> (r: Option<Token>)
        ensures r is Some <==> w.s().live.contains(*id), r is Some ==> r->0.id() == *id,
    { unimplemented!() }

//@item impl Refresh :: fn refresh
    pub(crate) fn refresh(&self, id: &GraphId «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires inv(old(w).s(), pend), old(w).s().live.contains(*id) ==> may_dispatch(old(w).s(), *id, RefreshKind::Refresh, pend),
        ensures if old(w).s().live.contains(*id) { called_back(noted(old(w).s(), *id), final(w).s(), *id, RefreshKind::Refresh, pend) } else { final(w).s() == old(w).s() },»
    {
        if let Some(refresh) = self.get(id «, &*w») {
            «let ghost a = w.s();
            vx_note(w, Ghost(*id));
            proof { lemma_noted(a, *id, pend); }»
            ⟦refresh(⇒refresh.call(⟧RefreshKind::Refresh «, w, Ghost(pend)»);
        }
    }
//@end
//@item impl Refresh :: fn clear_cache
    pub(crate) fn clear_cache(&self, id: &GraphId «, w: &mut World»)
        «ensures final(w).s() == (if old(w).s().live.contains(*id) { WS { cache: old(w).s().cache.remove(*id), ..old(w).s() } } else { old(w).s() }),»
    {
        if let Some(refresh) = self.get(id «, &*w») {
            ⟦refresh(⇒refresh.call(⟧RefreshKind::ClearCache «, w, Ghost(Set::empty())»);
        }
    }
//@end
//@item impl Refresh :: fn restore
    pub(crate) fn restore(&self, id: &GraphId «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires inv(old(w).s(), pend), old(w).s().live.contains(*id) ==> may_dispatch(old(w).s(), *id, RefreshKind::Restore, pend),
        ensures if old(w).s().live.contains(*id) { dispatched(old(w).s(), final(w).s(), *id, RefreshKind::Restore, pend) } else { final(w).s() == old(w).s() },»
    {
        if let Some(refresh) = self.get(id «, &*w») {
            ⟦refresh(⇒refresh.call(⟧RefreshKind::Restore «, w, Ghost(pend)»);
        }
    }
//@end
}

//@file crates/vertigo/src/computed/context.rs
//@item struct Context
pub struct Context {
    //In transaction
    parent_ids: ⟦VecMut<GraphId>⇒Vec<GraphId>⟧,
}
//@end
impl Context {
//@item impl Context :: fn new
    pub(crate) fn new() -> «(r:» Context «)
        ensures r.parent_ids@.len() == 0,»
    {
        Context {
            parent_ids: ⟦VecMut::new()⇒Vec::new()⟧,
        }
    }
//@end
//@item impl Context :: fn add_parent
    pub(crate) fn add_parent(⟦&self⇒&mut self⟧, parent_id: GraphId)
        «ensures final(self).parent_ids@ == old(self).parent_ids@.push(parent_id),»
    {
        self.parent_ids.push(parent_id);
    }
//@end
//@item impl Context :: fn get_parents
    pub(crate) fn get_parents(self) -> «(r:» BTreeSet<GraphId> «)
        ensures r@ == self.parent_ids@.to_set(),»
    {
        let list = ⟦self.parent_ids.into_inner()⇒self.parent_ids⟧;
        ⟦list.into_iter().collect::<BTreeSet<_>>()⇒VxIter(list).collect_set()⟧
    }
//@end
}

//@file crates/vertigo/src/computed/dependencies/graph.rs
//@item struct Graph
pub struct Graph {
    pub(crate) refresh: Refresh,
    pub(crate) connections: GraphConnections,
    pub(crate) external_connections: ExternalConnections,
}
//@end
impl Graph {
//@item impl Graph :: fn remove_client
    pub(crate) fn remove_client(&self, client_id: GraphId «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires
            inv(old(w).s(), pend), client_id.kind() != GraphIdKind::Value, !old(w).s().cache.contains_key(client_id),
            client_id.kind() == GraphIdKind::Client ==> old(w).s().live.contains(client_id) || old(w).s().dead.contains(client_id),
        ensures
            inv(final(w).s(), pend), !final(w).s().cache.contains_key(client_id),
            linked(old(w).s(), final(w).s(), client_id, Set::empty()),»
    {
        self.set_parent_for_client(client_id, BTreeSet::new() «, w, Ghost(pend)»);
    }
//@end
//@item impl Graph :: fn push_context
    pub(crate) fn push_context(&self, client_id: GraphId, context: Context «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires
            inv(old(w).s(), pend), parents_ok(client_id, context.parent_ids@.to_set()), client_id.kind() != GraphIdKind::Value,
            client_id.kind() == GraphIdKind::Computed ==> !old(w).s().cache.contains_key(client_id),
            client_id.kind() == GraphIdKind::Client ==> old(w).s().live.contains(client_id) || old(w).s().dead.contains(client_id) && !old(w).s().cache.contains_key(client_id),
            forall|p: GraphId| #[trigger] context.parent_ids@.to_set().contains(p) ==> p.kind() == GraphIdKind::Value || old(w).s().live.contains(p),
        ensures
            inv(final(w).s(), pend), !final(w).s().cache.contains_key(client_id),
            linked(old(w).s(), final(w).s(), client_id, context.parent_ids@.to_set()),
            forall|p: GraphId| #[trigger] context.parent_ids@.to_set().contains(p) ==> p.kind() == GraphIdKind::Value || final(w).s().cache.contains_key(p),»
    {
        «let ghost a = w.s(); let ghost new = context.parent_ids@.to_set();»
        let parents = context.get_parents();
        self.set_parent_for_client(client_id, ⟦parents.clone()⇒vx_set_clone(&parents)⟧ «, w, Ghost(pend)»);
        «let ghost m = w.s();»

        for parent_id in «it:» ⟦parents⇒vx_set_into_iter(parents)⟧
            «invariant
                lists(it.seq(), new),
                inv(w.s(), pend), !m.cache.contains_key(client_id), linked(a, m, client_id, new),
                parents_ok(client_id, new),
                forall|p: GraphId| #[trigger] new.contains(p) ==> p.kind() == GraphIdKind::Value || m.live.contains(p),
                frame(m, w.s(), rank(client_id) - 1),
                forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]).kind() == GraphIdKind::Value || w.s().cache.contains_key(it.seq()[i]),»
        {
            «let ghost b = w.s();
            assert(it.seq()[it.index@ as int] == parent_id);
            assert(it.seq().contains(parent_id));
            assert(new.contains(parent_id));»
            self.refresh.restore(&parent_id «, w, Ghost(pend)»);
            «proof {
                assert(pend.remove(parent_id) =~= pend);
                assert(frame(b, w.s(), rank(parent_id) as int));
                lemma_frame_trans2(m, b, w.s(), rank(client_id) - 1, rank(parent_id) as int);
                assert forall|i: int| 0 <= i < it.index@ + 1 implies (#[trigger] it.seq()[i]).kind() == GraphIdKind::Value || w.s().cache.contains_key(it.seq()[i]) by {
                    if i < it.index@ && it.seq()[i].kind() != GraphIdKind::Value {
                        let q = it.seq()[i];
                        assert(it.seq().contains(q));
                        assert(new.contains(q));
                        assert(m.edges.contains((q, client_id)));
                        assert(b.edges.contains((q, client_id)));
                        assert(b.cache.contains_key(q));
                    }
                }
            }»
        }
        «proof {
            lemma_frame_keep(a, m, w.s(), client_id);
            assert forall|p: GraphId| #[trigger] new.contains(p) implies w.s().edges.contains((p, client_id)) by { assert(m.edges.contains((p, client_id))); }
            assert forall|p: GraphId| #[trigger] w.s().edges.contains((p, client_id)) implies new.contains(p) by { assert(m.edges.contains((p, client_id))); }
        }»
    }
//@end
//@item impl Graph :: fn set_parent_for_client
    pub(crate) fn set_parent_for_client(
        &self,
        client_id: GraphId,
        parents_list: BTreeSet<GraphId>,
        «w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»
    )
        «requires
            inv(old(w).s(), pend), parents_ok(client_id, parents_list@), client_id.kind() != GraphIdKind::Value,
            client_id.kind() == GraphIdKind::Computed ==> !old(w).s().cache.contains_key(client_id),
            client_id.kind() == GraphIdKind::Client ==> old(w).s().live.contains(client_id) || old(w).s().dead.contains(client_id) && !old(w).s().cache.contains_key(client_id),
        ensures
            inv(final(w).s(), pend),
            !final(w).s().cache.contains_key(client_id),
            linked(old(w).s(), final(w).s(), client_id, parents_list@),»
    {
        «let ghost a = w.s(); let ghost new = parents_list@;
        proof {
            let rk = |n: GraphId| rank(n);
            assert(ranked(rk, a.edges, client_id, new));
        }»
        let edge_list = self
            .connections
            .set_parent_for_client(client_id, parents_list «, w»);
        «let ghost r = edge_list@; let ghost a1 = w.s(); let ghost e = w.s().edges;»

        for (id, active) in «it:» ⟦edge_list⇒vx_map_into_iter(edge_list)⟧
            «invariant
                entries(it.seq(), r), it.seq().no_duplicates(),
                swept(a1, w.s(), it.seq().take(it.index@ as int)),
                forall|v: GraphId| #[trigger] a1.connectable.contains(v) ==> v.kind() == GraphIdKind::Value,
                it.index@ == it.seq().len() ==> swept(a1, w.s(), it.seq()),»
        {
            «proof {
                assert(it.seq()[it.index@ as int] == (id, active));
                assert(it.seq().contains((id, active)));
                assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@ as int).push((id, active)));
                assert(it.seq().take(it.index@ as int).contains((id, !active)) ==> it.seq().contains((id, !active)));
                assert(!it.seq().take(it.index@ as int).contains((id, !active)));
            }
            let ghost b = w.s();»
            match id.get_type() {
                GraphIdKind::Value => {
                    self.external_connections.set_connection(id, active «, w»);
                }
                GraphIdKind::Computed => {
                    if active {
                    } else {
                        self.refresh.clear_cache(&id «, w»);
                    }
                }
                GraphIdKind::Client => {
                    if active {
                    } else {
                        self.refresh.clear_cache(&id «, w»);
                    }
                }
            }
            «proof {
                lemma_swept_step(a1, b, it.seq().take(it.index@ as int), (id, active), w.s(), it.seq());
                assert(it.index@ + 1 == it.seq().len() ==> it.seq().take(it.index@ + 1) =~= it.seq());
            }»
        }
        «proof {
            let s = choose|s: Seq<(GraphId, bool)>| entries(s, r) && swept(a1, w.s(), s);
            lemma_replace(a, client_id, new, e, r, s, w.s(), pend);
        }»
    }
//@end
}
spec fn keep(a: WS, b: WS, n: GraphId) -> WS {
    WS { cache: if a.cache.contains_key(n) { b.cache.insert(n, a.cache[n]) } else { b.cache }, ..b }
}
// n is linked to exactly the nodes of new; n's own calculated value aside nothing above n changes
spec fn linked(a: WS, b: WS, n: GraphId, new: Set<GraphId>) -> bool {
    &&& frame(a, keep(a, b, n), rank(n) as int)
    &&& forall|p: GraphId| new.contains(p) ==> #[trigger] b.edges.contains((p, n))
    &&& forall|p: GraphId| #[trigger] b.edges.contains((p, n)) ==> new.contains(p)
}

// ---- values that are calculated ------------------------------------------------------------------------------------
#[verifier::external_body]
fn vx_clone<T: Clone>(t: &T) -> (r: T)
    ensures r == *t,
{ t.clone() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CellOpt<T> { _p: std::marker::PhantomData<T> }
impl<T> CellOpt<T> {
    pub uninterp spec fn id(self) -> GraphId;
    spec fn holds(self, x: Option<T>, s: WS) -> bool {
        &&& x is Some <==> s.cache.contains_key(self.id())
        &&& x is Some ==> val(x->0) == s.cache[self.id()]
    }
    #[verifier::external_body]
    fn new(x: Option<T>, Ghost(id): Ghost<GraphId>, w: &World) -> (r: Self)
        requires x is None, !w.s().cache.contains_key(id),
        ensures r.id() == id,
    { unimplemented!() }
    #[verifier::external_body]
    fn set(&self, x: Option<T>, w: &mut World)
        ensures final(w).s() == (WS { cache: if x is Some { old(w).s().cache.insert(self.id(), val(x->0)) } else { old(w).s().cache.remove(self.id()) }, ..old(w).s() }),
    { unimplemented!() }
    #[verifier::external_body]
    fn map<K, F: FnOnce(&Option<T>) -> K>(&self, f: F, w: &World) -> (r: K)
        requires forall|x: &Option<T>| self.holds(*x, w.s()) ==> call_requires(f, (x,)),
        ensures exists|x: &Option<T>| self.holds(*x, w.s()) && call_ensures(f, (x,), r),
    { unimplemented!() }
}
// the function given to a computed value or built by subscribe
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Function<T> { _p: std::marker::PhantomData<T> }
impl<T> Function<T> {
    pub uninterp spec fn id(self) -> GraphId;
    #[verifier::external_body]
    fn of<F>(f: F, Ghost(id): Ghost<GraphId>) -> (r: Self) ensures r.id() == id { unimplemented!() }
    fn call(&self, context: &mut Context, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>) -> (r: T)
        requires inv(old(w).s(), pend), old(context).parent_ids@.len() == 0, old(w).s().live.contains(self.id()),
        ensures called(old(w).s(), final(w).s(), final(context).parent_ids@.to_set(), val(r), self.id(), pend),
    {
        vx_eval(self.id_exec(), context, w, Ghost(pend))
    }
    #[verifier::external_body]
    fn id_exec(&self) -> (r: GraphId) ensures r == self.id() { unimplemented!() }
}
spec fn called(a: WS, b: WS, parents: Set<GraphId>, v: Val, n: GraphId, pend: Set<GraphId>) -> bool {
    &&& inv(b, pend)
    &&& b.store == a.store && b.events == a.events && b.ts == a.ts && ages(a, b)
    &&& b.cache.contains_key(n) == a.cache.contains_key(n)
    &&& b.live.contains(n)
    &&& parents == reads(n, b.store)
    &&& forall|p: GraphId| #[trigger] reads(n, b.store).contains(p) ==> p.kind() == GraphIdKind::Value || b.live.contains(p)
    &&& v == eval(n, b.store)
    &&& n.kind() == GraphIdKind::Computed ==> frame(a, b, rank(n) - 1)
}
//@file crates/vertigo/src/computed/dependencies/mod.rs
//@item struct Dependencies
pub struct Dependencies {
    pub(crate) graph: Graph,
    transaction_state: TransactionState,
    pub(crate) hooks: Hooks,
}
//@end
pub struct DriverInner { pub dependencies: Dependencies }
pub struct Driver { pub inner: DriverInner }
#[verifier::external_body]
fn get_driver() -> &'static Driver { unimplemented!() }

// a node number that was not used before
spec fn fresh(s: WS, id: GraphId) -> bool {
    &&& !s.live.contains(id) && !s.dead.contains(id) && !s.cache.contains_key(id)
    &&& forall|p: GraphId| !#[trigger] s.edges.contains((p, id))
}
#[verifier::external_body]
fn vx_new_computed(w: &World) -> (r: GraphId)
    ensures fresh(w.s(), r), r.kind() == GraphIdKind::Computed,
{ unimplemented!() }
#[verifier::external_body]
fn vx_new_client(w: &World) -> (r: GraphId)
    ensures fresh(w.s(), r), r.kind() == GraphIdKind::Client,
{ unimplemented!() }
// a weak reference; it can be followed while the node is registered (it is unregistered first thing when it is dropped)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxWeak<T> { _p: std::marker::PhantomData<T> }
impl<T: Clone> VxWeak<T> {
    pub uninterp spec fn target(self) -> GraphValue<T>;
    #[verifier::external_body]
    fn upgrade(&self, w: &World) -> (r: Option<Rc<GraphValue<T>>>)
        ensures w.s().live.contains(self.target().id) ==> r is Some, r is Some ==> *(r->0) == self.target(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_downgrade<T: Clone>(x: &Rc<GraphValue<T>>) -> (r: VxWeak<T>)
    ensures r.target() == **x,
{ unimplemented!() }
proof fn lemma_new(a: WS, b: WS, id: GraphId, pend: Set<GraphId>)
    requires inv(a, pend), fresh(a, id), id.kind() != GraphIdKind::Value, b == (WS { live: a.live.insert(id), ..a }),
    ensures inv(b, pend),
{
    assert forall|n: GraphId| #[trigger] b.cache.contains_key(n) && (n.kind() == GraphIdKind::Computed || !pend.contains(n)) implies good(b, n) by { assert(good(a, n)); }
}
proof fn lemma_forgotten(a: WS, b: WS, id: GraphId, pend: Set<GraphId>)
    requires
        inv(a, pend), a.live.contains(id), forall|m: GraphId| #[trigger] a.cache.contains_key(m) ==> !reads(m, a.store).contains(id),
        b == (WS { live: a.live.remove(id), dead: a.dead.insert(id), cache: a.cache.remove(id), ..a }),
    ensures inv(b, pend),
{
    assert forall|n: GraphId| #[trigger] b.cache.contains_key(n) && (n.kind() == GraphIdKind::Computed || !pend.contains(n)) implies good(b, n) by {
        assert(a.cache.contains_key(n));
        assert(good(a, n));
        assert forall|p: GraphId| #[trigger] reads(n, b.store).contains(p) implies b.edges.contains((p, n)) && (p.kind() == GraphIdKind::Value || b.cache.contains_key(p)) by {
            assert(a.edges.contains((p, n)));
        }
    }
}
//@file crates/vertigo/src/computed/graph_value.rs
#[verifier::reject_recursive_types(T)]
//@item struct GraphValue
pub struct GraphValue<T> {
    id: GraphId,
    get_value: ⟦Box<dyn Fn(&Context) -> T>⇒Function<T>⟧,
    state: ⟦ValueMut<Option<T>>⇒CellOpt<T>⟧,
}
//@end
impl<T: Clone> GraphValue<T> {
    spec fn wf(self) -> bool { self.get_value.id() == self.id && self.state.id() == self.id && self.id.kind() != GraphIdKind::Value }
//@item impl GraphValue :: fn new
    pub fn new<⟦F: Fn(&Context) -> T + 'static⇒F⟧>(
        is_computed_type: bool,
        get_value: F,
        «w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»
    ) -> «(r:» Rc<GraphValue<T>> «)
        requires inv(old(w).s(), pend),
        ensures
            r.wf(), fresh(old(w).s(), r.id), r.id.kind() == (if is_computed_type { GraphIdKind::Computed } else { GraphIdKind::Client }),
            final(w).s() == (WS { live: old(w).s().live.insert(r.id), ..old(w).s() }),
            inv(final(w).s(), pend),»
    {
        let id = match is_computed_type {
            true => ⟦GraphId::new_computed()⇒vx_new_computed(w)⟧,
            false => ⟦GraphId::new_client()⇒vx_new_client(w)⟧,
        };

        let graph_value = Rc::new(GraphValue {
            id,
            get_value: ⟦Box::new(get_value)⇒Function::of(get_value, Ghost(id))⟧,
            state: ⟦ValueMut::new(None)⇒CellOpt::new(None, Ghost(id), w)⟧,
        });

        let weak_value = ⟦Rc::downgrade(&graph_value)⇒vx_downgrade(&graph_value)⟧;
        «let ghost a = w.s();»

        get_driver()
            .inner
            .dependencies
            .graph
            .refresh
            .refresh_token_add(graph_value.id, move |kind: RefreshKind «, w: &mut World, pend: Ghost<Set<GraphId>>»|
                «requires may_dispatch(old(w).s(), id, kind, pend@),
                ensures dispatched(old(w).s(), final(w).s(), id, kind, pend@),»
            {
                if let Some(weak_value) = weak_value.upgrade(«&*w») {
                    match kind {
                        RefreshKind::ClearCache => {
                            // computed
                            weak_value.state.set(None «, w»);
                        }
                        RefreshKind::Refresh => {
                            // client
                            weak_value.refresh(«w, pend»);
                        }
                        RefreshKind::Restore => {
                            weak_value.restore(«w, pend»);
                        }
                    }
                }
            } «, w»);
        «proof { lemma_new(a, w.s(), id, pend); }»

        graph_value
    }
//@end
//@item impl GraphValue :: fn calculate_new_value
    fn calculate_new_value(&self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» T «)
        requires self.wf(), inv(old(w).s(), pend), old(w).s().live.contains(self.id), may_calc(old(w).s(), self.id, pend),
        ensures
            calculated(old(w).s(), final(w).s(), self.id, pend),
            val(r) == eval(self.id, old(w).s().store),»
    {
        «let ghost a = w.s(); let ghost n = self.id;»
        let ⟦context⇒mut context⟧ = Context::new();
        let new_value = ⟦(self.get_value)(&context)⇒self.get_value.call(&mut context, w, Ghost(pend))⟧;
        «let ghost e = w.s();»
        get_driver()
            .inner
            .dependencies
            .graph
            .push_context(self.id, context «, w, Ghost(pend)»);
        «let ghost m = w.s();»

        self.state.set(Some(⟦new_value.clone()⇒vx_clone(&new_value)⟧) «, w»);
        «proof { lemma_calculated(a, e, m, w.s(), n, val(new_value), pend); }»

        new_value
    }
//@end
//@item impl GraphValue :: fn get_value
    pub fn get_value(&self, context: ⟦&Context⇒&mut Context⟧ «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» T «)
        requires self.wf(), inv(old(w).s(), pend), old(w).s().live.contains(self.id), self.id.kind() == GraphIdKind::Computed || !pend.contains(self.id),
        ensures
            val(r) == eval(self.id, old(w).s().store),
            final(context).parent_ids@ == old(context).parent_ids@.push(self.id),
            inv(final(w).s(), pend),
            final(w).s().store == old(w).s().store, final(w).s().events == old(w).s().events, final(w).s().ts == old(w).s().ts, ages(old(w).s(), final(w).s()),
            final(w).s().live.contains(self.id), final(w).s().cache.contains_key(self.id),
            self.id.kind() == GraphIdKind::Computed ==> frame(old(w).s(), final(w).s(), rank(self.id) as int),»
    {
        «assert(self.id.kind() == GraphIdKind::Client || !pend.contains(self.id));
        assert(pend.remove(self.id) =~= pend);»
        context.add_parent(self.id);

        let inner_value = self.state.map(|value «: &Option<T>»| «-> (o: Option<T>) ensures o == *value, {» ⟦value.clone()⇒vx_clone(value)⟧ «}, &*w»);

        if let Some(value) = inner_value {
            «assert(good(w.s(), self.id));»
            return value;
        }

        self.calculate_new_value(«w, Ghost(pend)»)
    }
//@end
//@item impl GraphValue :: fn refresh
    fn refresh(&self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires self.wf(), may_dispatch(old(w).s(), self.id, RefreshKind::Refresh, pend),
        ensures dispatched(old(w).s(), final(w).s(), self.id, RefreshKind::Refresh, pend),»
    {
        let is_some = self.state.map(|item «: &Option<T>»| «-> (o: bool) ensures o == (*item is Some), {» item.is_some() «}, &*w»);

        if is_some {
            self.calculate_new_value(«w, Ghost(pend)»);
        }
    }
//@end
//@item impl GraphValue :: fn restore
    fn restore(&self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires self.wf(), may_dispatch(old(w).s(), self.id, RefreshKind::Restore, pend),
        ensures dispatched(old(w).s(), final(w).s(), self.id, RefreshKind::Restore, pend),»
    {
        let is_none = self.state.map(|item «: &Option<T>»| «-> (o: bool) ensures o == (*item is None), {» item.is_none() «}, &*w»);

        if is_none {
            self.calculate_new_value(«w, Ghost(pend)»);
        }
    }
//@end
//@item impl Drop for GraphValue :: fn drop
    fn drop(&mut self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires
            old(self).wf(), inv(old(w).s(), pend), old(w).s().live.contains(old(self).id),
            // the program keeps what its functions read
            forall|m: GraphId| #[trigger] old(w).s().cache.contains_key(m) ==> !reads(m, old(w).s().store).contains(old(self).id),
        ensures released(old(w).s(), final(w).s(), old(self).id, pend),»
    {
        «let ghost a = w.s();»
        let deps = ⟦get_driver().inner.dependencies⇒&get_driver().inner.dependencies⟧;
        deps.graph.refresh.refresh_token_drop(self.id «, w»);
        «proof { lemma_forgotten(a, w.s(), self.id, pend); }»
        deps.graph.remove_client(self.id «, w, Ghost(pend)»);
        «proof {
            assert forall|p: GraphId| !#[trigger] w.s().edges.contains((p, self.id)) by { if w.s().edges.contains((p, self.id)) { assert(Set::<GraphId>::empty().contains(p)); } }
        }»
    }
//@end
//@item impl GraphValue :: fn id
    pub(crate) fn id(&self) -> «(r:» GraphId «)
        ensures r == self.id,»
    {
        self.id
    }
//@end
}

// ---- transactions ---------------------------------------------------------------------------------------------------
pub struct TransactionState { _p: u8 }
// contracts proved in unit transaction_state
impl TransactionState {
    #[verifier::external_body]
    fn up(&self, w: &mut World)
        requires ts_level(old(w).s().ts) < 65535,
        ensures final(w).s() == (WS { ts: ts_up(old(w).s().ts), ..old(w).s() }), !(old(w).s().ts is Refreshing),
    { unimplemented!() }
    #[verifier::external_body]
    fn down(&self, w: &mut World) -> (r: Option<BTreeSet<GraphId>>)
        requires old(w).s().ts is Modification ==> old(w).s().ts->level >= 1,
        ensures
            final(w).s() == (WS { ts: ts_down(old(w).s().ts), ..old(w).s() }),
            r is Some <==> ts_down_result(old(w).s().ts) is Some,
            r is Some ==> r->0@ == ts_down_result(old(w).s().ts)->0,
    { unimplemented!() }
    #[verifier::external_body]
    fn move_to_idle(&self, w: &mut World)
        ensures final(w).s() == (WS { ts: ts_to_idle(old(w).s().ts), ..old(w).s() }),
    { unimplemented!() }
    #[verifier::external_body]
    fn add_clients_to_refresh(&self, client: BTreeSet<GraphId>, w: &mut World)
        ensures final(w).s() == (WS { ts: ts_add(old(w).s().ts, client@), ..old(w).s() }),
    { unimplemented!() }
}
pub struct Hooks { _p: u8 }
impl Hooks {
    // calls every end-of-transaction hook; what the hooks do (flushing the DOM, and what the program adds) is their own
    #[verifier::external_body]
    fn fire_end(&self, w: &mut World)
        ensures final(w).s() == (WS { events: old(w).s().events.push(Event::End), ..old(w).s() }),
    { unimplemented!() }
}
spec fn pend(t: TS) -> Set<GraphId> {
    match t { TS::Modification { level, clients } => clients, _ => Set::empty() }
}
// between operations of the program
spec fn settled(s: WS) -> bool { inv(s, pend(s.ts)) && !(s.ts is Refreshing) }
// the start of a transaction's body
spec fn opened(a: WS) -> WS { WS { ts: ts_up(a.ts), ..a } }
// what a transaction's body must leave behind: transactions it opened are closed
spec fn body_ok(a: WS, b: WS) -> bool {
    &&& settled(b)
    &&& b.ts is Modification && a.ts is Modification && b.ts->level == a.ts->level
}
spec fn refreshes(done: Seq<GraphId>) -> Seq<Event> { done.map_values(|id: GraphId| Event::Refresh(id)) }
// the end of a transaction whose body ended in state m: an inner one only counts down; the outermost one refreshes every
// waiting subscriber that is still there, each once, and then fires the hooks once
spec fn finished(m: WS, b: WS) -> bool {
    if ts_level(m.ts) > 1 {
        b == (WS { ts: ts_down(m.ts), ..m })
    } else {
        &&& b.ts is Idle && b.store == m.store && settled(b) && ages(m, b)
        &&& exists|done: Seq<GraphId>| #[trigger] refreshed(m, b, done)
    }
}
spec fn refreshed(m: WS, b: WS, done: Seq<GraphId>) -> bool {
    &&& b.events == (m.events + refreshes(done)).push(Event::End)
    &&& done.no_duplicates()
    &&& forall|id: GraphId| #[trigger] done.contains(id) ==> pend(m.ts).contains(id)
    &&& forall|id: GraphId| #[trigger] pend(m.ts).contains(id) ==> done.contains(id) || b.dead.contains(id)
}
proof fn lemma_ts(a: WS, b: WS, p: Set<GraphId>)
    requires inv(a, p), b == (WS { ts: b.ts, events: b.events, ..a }), b.ts is Modification ==> b.ts->level >= 1,
    ensures inv(b, p),
{
    assert forall|n: GraphId| #[trigger] b.cache.contains_key(n) && (n.kind() == GraphIdKind::Computed || !p.contains(n)) implies good(b, n) by { assert(good(a, n)); }
}
spec fn rest(all: Seq<GraphId>, k: int) -> Set<GraphId> { if k == 0 { all.to_set() } else { all.skip(k).to_set() } }
// the nodes of s worked off: the computed ones were forgotten
spec fn part(a: WS, b: WS, s: Seq<GraphId>) -> bool {
    &&& same_rest(a, b) && b.edges == a.edges && b.conn == a.conn
    &&& forall|n: GraphId| #[trigger] b.cache.contains_key(n) ==> a.cache.contains_key(n) && b.cache[n] == a.cache[n] && !(n.kind() == GraphIdKind::Computed && s.contains(n) && a.live.contains(n))
    &&& forall|n: GraphId| #[trigger] a.cache.contains_key(n) && !(n.kind() == GraphIdKind::Computed && s.contains(n)) ==> b.cache.contains_key(n)
}
// x was given content v, what was calculated from it was forgotten, and its subscribers wait to be refreshed
spec fn stale(a: WS, b: WS, x: GraphId, v: Val) -> bool {
    &&& b.store == a.store.insert(x, v) && b.edges == a.edges && b.live == a.live && b.connectable == a.connectable && b.conn == a.conn && b.events == a.events && b.dead == a.dead
    &&& b.ts is Modification && b.ts->level == a.ts->level
    &&& forall|n: GraphId| #[trigger] pend(b.ts).contains(n) <==> pend(a.ts).contains(n) || (n.kind() == GraphIdKind::Client && reachable(a.edges, x, n))
}
proof fn lemma_stale(a: WS, b: WS, x: GraphId, v: Val, c: WS)
    requires
        settled(a), a.ts is Modification, x.kind() == GraphIdKind::Value,
        exists|s: Seq<GraphId>| #[trigger] part(WS { store: a.store.insert(x, v), ..a }, b, s) && (forall|n: GraphId| #[trigger] s.to_set().contains(n) <==> reachable(a.edges, x, n)),
        exists|t: Set<GraphId>| c == (WS { ts: #[trigger] ts_add(b.ts, t), ..b }) && (forall|n: GraphId| #[trigger] t.contains(n) <==> n.kind() == GraphIdKind::Client && reachable(a.edges, x, n)),
    ensures stale(a, c, x, v), settled(c),
{
    let t = choose|t: Set<GraphId>| c == (WS { ts: #[trigger] ts_add(b.ts, t), ..b }) && (forall|n: GraphId| #[trigger] t.contains(n) <==> n.kind() == GraphIdKind::Client && reachable(a.edges, x, n));
    let s = choose|s: Seq<GraphId>| #[trigger] part(WS { store: a.store.insert(x, v), ..a }, b, s) && (forall|n: GraphId| #[trigger] s.to_set().contains(n) <==> reachable(a.edges, x, n));
    let a1 = WS { store: a.store.insert(x, v), ..a };
    let b2 = WS { store: b.store, ts: a.ts, ..b };
    assert forall|n: GraphId| #[trigger] b2.cache.contains_key(n) <==> a.cache.contains_key(n) && !(n.kind() == GraphIdKind::Computed && reachable(a.edges, x, n)) by {
        if b2.cache.contains_key(n) { assert(b.cache.contains_key(n)); assert(a.live.contains(n)); }
        if a.cache.contains_key(n) { assert(a1.cache.contains_key(n)); assert(a.live.contains(n)); }
        assert(s.to_set().contains(n) <==> reachable(a.edges, x, n));
        assert(s.contains(n) <==> s.to_set().contains(n));
    }
    lemma_set(a, pend(a.ts), x, v, b2, pend(c.ts));
    lemma_ts(b2, c, pend(c.ts));
}
#[verifier::external_body]
fn vx_unreachable()
    requires false,
{ unreachable!() }

// one step of the refresh: the state b before, the state c after
proof fn lemma_refresh_one(b: WS, c: WS, id: GraphId, p: Set<GraphId>)
    requires
        inv(b, p), p.contains(id),
        if b.live.contains(id) { called_back(noted(b, id), c, id, RefreshKind::Refresh, p) } else { c == b },
    ensures
        inv(c, p.remove(id)), c.store == b.store, c.ts == b.ts, ages(b, c),
        c.events == (if b.live.contains(id) { b.events.push(Event::Refresh(id)) } else { b.events }),
        !b.live.contains(id) ==> c.dead.contains(id),
{
    assert(id.kind() == GraphIdKind::Client);
    if b.live.contains(id) {
        lemma_noted(b, id, p);
        let m = choose|m: WS| #[trigger] dispatched(noted(b, id), m, id, RefreshKind::Refresh, p) && (c == m || released(m, c, id, p.remove(id)));
        if !b.cache.contains_key(id) { lemma_shrink(noted(b, id), p, id); }
        assert(inv(m, p.remove(id)));
    } else {
        lemma_shrink(b, p, id);
    }
}
proof fn lemma_shrink(b: WS, p: Set<GraphId>, id: GraphId)
    requires inv(b, p), !b.cache.contains_key(id),
    ensures inv(b, p.remove(id)),
{
    assert forall|n: GraphId| #[trigger] b.cache.contains_key(n) && (n.kind() == GraphIdKind::Computed || !p.remove(id).contains(n)) implies good(b, n) by {
        assert(n != id);
        assert(!p.contains(n) || n.kind() == GraphIdKind::Computed);
    }
}
proof fn lemma_rest(all: Seq<GraphId>, k: int)
    requires 0 <= k < all.len(), all.no_duplicates(),
    ensures rest(all, k + 1) =~= rest(all, k).remove(all[k]), rest(all, k).contains(all[k]),
{
    assert(all.skip(0) =~= all);
    assert(all.skip(k)[0] == all[k]);
    assert forall|x: GraphId| #[trigger] rest(all, k + 1).contains(x) <==> rest(all, k).remove(all[k]).contains(x) by {
        if rest(all, k + 1).contains(x) {
            let t = all.skip(k + 1);
            let i = t.index_of(x);
            assert(t[i] == x && t[i] == all[k + 1 + i] && all.skip(k)[i + 1] == all[k + 1 + i]);
            assert(all[k] != all[k + 1 + i]);
        }
        if rest(all, k).remove(all[k]).contains(x) {
            let t = all.skip(k);
            let i = t.index_of(x);
            assert(t[i] == x && t[i] == all[k + i] && all.skip(k + 1)[i - 1] == all[k + i]);
        }
    }
}
proof fn lemma_done(done: Seq<GraphId>, id: GraphId, ev: Seq<Event>)
    ensures (ev + refreshes(done)).push(Event::Refresh(id)) =~= ev + refreshes(done.push(id)),
{
    assert(refreshes(done.push(id)) =~= refreshes(done).push(Event::Refresh(id)));
}

//@file crates/vertigo/src/computed/dependencies/mod.rs
impl Dependencies {
//@item impl Dependencies :: fn transaction
    pub fn transaction<R, F: ⟦FnOnce(&Context) -> R⇒FnOnce(&mut Context, &mut World) -> R⟧>(&self, func: F «, w: &mut World») -> «(r:» R «)
        requires
            settled(old(w).s()), ts_level(old(w).s().ts) < 65535,
            forall|c: &mut Context, x: &mut World| (*c).parent_ids@.len() == 0 && (*x).s() == opened(old(w).s()) ==> #[trigger] call_requires(func, (c, x)),
            forall|c: &mut Context, x: &mut World, r: R| (*c).parent_ids@.len() == 0 && (*x).s() == opened(old(w).s()) && #[trigger] call_ensures(func, (c, x), r) ==> body_ok((*x).s(), (*final(x)).s()),
        ensures
            exists|c: &mut Context, x: &mut World| (*c).parent_ids@.len() == 0 && (*x).s() == opened(old(w).s()) && #[trigger] call_ensures(func, (c, x), r) && finished((*final(x)).s(), final(w).s()),»
    {
        «let ghost a = w.s();»
        self.transaction_state.up(«w»);
        «proof { lemma_ts(a, w.s(), pend(a.ts)); }»

        let ⟦context⇒mut context⟧ = Context::new();
        let result = func(⟦&context⇒&mut context, w⟧);
        let _ = context;
        «let ghost m = w.s();
        assert(exists|c: &mut Context, x: &mut World| (*c).parent_ids@.len() == 0 && (*x).s() == opened(a) && #[trigger] call_ensures(func, (c, x), result) && (*final(x)).s() == m);»

        let edges_values = self.transaction_state.down(«w»);
        «let ghost d = w.s();»

        let Some(client_ids) = edges_values else {
            «assert(finished(m, w.s()));»
            return result;
        };
        «let ghost mut done: Seq<GraphId> = Seq::empty();
        let ghost mut left: Set<GraphId> = pend(m.ts);
        proof {
            lemma_ts(m, d, pend(m.ts));
            assert(m.events + refreshes(done) =~= m.events);
            assert(ts_level(m.ts) == 1);
        }»

        for id in «it:» ⟦client_ids⇒vx_set_into_iter(client_ids)⟧
            «invariant
                lists(it.seq(), pend(m.ts)), left =~= rest(it.seq(), it.index@ as int), d == (WS { ts: TS::Refreshing, ..m }), m.ts is Modification,
                inv(w.s(), left),
                w.s().ts is Refreshing, w.s().store == m.store, ages(m, w.s()),
                w.s().events == m.events + refreshes(done), done.no_duplicates(),
                forall|x: GraphId| #[trigger] done.contains(x) ==> it.seq().take(it.index@ as int).contains(x),
                forall|i: int| 0 <= i < it.index@ ==> done.contains(#[trigger] it.seq()[i]) || w.s().dead.contains(it.seq()[i]),
                it.index@ == it.seq().len() ==> inv(w.s(), Set::empty()) && (forall|x: GraphId| #[trigger] done.contains(x) ==> pend(m.ts).contains(x)) && (forall|x: GraphId| #[trigger] pend(m.ts).contains(x) ==> done.contains(x) || w.s().dead.contains(x)),»
        {
            «let ghost b = w.s();
            assert(it.seq()[it.index@ as int] == id);
            proof { lemma_rest(it.seq(), it.index@ as int); }»
            self.graph.refresh.refresh(&id «, w, Ghost(left)»);
            «proof {
                lemma_refresh_one(b, w.s(), id, left);
                left = left.remove(id);
                lemma_done(done, id, m.events);
                assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@ as int).push(id));
                assert forall|x: GraphId| #[trigger] it.seq().take(it.index@ as int).contains(x) implies it.seq().take(it.index@ + 1).contains(x) by { lemma_push_in(it.seq().take(it.index@ as int), id, x); }
                lemma_push_in(it.seq().take(it.index@ as int), id, id);
                assert(!it.seq().take(it.index@ as int).contains(id));
                assert(!done.contains(id));
                assert forall|x: GraphId| #[trigger] done.push(id).contains(x) <==> done.contains(x) || x == id by { lemma_push_in(done, id, x); }
                if b.live.contains(id) { done = done.push(id); }
                assert forall|i: int| 0 <= i < it.index@ + 1 implies done.contains(#[trigger] it.seq()[i]) || w.s().dead.contains(it.seq()[i]) by {}
            }»
        }
        «let ghost e = w.s();
        assert(inv(e, Set::empty()));»

        self.transaction_state.move_to_idle(«w»);
        self.hooks.fire_end(«w»);
        «proof {
            lemma_ts(e, w.s(), Set::empty());
            assert(refreshed(m, w.s(), done));
            assert(finished(m, w.s()));
        }»

        result
    }
//@end
//@item impl Dependencies :: fn report_set
    pub(crate) fn report_set(&self, value_id: GraphId «, w: &mut World, Ghost(a0): Ghost<WS>»)
        «requires
            // value_id has just been given another content in state a0
            settled(a0), a0.ts is Modification, value_id.kind() == GraphIdKind::Value,
            old(w).s() == (WS { store: old(w).s().store, ..a0 }), old(w).s().store == a0.store.insert(value_id, old(w).s().store[value_id]),
        ensures
            stale(a0, final(w).s(), value_id, old(w).s().store[value_id]), settled(final(w).s()),»
    {
        let mut client = BTreeSet::new();
        «let ghost a = w.s();»

        for id in «it:» ⟦self.graph.connections.get_all_deps(value_id)⇒vx_set_into_iter(self.graph.connections.get_all_deps(value_id, &*w))⟧
            «invariant
                lists(it.seq(), it.seq().to_set()), shape(a), inv(a0, pend(a0.ts)), a.edges == a0.edges, a.live == a0.live, a.cache == a0.cache,
                forall|x: GraphId| #![trigger it.seq().to_set().contains(x)] #![trigger reachable(a.edges, value_id, x)] it.seq().to_set().contains(x) <==> reachable(a.edges, value_id, x),
                part(a, w.s(), it.seq().take(it.index@ as int)),
                forall|x: GraphId| #[trigger] client@.contains(x) <==> x.kind() == GraphIdKind::Client && it.seq().take(it.index@ as int).contains(x),
                it.index@ == it.seq().len() ==> part(a, w.s(), it.seq()) && (forall|x: GraphId| #[trigger] client@.contains(x) <==> x.kind() == GraphIdKind::Client && it.seq().to_set().contains(x)) && (forall|x: GraphId| #[trigger] it.seq().to_set().contains(x) <==> reachable(a.edges, value_id, x)),»
        {
            «let ghost b = w.s();
            assert(it.seq()[it.index@ as int] == id);
            assert(it.seq().contains(id));
            assert(it.seq().to_set().contains(id));
            assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@ as int).push(id));
            proof {
                lemma_reach_last(a.edges, value_id, id);
                assert forall|x: GraphId| #[trigger] it.seq().take(it.index@ + 1).contains(x) <==> it.seq().take(it.index@ as int).contains(x) || x == id by { lemma_push_in(it.seq().take(it.index@ as int), id, x); }
            }»
            match id.get_type() {
                GraphIdKind::Value => {
                    ⟦unreachable!();⇒vx_unreachable();⟧
                }
                GraphIdKind::Computed => {
                    self.graph.refresh.clear_cache(&id «, w»);
                }
                GraphIdKind::Client => {
                    client.insert(id);
                }
            }
            «proof {
                assert(part(a, w.s(), it.seq().take(it.index@ + 1)));
                assert(it.index@ + 1 == it.seq().len() ==> it.seq().take(it.index@ + 1) =~= it.seq());
                assert forall|x: GraphId| #[trigger] client@.contains(x) <==> x.kind() == GraphIdKind::Client && it.seq().take(it.index@ + 1).contains(x) by {}
                assert(it.index@ + 1 == it.seq().len() ==> forall|x: GraphId| #[trigger] client@.contains(x) <==> x.kind() == GraphIdKind::Client && it.seq().to_set().contains(x));
            }»
        }
        «let ghost b = w.s();»

        self.transaction_state.add_clients_to_refresh(client «, w»);
        «proof { lemma_stale(a0, b, value_id, a.store[value_id], w.s()); }»
    }
//@end
}

// ---- source values --------------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Content<T> { _p: std::marker::PhantomData<T> }
impl<T> Content<T> {
    pub uninterp spec fn id(self) -> GraphId;
    #[verifier::external_body]
    fn new(v: T, Ghost(id): Ghost<GraphId>, w: &mut World) -> (r: Self)
        ensures r.id() == id, final(w).s() == (WS { store: old(w).s().store.insert(id, val(v)), ..old(w).s() }),
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, w: &World) -> (r: T)
        ensures val(r) == w.s().store[self.id()],
    { unimplemented!() }
    #[verifier::external_body]
    fn set(&self, v: T, w: &mut World)
        ensures final(w).s() == (WS { store: old(w).s().store.insert(self.id(), val(v)), ..old(w).s() }),
    { unimplemented!() }
    // ASSUMPTION: == is a lawful equality
    #[verifier::external_body]
    fn set_and_check(&self, v: T, w: &mut World) -> (r: bool)
        ensures
            final(w).s() == (WS { store: old(w).s().store.insert(self.id(), val(v)), ..old(w).s() }),
            !r ==> val(v) == old(w).s().store[self.id()],
    { unimplemented!() }
}
spec fn fresh_value(s: WS, id: GraphId) -> bool {
    &&& id.kind() == GraphIdKind::Value && !s.store.contains_key(id) && !s.connectable.contains(id) && !s.conn.contains(id)
    &&& forall|c: GraphId| !#[trigger] s.edges.contains((id, c))
}
#[verifier::external_body]
fn vx_new_value(w: &World) -> (r: GraphId)
    ensures fresh_value(w.s(), r),
{ unimplemented!() }
proof fn lemma_unlinked(e: Set<Edge>, x: GraphId, m: GraphId)
    requires forall|c: GraphId| !#[trigger] e.contains((x, c)),
    ensures !reachable(e, x, m),
{
    if reachable(e, x, m) {
        let s = choose|s: Seq<GraphId>| #[trigger] is_path(e, s) && s[0] == x && s.last() == m;
        let i = s.len() - 2;
        assert(i >= 0 && e.contains((s[0int], s[0int + 1])));
    }
}
// a new source value, or a change of the connection function of a value nobody depends on, disturbs nothing
proof fn lemma_new_value(a: WS, b: WS, id: GraphId, v: Val, p: Set<GraphId>)
    requires inv(a, p), id.kind() == GraphIdKind::Value, forall|c: GraphId| !#[trigger] a.edges.contains((id, c)), b == (WS { store: a.store.insert(id, v), ..a }),
    ensures inv(b, p),
{
    assert forall|m: GraphId| #[trigger] b.cache.contains_key(m) && (m.kind() == GraphIdKind::Computed || !p.contains(m)) implies good(b, m) by {
        assert(good(a, m));
        lemma_unlinked(a.edges, id, m);
        lemma_unreached(a, p, id, v, m);
    }
}
proof fn lemma_connectable(a: WS, b: WS, id: GraphId, p: Set<GraphId>)
    requires
        inv(a, p), b == (WS { connectable: b.connectable, ..a }),
        b.connectable == a.connectable.remove(id) || (b.connectable == a.connectable.insert(id) && id.kind() == GraphIdKind::Value && !a.conn.contains(id) && no_clients(a.edges, id)),
    ensures inv(b, p),
{
    assert forall|m: GraphId| #[trigger] b.cache.contains_key(m) && (m.kind() == GraphIdKind::Computed || !p.contains(m)) implies good(b, m) by { assert(good(a, m)); }
}
//@file crates/vertigo/src/computed/value.rs
#[verifier::reject_recursive_types(T)]
//@item struct ValueInner
struct ValueInner<T> {
    id: GraphId,
    value: ⟦ValueMut<T>⇒Content<T>⟧,
    deps: &'static Dependencies,
}
//@end
#[verifier::reject_recursive_types(T)]
//@item struct Value
pub struct Value<T> {
    inner: Rc<ValueInner<T>>,
}
//@end
impl<T> ValueInner<T> {
//@item impl Drop for ValueInner :: fn drop
    fn drop(&mut self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>»)
        «requires inv(old(w).s(), pend),
        ensures inv(final(w).s(), pend), final(w).s() == (WS { connectable: old(w).s().connectable.remove(old(self).id), ..old(w).s() }),»
    {
        «let ghost a = w.s();»
        self.deps
            .graph
            .external_connections
            .unregister_connect(self.id «, w»);
        «proof { lemma_connectable(a, w.s(), self.id, pend); }»
    }
//@end
}
proof fn lemma_opened(a: WS)
    requires settled(a),
    ensures settled(opened(a)), opened(a).ts is Modification, pend(opened(a).ts) == pend(a.ts),
        a.ts is Idle ==> opened(a).ts->level == 1,
        a.ts is Modification ==> opened(a).ts->level == a.ts->level + 1,
{
    lemma_ts(a, opened(a), pend(a.ts));
}
proof fn lemma_unopen(a: WS, x: GraphId, v: Val, m: WS, c: WS)
    requires settled(a), a.ts is Modification, stale(opened(a), m, x, v), settled(m), finished(m, c),
    ensures stale(a, c, x, v), settled(c),
{
    lemma_opened(a);
    lemma_ts(m, c, pend(m.ts));
}
impl<T: Clone> Value<T> {
    spec fn vid(self) -> GraphId { self.inner.id }
    spec fn wf(self) -> bool { self.inner.value.id() == self.inner.id && self.inner.id.kind() == GraphIdKind::Value }
//@item impl Value :: fn new
    pub fn new(value: T «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Self «)
        requires inv(old(w).s(), pend),
        ensures
            r.wf(), fresh_value(old(w).s(), r.vid()),
            final(w).s() == (WS { store: old(w).s().store.insert(r.vid(), val(value)), ..old(w).s() }),
            inv(final(w).s(), pend),»
    {
        «let ghost a = w.s(); let ghost id: GraphId; let ghost v = val(value);»
        let deps = ⟦get_driver().inner.dependencies⇒&get_driver().inner.dependencies; let id = vx_new_value(&*w)⟧;
        ⟦Value⇒let r = Value⟧ {
            inner: Rc::new(ValueInner {
                id: ⟦GraphId::new_value()⇒id⟧,
                value: ⟦ValueMut::new(value)⇒Content::new(value, Ghost(id), w)⟧,
                deps,
            }),
        }«;
        proof { lemma_new_value(a, w.s(), id, v, pend); }
        r»
    }
//@end
//@item impl Value :: fn with_connect
    pub fn with_connect<F>(value: T, create: F «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Computed<T> «)»
    where
        F: Fn(&Value<T>) -> DropResource ⟦+ 'static⇒⟧,
        «requires inv(old(w).s(), pend),
        ensures r.wf(), inv(final(w).s(), pend), final(w).s().live.contains(r.id_spec()),
            exists|id: GraphId| fresh_value(old(w).s(), id) && final(w).s() == (WS { store: old(w).s().store.insert(id, val(value)), connectable: #[trigger] old(w).s().connectable.insert(id), live: old(w).s().live.insert(r.id_spec()), ..old(w).s() }),»
    {
        «let ghost a = w.s(); let ghost v = val(value);»
        let deps = ⟦get_driver().inner.dependencies⇒&get_driver().inner.dependencies⟧;
        let id = ⟦GraphId::new_value()⇒vx_new_value(&*w)⟧;

        let value = Value {
            inner: Rc::new(ValueInner {
                id,
                value: ⟦ValueMut::new(value)⇒Content::new(value, Ghost(id), w)⟧,
                deps,
            }),
        };
        «proof { lemma_new_value(a, w.s(), id, v, pend); }»

        let computed = value.to_computed(«w, Ghost(pend)»);
        «let ghost b = w.s();»

        deps.graph
            .external_connections
            .register_connect(id, ⟦Rc::new(move || create(&value))⇒move || -> (o: DropResource) requires call_requires(create, (&value,)), ensures call_ensures(create, (&value,), o), { create(&value) }, w⟧);
        «proof { lemma_connectable(b, w.s(), id, pend); }»

        computed
    }
//@end
//@item impl Value :: fn map
    pub fn map<K: Clone + 'static, F: 'static + Fn(T) -> K>(&self, fun: F «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Computed<K> «)
        requires self.wf(), inv(old(w).s(), pend), forall|x: T| #[trigger] call_requires(fun, (x,)),
        ensures derived(old(w).s(), final(w).s(), r.id_spec(), pend), r.wf(),»
    {
        Computed::from({
            let computed = ⟦self.clone()⇒vx_value_clone(self)⟧;
            move |context «: &mut Context, w: &World»| «-> (o: K)
                requires self.wf(),
                ensures
                    exists|x: T| #[trigger] call_ensures(fun, (x,), o) && val(x) == w.s().store[self.vid()],
                    final(context).parent_ids@ == old(context).parent_ids@.push(self.vid()), {»
            fun(computed.get(context «, w»))
            «}»
        } «, w, Ghost(pend)»)
    }
//@end
//@item impl PartialEq for Value :: fn eq
    fn eq(&self, other: &Self) -> «(r:» bool «)
        ensures r <==> self.vid() == other.vid(),»
    {
        ⟦self.inner.id.eq(&other.inner.id)⇒self.inner.id == other.inner.id⟧
    }
//@end
//@item impl Value :: fn to_computed
    pub fn to_computed(&self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Computed<T> «)
        requires self.wf(), inv(old(w).s(), pend),
        ensures r.wf(), final(w).s() == (WS { live: old(w).s().live.insert(r.id_spec()), ..old(w).s() }), inv(final(w).s(), pend),»
    {
        let self_clone = ⟦self.clone()⇒vx_value_clone(self)⟧;

        Computed::from(move |context «: &mut Context, w: &World»| «-> (o: T)
            requires self_clone.wf(),
            ensures val(o) == w.s().store[self.vid()], final(context).parent_ids@ == old(context).parent_ids@.push(self.vid()), {» self_clone.get(context «, w») «}, w, Ghost(pend)»)
    }
//@end
//@item impl Value :: fn set
    pub fn set(&self, value: T «, w: &mut World»)
        «requires self.wf(), settled(old(w).s()), ts_level(old(w).s().ts) < 65535,
        ensures exists|m: WS| #[trigger] stale(opened(old(w).s()), m, self.vid(), val(value)) && settled(m) && finished(m, final(w).s()),»
    {
        «let ghost a = w.s(); let ghost v = val(value);
        proof { lemma_opened(a); }»
        self.inner.deps.transaction(⟦|_|⇒|_c: &mut Context, w: &mut World|⟧ «-> (o: ())
            requires old(w).s() == opened(a),
            ensures stale(opened(a), final(w).s(), self.vid(), v), settled(final(w).s()), body_ok(opened(a), final(w).s()),»
        {
            self.inner.value.set(value «, w»);
            self.inner.deps.report_set(self.inner.id «, w, Ghost(opened(a))»);
        } «, w»);
    }
//@end
//@item impl Value :: fn get
    pub fn get(&self, context: ⟦&Context⇒&mut Context⟧ «, w: &World») -> «(r:» T «)
        requires self.wf(),
        ensures val(r) == w.s().store[self.vid()], final(context).parent_ids@ == old(context).parent_ids@.push(self.vid()),»
    {
        context.add_parent(self.inner.id);
        self.inner.value.get(«w»)
    }
//@end
//@item impl Value :: fn change
    pub fn change«<F: FnOnce(&mut T)>»(&self, change_fn: ⟦impl FnOnce(&mut T)⇒F⟧ «, w: &mut World»)
        «requires
            self.wf(), settled(old(w).s()), ts_level(old(w).s().ts) < 65534,
            forall|p: &mut T| val(*p) == old(w).s().store[self.vid()] ==> #[trigger] call_requires(change_fn, (p,)),
        ensures
            exists|p: &mut T, m: WS| val(*p) == old(w).s().store[self.vid()] && #[trigger] call_ensures(change_fn, (p,), ()) && #[trigger] stale(opened(old(w).s()), m, self.vid(), val(*final(p))) && settled(m) && finished(m, final(w).s()),»
    {
        «let ghost a = w.s();
        proof { lemma_opened(a); }»
        self.inner.deps.transaction(|ctx «: &mut Context, w: &mut World»| «-> (o: ())
            requires old(w).s() == opened(a),
            ensures exists|p: &mut T| val(*p) == a.store[self.vid()] && #[trigger] call_ensures(change_fn, (p,), ()) && stale(opened(a), final(w).s(), self.vid(), val(*final(p))) && settled(final(w).s()) && body_ok(opened(a), final(w).s()),»
        {
            let mut value = self.get(ctx «, &*w»);
            change_fn(&mut value);
            self.set(value «, w»);
            «proof {
                let m = choose|m: WS| #[trigger] stale(opened(opened(a)), m, self.vid(), val(value)) && settled(m) && finished(m, w.s());
                lemma_unopen(opened(a), self.vid(), val(value), m, w.s());
            }»
        } «, w»);
    }
//@end
//@item impl Value :: fn id
    pub fn id(&self) -> «(r:» GraphId «)
        ensures r == self.vid(),»
    {
        self.inner.id
    }
//@end
//@item impl Value :: fn set_value_and_compare
    pub fn set_value_and_compare(&self, value: T «, w: &mut World»)
        «requires self.wf(), settled(old(w).s()), ts_level(old(w).s().ts) < 65535, old(w).s().store.contains_key(self.vid()),
        ensures exists|m: WS| (#[trigger] stale(opened(old(w).s()), m, self.vid(), val(value)) || (m == opened(old(w).s()) && m.store[self.vid()] == val(value))) && settled(m) && finished(m, final(w).s()),»
    {
        «let ghost a = w.s(); let ghost v = val(value);
        proof { lemma_opened(a); }»
        self.inner.deps.transaction(⟦|_|⇒|_c: &mut Context, w: &mut World|⟧ «-> (o: ())
            requires old(w).s() == opened(a),
            ensures stale(opened(a), final(w).s(), self.vid(), v) || (final(w).s() == opened(a) && a.store[self.vid()] == v), settled(final(w).s()), body_ok(opened(a), final(w).s()),»
        {
            let need_refresh = self.inner.value.set_and_check(value «, w»);
            «assert(!need_refresh ==> w.s().store =~= a.store);»
            if need_refresh {
                self.inner.deps.report_set(self.inner.id «, w, Ghost(opened(a))»);
            }
        } «, w»);
    }
//@end
}

// ---- computed values and subscriptions ------------------------------------------------------------------------------
//@file crates/vertigo/src/computed/computed_box.rs
#[verifier::reject_recursive_types(T)]
//@item struct Computed
pub struct Computed<T: Clone> {
    inner: Rc<GraphValue<T>>,
}
//@end
#[verifier::external_body]
fn vx_value_clone<T: Clone>(x: &Value<T>) -> (r: Value<T>)
    ensures r == *x,
{ unimplemented!() }
#[verifier::external_body]
fn vx_rc_clone<T>(x: &Rc<T>) -> (r: Rc<T>) ensures r == *x, { unimplemented!() }
// a new computed value was registered; nothing else changed
spec fn derived(a: WS, b: WS, id: GraphId, p: Set<GraphId>) -> bool {
    fresh(a, id) && b == (WS { live: a.live.insert(id), ..a }) && inv(b, p)
}
impl<T: Clone> Computed<T> {
    spec fn id_spec(self) -> GraphId { self.inner.id }
    spec fn wf(self) -> bool { self.inner.wf() && self.inner.id.kind() == GraphIdKind::Computed }
//@item impl Computed :: fn from
    pub fn from<⟦F: Fn(&Context) -> T + 'static⇒F⟧>(get_value: F «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Computed<T> «)
        requires inv(old(w).s(), pend),
        ensures r.wf(), fresh(old(w).s(), r.id_spec()), final(w).s() == (WS { live: old(w).s().live.insert(r.id_spec()), ..old(w).s() }), inv(final(w).s(), pend),»
    {
        Computed {
            inner: GraphValue::new(true, ⟦move |context| get_value(context)⇒get_value, w, Ghost(pend)⟧),
        }
    }
//@end
//@item impl Computed :: fn get
    pub fn get(&self, context: ⟦&Context⇒&mut Context⟧ «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» T «)
        requires self.wf(), inv(old(w).s(), pend), old(w).s().live.contains(self.id_spec()),
        ensures
            val(r) == eval(self.id_spec(), old(w).s().store),
            final(context).parent_ids@ == old(context).parent_ids@.push(self.id_spec()),
            inv(final(w).s(), pend), frame(old(w).s(), final(w).s(), rank(self.id_spec()) as int), ages(old(w).s(), final(w).s()),»
    {
        self.inner.get_value(context «, w, Ghost(pend)»)
    }
//@end
//@item impl Clone for Computed :: fn clone
    fn clone(&self) -> «(r:» Self «)
        ensures r == *self,»
    {
        Computed {
            inner: ⟦self.inner.clone()⇒vx_rc_clone(&self.inner)⟧,
        }
    }
//@end
//@item impl PartialEq for Computed :: fn eq
    fn eq(&self, other: &Self) -> «(r:» bool «)
        ensures r <==> self.id_spec() == other.id_spec(),»
    {
        self.id() == other.id()
    }
//@end
    // the mapped value reads the given one and nothing else, and gives what the function gives for its value
//@item impl Computed :: fn map
    pub fn map<K: Clone + 'static, F: 'static + Fn(T) -> K>(&self, fun: F «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Computed<K> «)
        requires self.wf(), inv(old(w).s(), pend), forall|x: T| #[trigger] call_requires(fun, (x,)),
        ensures derived(old(w).s(), final(w).s(), r.id_spec(), pend), r.wf(),»
    {
        Computed::from({
            let computed = self.clone();
            move |context «: &mut Context, w: &mut World, pend: Ghost<Set<GraphId>>»| «-> (o: K)
                requires self.wf(), inv(old(w).s(), pend@), old(w).s().live.contains(self.id_spec()),
                ensures
                    exists|x: T| #[trigger] call_ensures(fun, (x,), o) && val(x) == eval(self.id_spec(), old(w).s().store),
                    final(context).parent_ids@ == old(context).parent_ids@.push(self.id_spec()),
                    inv(final(w).s(), pend@), frame(old(w).s(), final(w).s(), rank(self.id_spec()) as int), ages(old(w).s(), final(w).s()), {»
            fun(computed.get(context «, w, pend»))
            «}»
        } «, w, Ghost(pend)»)
    }
//@end
//@item impl Computed :: fn id
    pub fn id(&self) -> «(r:» GraphId «)
        ensures r == self.id_spec(),»
    {
        self.inner.id()
    }
//@end
//@item impl Computed :: fn get_id
    pub fn get_id(&self) -> «(r:» GraphId «)
        ensures r == self.id_spec(),»
    {
        self.inner.id()
    }
//@end
}
// what one subscription keeps (the value it was last called with) and the calls it made; ghost twin of its two cells
#[verifier::external_body]
pub struct Sub { _p: () }
impl Sub {
    pub uninterp spec fn last(&self) -> Option<Val>;
    pub uninterp spec fn calls(&self) -> Seq<Val>;
}
#[verifier::external_body]
pub struct PrevCell { _p: () }
impl PrevCell {
    #[verifier::external_body]
    fn new<T>(x: Option<T>) -> (r: Self) { unimplemented!() }
    // contract of ValueMut::set_and_check, proved in unit connections; ASSUMPTION: == is a lawful equality
    #[verifier::external_body]
    fn set_and_check<T: PartialEq>(&self, x: Option<T>, sub: &mut Sub) -> (r: bool)
        ensures
            x is Some ==> (r <==> old(sub).last() != Some(val(x->0))) && final(sub).last() == Some(val(x->0)),
            final(sub).calls() == old(sub).calls(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ResourceCell<R> { _p: std::marker::PhantomData<R> }
impl<R> ResourceCell<R> {
    #[verifier::external_body]
    fn new(x: Option<R>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn change<F: FnOnce(&mut Option<R>)>(&self, f: F, w: &mut World)
        requires forall|p: &mut Option<R>| call_requires(f, (p,)),
        ensures final(w).s() == old(w).s(),
    { unimplemented!() }
}
// the program's callback: it may subscribe and unsubscribe, but writes no values (see vx_eval)
#[verifier::external_body]
fn vx_callback<T, R, F: Fn(T) -> R>(call: &F, x: T, sub: &mut Sub, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>) -> (r: R)
    requires inv(old(w).s(), pend),
    ensures
        final(sub).calls() == old(sub).calls().push(val(x)), final(sub).last() == old(sub).last(),
        inv(final(w).s(), pend), final(w).s().store == old(w).s().store, final(w).s().events == old(w).s().events, final(w).s().ts == old(w).s().ts, ages(old(w).s(), final(w).s()),
{ unimplemented!() }
#[verifier::external_body]
pub struct DropResource { _p: () }
impl DropResource {
    // the handle owns the subscriber: GraphValue::drop runs when the handle is dropped
    pub uninterp spec fn holds(self) -> GraphId;
    #[verifier::external_body]
    fn from_struct<T: Clone>(x: Rc<GraphValue<T>>) -> (r: Self) ensures r.holds() == x.id { unimplemented!() }
}
// a subscriber was registered, linked to what it reads and called once
spec fn subscribed(a: WS, b: WS, id: GraphId, p: Set<GraphId>) -> bool {
    &&& id.kind() == GraphIdKind::Client && !a.live.contains(id) && !a.dead.contains(id)
    &&& inv(b, p) && b.live.contains(id) && b.store == a.store && b.events == a.events && b.ts == a.ts
    &&& b.cache.contains_key(id)
    &&& forall|q: GraphId| #[trigger] reads(id, b.store).contains(q) ==> b.edges.contains((q, id))
}
impl<T: PartialEq + Clone> Computed<T> {
//@item impl Computed :: fn subscribe
    pub fn subscribe<R: 'static, F: Fn(T) -> R + 'static>(self, call: F «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» DropResource «)
        requires self.wf(), inv(old(w).s(), pend), old(w).s().live.contains(self.id_spec()),
        ensures subscribed(old(w).s(), final(w).s(), r.holds(), pend),»
    {
        «let ghost a = w.s();»
        let prev_value = ⟦ValueMut::new(None)⇒PrevCell::new::<T>(None)⟧;

        let resource_box = ⟦ValueMut⇒ResourceCell⟧::new(None);

        let graph_value = ⟦GraphValue::new⇒GraphValue::<()>::new⟧(false, move |context «: &mut Context, w: &mut World, sub: &mut Sub, pend: Ghost<Set<GraphId>>»| «-> (o: ())
            requires self.wf(), inv(old(w).s(), pend@), old(w).s().live.contains(self.id_spec()),
            ensures
                // the callback is called exactly when the value differs from the one of the last call
                final(sub).calls() == if old(sub).last() == Some(eval(self.id_spec(), old(w).s().store)) { old(sub).calls() } else { old(sub).calls().push(eval(self.id_spec(), old(w).s().store)) },
                final(sub).last() == Some(eval(self.id_spec(), old(w).s().store)),
                inv(final(w).s(), pend@), final(w).s().store == old(w).s().store, final(w).s().events == old(w).s().events, final(w).s().ts == old(w).s().ts,
                final(context).parent_ids@ == old(context).parent_ids@.push(self.id_spec()),»
        {
            let value = self.get(context «, w, pend»);

            let should_update = prev_value.set_and_check(Some(⟦value.clone()⇒vx_clone(&value)⟧) «, sub»);

            if should_update {
                let resource = ⟦call(value)⇒vx_callback(&call, value, sub, w, pend)⟧;
                resource_box.change(move |inner «: &mut Option<R>»| {
                    *inner = Some(resource);
                } «, w»);
            }
        } «, w, Ghost(pend)»);
        «assert(!pend.contains(graph_value.id));»

        let ⟦context⇒mut context⟧ = Context::new();
        graph_value.get_value(⟦&context⇒&mut context⟧ «, w, Ghost(pend)»);
        let _ = context;

        DropResource::from_struct(graph_value)
    }
//@end
}
impl<T: Clone> Computed<T> {
//@item impl Computed :: fn subscribe_all
    pub fn subscribe_all<R: 'static, F: Fn(T) -> R + 'static>(self, call: F «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» DropResource «)
        requires self.wf(), inv(old(w).s(), pend), old(w).s().live.contains(self.id_spec()),
        ensures subscribed(old(w).s(), final(w).s(), r.holds(), pend),»
    {
        «let ghost a = w.s();»
        let resource_box = ⟦ValueMut⇒ResourceCell⟧::new(None);

        let graph_value = ⟦GraphValue::new⇒GraphValue::<()>::new⟧(false, move |context «: &mut Context, w: &mut World, sub: &mut Sub, pend: Ghost<Set<GraphId>>»| «-> (o: ())
            requires self.wf(), inv(old(w).s(), pend@), old(w).s().live.contains(self.id_spec()),
            ensures
                final(sub).calls() == old(sub).calls().push(eval(self.id_spec(), old(w).s().store)),
                inv(final(w).s(), pend@), final(w).s().store == old(w).s().store, final(w).s().events == old(w).s().events, final(w).s().ts == old(w).s().ts,
                final(context).parent_ids@ == old(context).parent_ids@.push(self.id_spec()),»
        {
            let value = self.get(context «, w, pend»);

            let resource = ⟦call(value)⇒vx_callback(&call, value, sub, w, pend)⟧;
            resource_box.change(move |inner «: &mut Option<R>»| {
                *inner = Some(resource);
            } «, w»);
        } «, w, Ghost(pend)»);
        «assert(!pend.contains(graph_value.id));»

        let ⟦context⇒mut context⟧ = Context::new();
        graph_value.get_value(⟦&context⇒&mut context⟧ «, w, Ghost(pend)»);
        let _ = context;

        DropResource::from_struct(graph_value)
    }
//@end
}
// ---- the ways to make a computed value out of something else ----------------------------------------------------------
// a value with these contents nobody else knows, and a computed value of it
spec fn constant(a: WS, b: WS, id: GraphId, v: Val, p: Set<GraphId>) -> bool {
    exists|x: GraphId| fresh_value(a, x) && b == (WS { store: #[trigger] a.store.insert(x, v), live: a.live.insert(id), ..a }) && inv(b, p)
}
impl<T: Clone> Computed<T> {
//@item impl From for Computed [From<Value<T>>for] :: fn from
    fn ⟦from⇒from_value⟧(val: Value<T> «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Self «)
        requires val.wf(), inv(old(w).s(), pend),
        ensures r.wf(), final(w).s() == (WS { live: old(w).s().live.insert(r.id_spec()), ..old(w).s() }), inv(final(w).s(), pend),»
    {
        val.to_computed(«w, Ghost(pend)»)
    }
//@end
//@item impl From for Computed [From<T>for] :: fn from
    fn ⟦from⇒from_plain⟧(value: T «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Self «)
        requires inv(old(w).s(), pend),
        ensures r.wf(), constant(old(w).s(), final(w).s(), r.id_spec(), val(value), pend),»
    {
        Value::new(value «, w, Ghost(pend)»).to_computed(«w, Ghost(pend)»)
    }
//@end
//@item impl From for Computed [From<&T>for] :: fn from
    fn ⟦from⇒from_ref⟧(value: &T «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Self «)
        requires inv(old(w).s(), pend),
        ensures r.wf(), constant(old(w).s(), final(w).s(), r.id_spec(), val(*value), pend),»
    {
        Value::new(⟦value.clone()⇒vx_clone(value)⟧ «, w, Ghost(pend)»).to_computed(«w, Ghost(pend)»)
    }
//@end
//@item impl ToComputed for Computed :: fn to_computed
    fn to_computed(&self) -> «(r:» Computed<T> «)
        ensures r == *self,»
    {
        self.clone()
    }
//@end
//@item impl ToComputed for & Computed :: fn to_computed
    fn ⟦to_computed⇒ref_to_computed⟧(&self) -> «(r:» Computed<T> «)
        ensures r == *self,»
    {
        ⟦(*self)⇒self⟧.clone()
    }
//@end
}
//@file crates/vertigo/src/computed/value.rs
impl<T: Clone> Value<T> {
//@item impl ToComputed for Value :: fn to_computed
    fn ⟦to_computed⇒value_to_computed⟧(&self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Computed<T> «)
        requires self.wf(), inv(old(w).s(), pend),
        ensures r.wf(), final(w).s() == (WS { live: old(w).s().live.insert(r.id_spec()), ..old(w).s() }), inv(final(w).s(), pend),»
    {
        self.to_computed(«w, Ghost(pend)»)
    }
//@end
//@item impl ToComputed for & Value :: fn to_computed
    fn ⟦to_computed⇒value_ref_to_computed⟧(&self «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Computed<T> «)
        requires self.wf(), inv(old(w).s(), pend),
        ensures r.wf(), final(w).s() == (WS { live: old(w).s().live.insert(r.id_spec()), ..old(w).s() }), inv(final(w).s(), pend),»
    {
        ⟦(*self)⇒self⟧.to_computed(«w, Ghost(pend)»)
    }
//@end
}
#[verifier::external_body]
fn vx_to_string(x: &str) -> (r: String) ensures r@ == x@, { unimplemented!() }
//@file crates/vertigo/src/computed/computed_box.rs
impl Computed<String> {
//@item impl From for Computed [From<&str>for] :: fn from
    fn ⟦from⇒from_str⟧(value: &str «, w: &mut World, Ghost(pend): Ghost<Set<GraphId>>») -> «(r:» Self «)
        requires inv(old(w).s(), pend),
        ensures exists|t: String| t@ == value@ && r.wf() && #[trigger] constant(old(w).s(), final(w).s(), r.id_spec(), val(t), pend),»
    {
        «let ghost a = w.s();»
        ⟦Value::new(value.to_string()⇒let t = vx_to_string(value); let ghost v = val(t); let r = Value::new(t⟧ «, w, Ghost(pend)»).to_computed(«w, Ghost(pend)»)«;
        proof { assert(constant(a, w.s(), r.id_spec(), v, pend)); }
        r»
    }
//@end
}
// the same operations through the trait
//@file crates/vertigo/src/computed/reactive.rs
impl<T: Clone + PartialEq> Value<T> {
//@item impl Reactive for Value :: fn set
    fn ⟦set⇒reactive_set⟧(&self, value: T «, w: &mut World»)
        «requires self.wf(), settled(old(w).s()), ts_level(old(w).s().ts) < 65535,
        ensures exists|m: WS| #[trigger] stale(opened(old(w).s()), m, self.vid(), val(value)) && settled(m) && finished(m, final(w).s()),»
    {
        Value::set(self, value «, w»)
    }
//@end
//@item impl Reactive for Value :: fn get
    fn ⟦get⇒reactive_get⟧(&self, context: ⟦&Context⇒&mut Context⟧ «, w: &World») -> «(r:» T «)
        requires self.wf(),
        ensures val(r) == w.s().store[self.vid()], final(context).parent_ids@ == old(context).parent_ids@.push(self.vid()),»
    {
        Value::get(self, context «, w»)
    }
//@end
//@item impl Reactive for Value :: fn change
    fn ⟦change⇒reactive_change⟧«<F: FnOnce(&mut T)>»(&self, change_fn: ⟦impl FnOnce(&mut T)⇒F⟧ «, w: &mut World»)
        «requires
            self.wf(), settled(old(w).s()), ts_level(old(w).s().ts) < 65534,
            forall|p: &mut T| val(*p) == old(w).s().store[self.vid()] ==> #[trigger] call_requires(change_fn, (p,)),
        ensures
            exists|p: &mut T, m: WS| val(*p) == old(w).s().store[self.vid()] && #[trigger] call_ensures(change_fn, (p,), ()) && #[trigger] stale(opened(old(w).s()), m, self.vid(), val(*final(p))) && settled(m) && finished(m, final(w).s()),»
    {
        Value::change(self, change_fn «, w»)
    }
//@end
}
} // verus!
fn main() {}
