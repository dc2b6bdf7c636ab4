pub type Edge = (GraphId, GraphId);
spec fn no_clients(e: Set<Edge>, p: GraphId) -> bool { forall|c: GraphId| !#[trigger] e.contains((p, c)) }
spec fn ranked(rank: spec_fn(GraphId) -> nat, e: Set<Edge>, cl: GraphId, new: Set<GraphId>) -> bool {
    &&& forall|p: GraphId, c: GraphId| #[trigger] e.contains((p, c)) ==> rank(p) < rank(c)
    &&& forall|p: GraphId| #[trigger] new.contains(p) ==> rank(p) < rank(cl)
}
spec fn acyclic(e: Set<Edge>, cl: GraphId, new: Set<GraphId>) -> bool {
    exists|rank: spec_fn(GraphId) -> nat| ranked(rank, e, cl, new)
}
// p had a dependant and has none left
spec fn orphaned(e0: Set<Edge>, e: Set<Edge>, p: GraphId) -> bool { !no_clients(e0, p) && no_clients(e, p) }
spec fn clients_differ(e0: Set<Edge>, e: Set<Edge>, p: GraphId) -> bool {
    exists|c: GraphId| #[trigger] e0.contains((p, c)) != e.contains((p, c))
}
// e is e0 with cl's parents replaced by new, and with the orphaned nodes unlinked from their parents; nothing else
spec fn replaced(e0: Set<Edge>, cl: GraphId, new: Set<GraphId>, e: Set<Edge>) -> bool {
    &&& forall|p: GraphId| #[trigger] e.contains((p, cl)) <==> new.contains(p)
    &&& forall|p: GraphId, c: GraphId| c != cl ==> (#[trigger] e.contains((p, c)) <==> e0.contains((p, c)) && !orphaned(e0, e, c))
}
spec fn is_path(e: Set<Edge>, s: Seq<GraphId>) -> bool {
    s.len() >= 2 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] e.contains((s[i], s[i + 1]))
}
// x is reached from a through one or more links
spec fn reachable(e: Set<Edge>, a: GraphId, x: GraphId) -> bool {
    exists|s: Seq<GraphId>| #[trigger] is_path(e, s) && s[0] == a && s.last() == x
}
