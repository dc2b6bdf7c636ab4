#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, BTreeSet};

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, gid_axiom::axiom_graph_id_key};

//@include graph_types.inc
//@include graph_spec.inc


//@file crates/vertigo/src/computed/dependencies/graph_one_to_many.rs
//@item struct GraphEdgeIter
pub struct GraphEdgeIter<'a> {
    data: Option<&'a BTreeSet<GraphId>>,
    data_iter: Option<std::collections::btree_set::Iter<'a, GraphId>>,
}
//@end

impl<'a> GraphEdgeIter<'a> {
    // what is still to be produced
    #[verifier::prophetic] spec fn rest(self) -> Seq<GraphId> {
        match self.data_iter { Some(it) => IteratorSpec::remaining(&it).unref(), None => Seq::empty() }
    }
    spec fn set(self) -> Set<GraphId> {
        match self.data { Some(s) => s@, None => Set::empty() }
    }
//@item impl GraphEdgeIter :: fn new
    pub fn new(data: Option<&'a BTreeSet<GraphId>>) -> «(r:» GraphEdgeIter<'a> «)
        ensures r.data == data, lists(r.rest(), r.set()),»
    {
        let data_iter = data.map(|item «: &'a BTreeSet<GraphId>»| «-> (o: std::collections::btree_set::Iter<'a, GraphId>) ensures lists(IteratorSpec::remaining(&o).unref(), item@) {» item.iter() «}»);

        Self { data, data_iter }
    }
//@end
//@item impl GraphEdgeIter :: fn is_empty
    pub fn is_empty(&self) -> «(r:» bool «)
        ensures r <==> self.set() == Set::<GraphId>::empty(),»
    {
        match self.data {
            Some(edges) => edges.is_empty(),
            None => true,
        }
    }
//@end
//@item impl Iterator for GraphEdgeIter :: fn next
    fn next(&mut self) -> «(r:» Option<⟦Self::Item⇒GraphId⟧> «)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
            final(self).data == old(self).data,»
    {
        if let Some(data_iter) = &mut self.data_iter {
            let next = data_iter.next();
            next.cloned()
        } else {
            None
        }
    }
//@end

    // std's default Iterator adaptors (map, collect, for) see exactly the items that next() produces until None
    #[verifier::exec_allows_no_decreases_clause]
    fn vx_all(self) -> (r: VxIter<GraphId>)
        ensures r@ == self.rest(),
    {
        let mut this = self;
        let mut out: Vec<GraphId> = Vec::new();
        let ghost all = self.rest();
        loop
            invariant out@ + this.rest() =~= all, all == self.rest(),
        {
            match this.next() {
                Some(x) => { out.push(x); }
                None => { assert(out@ =~= all); return VxIter(out); }
            }
        }
    }
}

//@item struct GraphOneToMany
pub struct GraphOneToMany {
    data: BTreeMap<GraphId, BTreeSet<GraphId>>,
}
//@end

spec fn is_edges(g: GraphOneToMany, e: Set<Edge>) -> bool {
    forall|l: GraphId, r: GraphId| #[trigger] e.contains((l, r)) <==> g.rel(l).contains(r)
}

impl GraphOneToMany {
    spec fn rel(self, l: GraphId) -> Set<GraphId> {
        if self.data@.contains_key(l) { self.data@[l]@ } else { Set::empty() }
    }
    // the abstract value: a finite set of (left, right) pairs
    spec fn edges(self) -> Set<Edge> { choose|e: Set<Edge>| is_edges(self, e) }
    spec fn wf(self) -> bool {
        &&& is_edges(self, self.edges())
        &&& forall|l: GraphId| #[trigger] self.data@.contains_key(l) ==> self.data@[l]@.len() > 0
    }
    proof fn lemma_edges(self, e: Set<Edge>)
        requires is_edges(self, e),
        ensures self.edges() == e, is_edges(self, self.edges()),
    {
        assert(is_edges(self, self.edges()));
        assert forall|x: Edge| #[trigger] self.edges().contains(x) <==> e.contains(x) by { let (l, r) = x; assert(x == (l, r)); }
        assert(self.edges() =~= e);
    }

//@item impl GraphOneToMany :: fn new
    pub fn new() -> «(r:» Self «)
        ensures r.wf(), r.edges() == Set::<Edge>::empty(),»
    {
        «let r =» Self {
            data: BTreeMap::new(),
        } «; proof { r.lemma_edges(Set::empty()); } r»
    }
//@end

//@item impl GraphOneToMany :: fn add
    pub fn add(&mut self, left_id: GraphId, right_id: GraphId)
        «requires old(self).wf(),
        ensures final(self).wf(), final(self).edges() == old(self).edges().insert((left_id, right_id)),»
    {
        ⟦self.data.entry(left_id).or_default()⇒vx_entry_or_default(&mut self.data, left_id)⟧.insert(right_id);
        «proof {
            assert(self.rel(left_id) =~= old(self).rel(left_id).insert(right_id));
            self.lemma_edges(old(self).edges().insert((left_id, right_id)));
        }»
    }
//@end

//@item impl GraphOneToMany :: fn remove
    pub fn remove(&mut self, parent_id: GraphId, client_id: GraphId)
        «requires old(self).wf(),
        ensures final(self).wf(), final(self).edges() == old(self).edges().remove((parent_id, client_id)),»
    {
        let should_clear = match self.data.get_mut(&parent_id) {
            Some(parent_list) => {
                parent_list.remove(&client_id);
                parent_list.is_empty()
            }
            None => false,
        };
        «proof { if old(self).data@.contains_key(parent_id) { assert(self.data@ == old(self).data@.insert(parent_id, self.data@[parent_id])); } }»

        if should_clear {
            self.data.remove(&parent_id);
        }
        «proof {
            assert(self.rel(parent_id) =~= old(self).rel(parent_id).remove(client_id));
            self.lemma_edges(old(self).edges().remove((parent_id, client_id)));
        }»
    }
//@end

//@item impl GraphOneToMany :: fn get_relation
    pub fn get_relation(&self, left_id: GraphId) -> «(r:» GraphEdgeIter<'_> «)
        ensures r.set() == self.rel(left_id), lists(r.rest(), self.rel(left_id)),»
    {
        let edge = self.data.get(&left_id);
        GraphEdgeIter::new(edge)
    }
//@end
}

//@file crates/vertigo/src/computed/dependencies/graph_connections.rs
//@item enum UpdateConnection
enum UpdateConnection {
    Add { parent: GraphId, client: GraphId },
    Remove { parent: GraphId, client: GraphId },
}
//@end

impl UpdateConnection {
    spec fn parent(self) -> GraphId { match self { Self::Add { parent, .. } => parent, Self::Remove { parent, .. } => parent } }
    spec fn client(self) -> GraphId { match self { Self::Add { client, .. } => client, Self::Remove { client, .. } => client } }
    spec fn edge(self) -> Edge { (self.parent(), self.client()) }
//@item impl UpdateConnection :: fn get_parent
    fn get_parent(&self) -> «(r:» GraphId «) ensures r == self.parent(),»
    {
        match self {
            Self::Add { parent, .. } => *parent,
            Self::Remove { parent, .. } => *parent,
        }
    }
//@end
}

//@item struct GraphConnectionsInner
struct GraphConnectionsInner {
    parent_client: GraphOneToMany, // ParentId <- ClientId
    client_parent: GraphOneToMany,
}
//@end

spec fn has_add(s: Seq<UpdateConnection>, e: Edge) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is Add && s[i].edge() == e
}
spec fn has_remove(s: Seq<UpdateConnection>, e: Edge) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is Remove && s[i].edge() == e
}
spec fn removes_at(s: Seq<UpdateConnection>, p: GraphId) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is Remove && s[i].parent() == p
}

// a list of commands that can be executed against the edges e
spec fn cmds_ok(s: Seq<UpdateConnection>, e: Set<Edge>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).edge() != (#[trigger] s[j]).edge()
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Add ==> !e.contains(s[i].edge())
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Remove ==> e.contains(s[i].edge())
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] s[i]).client() != (#[trigger] s[j]).parent()
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]) is Add && (#[trigger] s[j]) is Remove ==> s[i].parent() != s[j].parent()
}
// what the commands do to one edge
spec fn after(s: Seq<UpdateConnection>, e: Set<Edge>, x: Edge) -> bool {
    (e.contains(x) || has_add(s, x)) && !has_remove(s, x)
}
// the list r holds exactly one removal for each edge (q, p) of e where p was a parent of a removal in s and has no clients left
spec fn cascade(s: Seq<UpdateConnection>, e: Set<Edge>, r: Seq<UpdateConnection>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Remove && e.contains(r[i].edge()) && removes_at(s, r[i].client()) && no_clients(e, r[i].client())
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).edge() != (#[trigger] r[j]).edge()
    &&& forall|q: GraphId, p: GraphId| #[trigger] e.contains((q, p)) && removes_at(s, p) && no_clients(e, p) ==> has_remove(r, (q, p))
}

impl GraphConnectionsInner {
    spec fn edges(self) -> Set<Edge> { self.parent_client.edges() }
    spec fn wf(self) -> bool {
        &&& self.parent_client.wf()
        &&& self.client_parent.wf()
        &&& forall|p: GraphId, c: GraphId| #[trigger] self.parent_client.edges().contains((p, c)) <==> self.client_parent.edges().contains((c, p))
        &&& forall|p: GraphId, c: GraphId| #[trigger] self.client_parent.edges().contains((c, p)) ==> self.parent_client.edges().contains((p, c))
    }

//@item impl GraphConnectionsInner :: fn new
    pub fn new() -> «(r:» GraphConnectionsInner «)
        ensures r.wf(), r.edges() == Set::<Edge>::empty(),»
    {
        GraphConnectionsInner {
            parent_client: GraphOneToMany::new(),
            client_parent: GraphOneToMany::new(),
        }
    }
//@end

//@item impl GraphConnectionsInner :: fn exec_command
    fn exec_command(&mut self, command: UpdateConnection) -> «(r:» Vec<UpdateConnection> «)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            command is Add ==> final(self).edges() == old(self).edges().insert(command.edge()) && r@.len() == 0,
            command is Remove ==> {
                &&& final(self).edges() == old(self).edges().remove(command.edge())
                &&& cascade(seq![command], final(self).edges(), r@)
            },»
    {
        match command {
            UpdateConnection::Add { parent, client } => {
                self.parent_client.add(parent, client);
                self.client_parent.add(client, parent);
                Vec::new()
            }
            UpdateConnection::Remove { parent, client } => {
                self.parent_client.remove(parent, client);
                self.client_parent.remove(client, parent);
                «let ghost e = self.edges();
                proof { lemma_rel(self.parent_client, parent); lemma_rel(self.client_parent, parent);
                    assert(seq![command][0] == command);
                    assert forall|p: GraphId| #[trigger] removes_at(seq![command], p) <==> p == parent by { if p == parent { assert(seq![command][0] is Remove); } } }»

                let child = self.parent_client.get_relation(parent);

                if child.is_empty() {
                    «proof { assert forall|c: GraphId| !#[trigger] e.contains((parent, c)) by { assert(!self.parent_client.rel(parent).contains(c)); } }
                    let r: Vec<UpdateConnection> =»
                    self.client_parent
                        .get_relation(parent)
                        ⟦.map⇒.vx_all().map⟧(|parent_next «: GraphId»| «-> (o: UpdateConnection) ensures o == (UpdateConnection::Remove { parent: parent_next, client: parent }) {»UpdateConnection::Remove {
                            parent: parent_next,
                            client: parent,
                        }«}»)
                        .collect()
                    «;
                    proof {
                        lemma_cascade_one(command, parent, e, self.client_parent.rel(parent), r@);
                    }
                    r»
                } else {
                    «proof { assert(!no_clients(e, parent)) by { let c = self.parent_client.rel(parent).choose(); assert(e.contains((parent, c))); } }»
                    Vec::new()
                }
            }
        }
    }
//@end

//@item impl GraphConnectionsInner :: fn exec_command_list
    fn exec_command_list(&mut self, command_list: Vec<UpdateConnection>) -> «(r:» Vec<UpdateConnection> «)
        requires old(self).wf(), cmds_ok(command_list@, old(self).edges()),
        ensures
            final(self).wf(),
            forall|x: Edge| #[trigger] final(self).edges().contains(x) <==> after(command_list@, old(self).edges(), x),
            cascade(command_list@, final(self).edges(), r@),»
    {
        «let ghost s = command_list@; let ghost e0 = self.edges();»
        let mut new_list = Vec::new();
        «proof { assert(s.take(0) =~= Seq::empty()); }»

        for command in «it:» command_list
            «invariant
                it.seq() == s, cmds_ok(s, e0), self.wf(),
                forall|x: Edge| #[trigger] self.edges().contains(x) <==> after(s.take(it.index@ as int), e0, x),
                cascade(s.take(it.index@ as int), self.edges(), new_list@),»
        {
            «let ghost k = it.index@ as int; let ghost e1 = self.edges(); let ghost l1 = new_list@; let ghost c0 = command;
            proof { assert(c0 == s[k]); lemma_after_step(s, k, e0); }»
            ⟦new_list.extend(self.exec_command(command))⇒let vx_new = self.exec_command(command); vx_extend(&mut new_list, vx_new)⟧;
            «proof { lemma_cascade_step(s, k, e0, e1, self.edges(), l1, vx_new@); }»
        }
        «proof { assert(s.take(s.len() as int) =~= s); }»

        new_list
    }
//@end

//@item impl GraphConnectionsInner :: fn get_update_commands
    ///The function receives new parents. Calculates the updates that should be applied to the graph
    fn get_update_commands(
        &self,
        client_id: GraphId,
        new_parents: BTreeSet<GraphId>,
    ) -> «(r:» Vec<UpdateConnection> «)
        requires self.wf(),
        ensures updates(self.edges(), client_id, new_parents@, r@),»
    {
        let prev_parents = self
            .client_parent
            .get_relation(client_id)
            ⟦.collect::<BTreeSet<_>>()⇒.vx_all().collect_set()⟧;
        «let ghost prev = prev_parents@; let ghost e = self.edges(); let ghost new = new_parents@;
        proof { lemma_rel(self.client_parent, client_id); assert(prev =~= self.client_parent.rel(client_id)); }»

        let mut edge_on: Vec<UpdateConnection> = ⟦new_parents
            .difference(&prev_parents)⇒vx_set_difference(&new_parents, &prev_parents)⟧
            .map(|parent «: &GraphId»| «-> (o: UpdateConnection) ensures o == (UpdateConnection::Add { parent: *parent, client: client_id }) {» UpdateConnection::Add {
                parent: *parent,
                client: client_id,
            }«}»)
            .collect();
        «let ghost adds = edge_on@;»

        let edge_off =
            ⟦prev_parents
                .difference(&new_parents)⇒vx_set_difference(&prev_parents, &new_parents)⟧
                .map(|parent «: &GraphId»| «-> (o: UpdateConnection) ensures o == (UpdateConnection::Remove { parent: *parent, client: client_id }) {» UpdateConnection::Remove {
                    parent: *parent,
                    client: client_id,
                }«}»);
        «let ghost offs = edge_off@;»

        ⟦edge_on.extend(edge_off)⇒vx_extend(&mut edge_on, edge_off.collect())⟧;
        «proof { lemma_updates(e, client_id, prev, new, adds, offs); }»
        edge_on
    }
//@end

//@item impl GraphConnectionsInner :: fn get_info_about_active
    fn get_info_about_active(
        &self,
        nodes_for_refresh: BTreeSet<GraphId>,
    ) -> «(r:» BTreeMap<GraphId, bool> «)
        requires self.wf(),
        ensures
            r@.dom() =~= nodes_for_refresh@,
            forall|p: GraphId| #[trigger] r@.contains_key(p) ==> r@[p] == !no_clients(self.edges(), p),»
    {
        let mut result = BTreeMap::new();
        «let ghost nodes = nodes_for_refresh@;»

        for client_id in «it:» ⟦nodes_for_refresh⇒vx_set_into_iter(nodes_for_refresh)⟧
            «invariant
                self.wf(), lists(it.seq(), nodes),
                result@.dom() =~= it.seq().take(it.index@ as int).to_set(),
                forall|p: GraphId| #[trigger] result@.contains_key(p) ==> result@[p] == !no_clients(self.edges(), p),»
        {
            «proof {
                lemma_rel(self.parent_client, client_id);
                let k = it.index@ as int;
                assert(it.seq().take(k + 1) =~= it.seq().take(k).push(client_id));
                it.seq().take(k).lemma_push_to_set_commute(client_id);
            }»
            let node_is_active = !self.parent_client.get_relation(client_id).is_empty();
            «proof {
                if node_is_active { let c = self.parent_client.rel(client_id).choose(); assert(self.edges().contains((client_id, c))); }
                else { assert forall|c: GraphId| !#[trigger] self.edges().contains((client_id, c)) by { assert(!self.parent_client.rel(client_id).contains(c)); } }
            }»
            result.insert(client_id, node_is_active);
        }
        «proof { assert forall|sq: Seq<GraphId>| #[trigger] sq.take(sq.len() as int) =~= sq by {} }»

        result
    }
//@end

//@item impl GraphConnectionsInner :: fn set_parent_for_client
    fn set_parent_for_client(
        &mut self,
        client_id: GraphId,
        new_parents: BTreeSet<GraphId>,
    ) -> «(r:» BTreeMap<GraphId, bool> «)
        requires
            old(self).wf(),
            acyclic(old(self).edges(), client_id, new_parents@),
        ensures
            final(self).wf(),
            replaced(old(self).edges(), client_id, new_parents@, final(self).edges()),
            // the report: the client and every node whose dependants changed, with whether it has any left
            forall|p: GraphId| #[trigger] r@.contains_key(p) <==> p == client_id || clients_differ(old(self).edges(), final(self).edges(), p),
            forall|p: GraphId| #[trigger] r@.contains_key(p) ==> r@[p] == !no_clients(final(self).edges(), p),»
    {
        let mut nodes_for_refresh: BTreeSet<GraphId> = BTreeSet::new();
        nodes_for_refresh.insert(client_id);
        «let ghost e0 = self.edges(); let ghost new = new_parents@;
        let ghost rank = choose|rank: spec_fn(GraphId) -> nat| ranked(rank, e0, client_id, new);»

        let mut commands = self.get_update_commands(client_id, new_parents);
        «let ghost mut first = true;
        proof { lemma_inv_start(rank, e0, client_id, new, commands@, nodes_for_refresh@); }»

        loop
            «invariant
                self.wf(), e0 == old(self).edges(), new == new_parents@,
                inv(rank, e0, client_id, new, first, self.edges(), commands@, nodes_for_refresh@),
            decreases (if first { 1int } else { 0int }), self.edges().len(),»
        {
            «let ghost e1 = self.edges(); let ghost s = commands@; let ghost n1 = nodes_for_refresh@;»
            for command in «it:» commands.iter()
                «invariant
                    it.seq().unref() == s,
                    forall|p: GraphId| #[trigger] nodes_for_refresh@.contains(p) <==> n1.contains(p) || parent_in(s.take(it.index@ as int), p),»
            {
                «proof {
                    let k = it.index@ as int;
                    assert(*command == s[k]);
                    lemma_parent_in(s, k);
                }»
                nodes_for_refresh.insert(command.get_parent());
            }
            «proof { assert(s.take(s.len() as int) =~= s); lemma_inv_ok(rank, e0, client_id, new, first, e1, s, n1); }»

            commands = self.exec_command_list(commands);
            «proof {
                lemma_inv_step(rank, e0, client_id, new, first, e1, s, n1, self.edges(), commands@, nodes_for_refresh@);
                if !first && commands@.len() > 0 { lemma_smaller(e1, s, self.edges(), commands@); }
                first = false;
            }»

            if commands.is_empty() {
                «proof { lemma_inv_end(rank, e0, client_id, new, self.edges(), commands@, nodes_for_refresh@); }»
                return self.get_info_about_active(nodes_for_refresh);
            }
        }
    }
//@end

//@item impl GraphConnectionsInner :: fn get_all_deps
    pub(crate) fn get_all_deps(&self, id: GraphId) -> «(r:» BTreeSet<GraphId> «)
        requires self.wf(),
        ensures forall|x: GraphId| #[trigger] r@.contains(x) <==> reachable(self.edges(), id, x),»
    {
        let mut result = BTreeSet::new();
        let mut to_traverse: Vec<GraphId> = vec![id];
        «let ghost e = self.edges(); let ghost mut done: Set<GraphId> = Set::empty();
        let ghost univ = targets(e);
        proof { lemma_targets(e); }»

        loop
            «invariant
                self.wf(), e == self.edges(),
                univ == targets(e), forall|l: GraphId, r: GraphId| e.contains((l, r)) ==> univ.contains(r),
                // everything found is reachable; everything reached from a visited node is found; visited or waiting
                forall|x: GraphId| #[trigger] result@.contains(x) ==> reachable(e, id, x),
                forall|x: GraphId| #[trigger] result@.contains(x) ==> done.contains(x) || to_traverse@.contains(x),
                done.contains(id) || to_traverse@.contains(id),
                forall|x: GraphId| #[trigger] to_traverse@.contains(x) ==> x == id || result@.contains(x),
                forall|x: GraphId, y: GraphId| done.contains(x) && #[trigger] e.contains((x, y)) ==> result@.contains(y),
            decreases univ.difference(result@).len(), to_traverse@.len(),»
        {
            «let ghost stack0 = to_traverse@; let ghost res0 = result@;»
            let Some(next) = to_traverse.pop() else {
                «proof { lemma_closure(e, id, result@, done); }»
                return result;
            };
            «let ghost stack1 = to_traverse@;
            proof {
                lemma_rel(self.parent_client, next);
                assert(stack0 == stack1.push(next));
                assert forall|x: GraphId| #[trigger] stack0.contains(x) <==> stack1.contains(x) || x == next by {
                    if stack0.contains(x) { let i = stack0.index_of(x); if i < stack1.len() { assert(stack1[i] == x); } }
                    if stack1.contains(x) { let i = stack1.index_of(x); assert(stack0[i] == x); }
                    if x == next { assert(stack0[stack1.len() as int] == x); }
                }
                assert(stack0.contains(next));
                assert forall|sq: Seq<GraphId>, t: Set<GraphId>, r: GraphId| lists(sq, t) && #[trigger] t.contains(r) implies #[trigger] sq.take(sq.len() as int).contains(r) by {
                    assert(sq.take(sq.len() as int) =~= sq); assert(sq.to_set().contains(r));
                }
                assert forall|x: GraphId| #[trigger] stack1.contains(x) implies x == id || res0.contains(x) by { assert(stack0.contains(x)); }
            }»

            for item in «it:» ⟦self.parent_client.get_relation(next)⇒self.parent_client.get_relation(next).vx_all().0⟧
                «invariant
                    lists(it.seq(), self.parent_client.rel(next)),
                    forall|r: GraphId| #[trigger] self.parent_client.rel(next).contains(r) ==> it.seq().take(it.seq().len() as int).contains(r),
                    self.wf(), e == self.edges(), next == id || reachable(e, id, next),
                    forall|r: GraphId| #[trigger] self.parent_client.rel(next).contains(r) <==> e.contains((next, r)),
                    forall|l: GraphId, r: GraphId| e.contains((l, r)) ==> univ.contains(r),
                    forall|x: GraphId| #[trigger] result@.contains(x) ==> reachable(e, id, x),
                    forall|x: GraphId| #[trigger] result@.contains(x) <==> res0.contains(x) || it.seq().take(it.index@ as int).contains(x),
                    forall|x: GraphId| #[trigger] to_traverse@.contains(x) <==> stack1.contains(x) || (result@.contains(x) && !res0.contains(x)),
                    result@ == res0 ==> to_traverse@ == stack1,
                    res0.subset_of(result@),
                    result@ != res0 ==> univ.difference(result@).len() < univ.difference(res0).len(),»
            {
                «let ghost r1 = result@; let ghost t1 = to_traverse@; let ghost k = it.index@ as int;
                proof {
                    assert(it.seq().to_set().contains(it.seq()[k]));
                    assert(e.contains((next, item)));
                    lemma_reach_step(e, id, next, item);
                    assert(it.seq().take(k + 1) =~= it.seq().take(k).push(item));
                    lemma_push_contains(it.seq().take(k), item);
                }»
                let is_added = result.insert(item);
                if is_added {
                    to_traverse.push(item);
                    «proof { lemma_push_contains(t1, item); lemma_diff_smaller(univ, r1, item); assert(result@ =~= r1.insert(item)); assert(!r1.contains(item)); assert(!res0.contains(item)); assert(result@.contains(item)); }»
                } «else { proof { assert(result@ =~= r1); } }»
            }
            «proof {
                let ghost d0 = done;
                done = done.insert(next);
                assert forall|x: GraphId| #[trigger] result@.contains(x) implies done.contains(x) || to_traverse@.contains(x) by {
                    if res0.contains(x) && !d0.contains(x) { assert(stack0.contains(x)); }
                }
                assert(done.contains(id) || to_traverse@.contains(id)) by { if !d0.contains(id) { assert(stack0.contains(id)); } }
                assert forall|x: GraphId, y: GraphId| done.contains(x) && #[trigger] e.contains((x, y)) implies result@.contains(y) by {
                    if x == next {
                        assert(self.parent_client.rel(next).contains(y));
                    } else { assert(res0.contains(y)); }
                }
            }»
        }
    }
//@end
}

proof fn lemma_rel(g: GraphOneToMany, l: GraphId)
    requires g.wf(),
    ensures
        forall|r: GraphId| #[trigger] g.rel(l).contains(r) <==> g.edges().contains((l, r)),
        g.rel(l) == Set::<GraphId>::empty() || g.rel(l).len() > 0,
{}

proof fn lemma_cascade_one(command: UpdateConnection, p: GraphId, e: Set<Edge>, qs: Set<GraphId>, r: Seq<UpdateConnection>)
    requires
        command is Remove, command.parent() == p, no_clients(e, p),
        forall|q: GraphId| #[trigger] qs.contains(q) <==> e.contains((q, p)),
        exists|l: Seq<GraphId>| lists(l, qs) && r.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] r[i] == (UpdateConnection::Remove { parent: l[i], client: p }),
    ensures cascade(seq![command], e, r),
{
    let l = choose|l: Seq<GraphId>| lists(l, qs) && r.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] r[i] == (UpdateConnection::Remove { parent: l[i], client: p });
    let s = seq![command];
    assert(s[0] == command);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) is Remove && e.contains(r[i].edge()) && removes_at(s, r[i].client()) && no_clients(e, r[i].client()) by {
        assert(l.to_set().contains(l[i]));
        assert(qs.contains(l[i]));
    }
    assert forall|q: GraphId, x: GraphId| #[trigger] e.contains((q, x)) && removes_at(s, x) && no_clients(e, x) implies has_remove(r, (q, x)) by {
        assert(x == p);
        assert(qs.contains(q));
        assert(l.to_set().contains(q));
        let i = l.index_of(q);
        assert(r[i] is Remove && r[i].edge() == (q, x));
    }
}


proof fn lemma_take(s: Seq<UpdateConnection>, k: int)
    requires 0 <= k < s.len(),
    ensures
        forall|x: Edge| #[trigger] has_add(s.take(k + 1), x) <==> has_add(s.take(k), x) || (s[k] is Add && s[k].edge() == x),
        forall|x: Edge| #[trigger] has_remove(s.take(k + 1), x) <==> has_remove(s.take(k), x) || (s[k] is Remove && s[k].edge() == x),
        forall|p: GraphId| #[trigger] removes_at(s.take(k + 1), p) <==> removes_at(s.take(k), p) || (s[k] is Remove && s[k].parent() == p),
{
    let t = s.take(k + 1);
    let u = s.take(k);
    assert(forall|i: int| 0 <= i < k ==> t[i] == u[i] && #[trigger] u[i] == s[i]);
    assert(t[k] == s[k]);
    assert forall|x: Edge| #[trigger] has_add(t, x) <==> has_add(u, x) || (s[k] is Add && s[k].edge() == x) by {
        if has_add(t, x) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] is Add && t[i].edge() == x; if i < k { assert(u[i] is Add); } }
        if has_add(u, x) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] is Add && u[i].edge() == x; assert(t[i] is Add); }
        if s[k] is Add && s[k].edge() == x { assert(t[k] is Add); }
    }
    assert forall|x: Edge| #[trigger] has_remove(t, x) <==> has_remove(u, x) || (s[k] is Remove && s[k].edge() == x) by {
        if has_remove(t, x) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] is Remove && t[i].edge() == x; if i < k { assert(u[i] is Remove); } }
        if has_remove(u, x) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] is Remove && u[i].edge() == x; assert(t[i] is Remove); }
        if s[k] is Remove && s[k].edge() == x { assert(t[k] is Remove); }
    }
    assert forall|p: GraphId| #[trigger] removes_at(t, p) <==> removes_at(u, p) || (s[k] is Remove && s[k].parent() == p) by {
        if removes_at(t, p) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] is Remove && t[i].parent() == p; if i < k { assert(u[i] is Remove); } }
        if removes_at(u, p) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] is Remove && u[i].parent() == p; assert(t[i] is Remove); }
        if s[k] is Remove && s[k].parent() == p { assert(t[k] is Remove); }
    }
}

// command k is executed against the edges left by the first k commands: a removal is still present there
proof fn lemma_after_step(s: Seq<UpdateConnection>, k: int, e0: Set<Edge>)
    requires cmds_ok(s, e0), 0 <= k < s.len(),
    ensures
        s[k] is Remove ==> after(s.take(k), e0, s[k].edge()),
        s[k] is Add ==> !has_remove(s.take(k), s[k].edge()),
{
    let u = s.take(k);
    if has_remove(u, s[k].edge()) {
        let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] is Remove && u[i].edge() == s[k].edge();
        assert(u[i] == s[i]);
        assert(s[i].edge() != s[k].edge());
    }
}

proof fn lemma_cascade_step(s: Seq<UpdateConnection>, k: int, e0: Set<Edge>, e1: Set<Edge>, e2: Set<Edge>, l1: Seq<UpdateConnection>, n: Seq<UpdateConnection>)
    requires
        cmds_ok(s, e0), 0 <= k < s.len(),
        forall|x: Edge| #[trigger] e1.contains(x) <==> after(s.take(k), e0, x),
        cascade(s.take(k), e1, l1),
        s[k] is Add ==> e2 == e1.insert(s[k].edge()) && n.len() == 0,
        s[k] is Remove ==> e2 == e1.remove(s[k].edge()) && cascade(seq![s[k]], e2, n),
    ensures
        forall|x: Edge| #[trigger] e2.contains(x) <==> after(s.take(k + 1), e0, x),
        cascade(s.take(k + 1), e2, l1 + n),
{
    lemma_take(s, k);
    lemma_after_step(s, k, e0);
    let t = s.take(k + 1);
    let u = s.take(k);
    let r = l1 + n;
    let ed = s[k].edge();
    assert forall|x: Edge| #[trigger] e2.contains(x) <==> after(t, e0, x) by {
        assert(e1.contains(x) <==> after(u, e0, x));
        assert(has_add(t, x) <==> has_add(u, x) || (s[k] is Add && s[k].edge() == x));
        assert(has_remove(t, x) <==> has_remove(u, x) || (s[k] is Remove && s[k].edge() == x));
    }
    let one = seq![s[k]];
    assert(one[0] == s[k]);
    assert forall|p: GraphId| #[trigger] removes_at(one, p) <==> (s[k] is Remove && s[k].parent() == p) by { if s[k] is Remove && s[k].parent() == p { assert(one[0] is Remove); } }
    // nodes listed before stay without clients, their edges stay
    assert forall|p: GraphId| #[trigger] removes_at(u, p) implies p != ed.1 && (s[k] is Add ==> p != ed.0) by {
        let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] is Remove && u[i].parent() == p;
        assert(u[i] == s[i]);
        assert(s[k].client() != s[i].parent());
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) is Remove && e2.contains(r[i].edge()) && removes_at(t, r[i].client()) && no_clients(e2, r[i].client()) by {
        if i < l1.len() {
            assert(r[i] == l1[i]);
            let p = l1[i].client();
            assert(removes_at(u, p));
            assert(no_clients(e1, p));
            assert(no_clients(e2, p)) by { assert forall|c: GraphId| !#[trigger] e2.contains((p, c)) by { assert(!e1.contains((p, c))); } }
        } else {
            assert(r[i] == n[i - l1.len()]);
            assert(removes_at(one, r[i].client()));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).edge() != (#[trigger] r[j]).edge() by {
        if j < l1.len() {} else if i >= l1.len() {
            assert(n[i - l1.len()].edge() != n[j - l1.len()].edge());
        } else {
            assert(r[i] == l1[i] && r[j] == n[j - l1.len()]);
            assert(removes_at(one, r[j].client()));
            assert(no_clients(e1, l1[i].client()));
            assert(e1.contains((s[k].parent(), s[k].client())));
        }
    }
    assert forall|q: GraphId, p: GraphId| #[trigger] e2.contains((q, p)) && removes_at(t, p) && no_clients(e2, p) implies has_remove(r, (q, p)) by {
        if s[k] is Remove && s[k].parent() == p {
            assert(removes_at(one, p));
            assert(has_remove(n, (q, p)));
            let i = choose|i: int| 0 <= i < n.len() && #[trigger] n[i] is Remove && n[i].edge() == (q, p);
            assert(r[i + l1.len()] == n[i]);
        } else {
            assert(removes_at(u, p));
            assert(no_clients(e1, p)) by { assert forall|c: GraphId| !#[trigger] e1.contains((p, c)) by { assert(!e2.contains((p, c))); } }
            assert(e1.contains((q, p)));
            assert(has_remove(l1, (q, p)));
            let i = choose|i: int| 0 <= i < l1.len() && #[trigger] l1[i] is Remove && l1[i].edge() == (q, p);
            assert(r[i] == l1[i]);
        }
    }
}

// ---- the abstract effect of replacing a node's parents -----------------------------------------------------------
spec fn updates(e: Set<Edge>, cl: GraphId, new: Set<GraphId>, s: Seq<UpdateConnection>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).edge() != (#[trigger] s[j]).edge()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).client() == cl
    &&& forall|p: GraphId| #[trigger] has_add(s, (p, cl)) <==> new.contains(p) && !e.contains((p, cl))
    &&& forall|p: GraphId| #[trigger] has_remove(s, (p, cl)) <==> !new.contains(p) && e.contains((p, cl))
}
spec fn parent_in(s: Seq<UpdateConnection>, p: GraphId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).parent() == p }

proof fn lemma_parent_in(s: Seq<UpdateConnection>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|p: GraphId| #[trigger] parent_in(s.take(k + 1), p) <==> parent_in(s.take(k), p) || s[k].parent() == p,
{
    let t = s.take(k + 1); let u = s.take(k);
    assert forall|p: GraphId| #[trigger] parent_in(t, p) <==> parent_in(u, p) || s[k].parent() == p by {
        if parent_in(t, p) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).parent() == p; if i < k { assert(u[i].parent() == p); } }
        if parent_in(u, p) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).parent() == p; assert(t[i].parent() == p); }
        if s[k].parent() == p { assert(t[k].parent() == p); }
    }
}

proof fn lemma_updates(e: Set<Edge>, cl: GraphId, prev: Set<GraphId>, new: Set<GraphId>, adds: Seq<UpdateConnection>, offs: Seq<UpdateConnection>)
    requires
        forall|p: GraphId| #[trigger] prev.contains(p) <==> e.contains((p, cl)),
        exists|l: Seq<GraphId>| #[trigger] lists(l, new.difference(prev)) && adds.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] adds[i] == (UpdateConnection::Add { parent: l[i], client: cl }),
        exists|l: Seq<GraphId>| #[trigger] lists(l, prev.difference(new)) && offs.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] offs[i] == (UpdateConnection::Remove { parent: l[i], client: cl }),
    ensures updates(e, cl, new, adds + offs),
{
    let a = choose|l: Seq<GraphId>| #[trigger] lists(l, new.difference(prev)) && adds.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] adds[i] == (UpdateConnection::Add { parent: l[i], client: cl });
    let b = choose|l: Seq<GraphId>| #[trigger] lists(l, prev.difference(new)) && offs.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] offs[i] == (UpdateConnection::Remove { parent: l[i], client: cl });
    let s = adds + offs;
    let n = a.len() as int;
    assert(forall|i: int| 0 <= i < n ==> #[trigger] s[i] == (UpdateConnection::Add { parent: a[i], client: cl }));
    assert(forall|i: int| n <= i < s.len() ==> #[trigger] s[i] == (UpdateConnection::Remove { parent: b[i - n], client: cl }));
    assert forall|i: int| 0 <= i < n implies new.contains(#[trigger] a[i]) && !prev.contains(a[i]) by { assert(a.to_set().contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies !new.contains(#[trigger] b[i]) && prev.contains(b[i]) by { assert(b.to_set().contains(b[i])); }
    assert forall|p: GraphId| #[trigger] has_add(s, (p, cl)) <==> new.contains(p) && !e.contains((p, cl)) by {
        if has_add(s, (p, cl)) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Add && s[i].edge() == (p, cl); assert(new.contains(a[i])); }
        if new.contains(p) && !prev.contains(p) { assert(a.to_set().contains(p)); let i = a.index_of(p); assert(s[i] is Add && s[i].edge() == (p, cl)); }
    }
    assert forall|p: GraphId| #[trigger] has_remove(s, (p, cl)) <==> !new.contains(p) && e.contains((p, cl)) by {
        if has_remove(s, (p, cl)) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Remove && s[i].edge() == (p, cl); assert(prev.contains(b[i - n])); }
        if !new.contains(p) && prev.contains(p) { assert(b.to_set().contains(p)); let i = b.index_of(p); assert(s[i + n] is Remove && s[i + n].edge() == (p, cl)); }
    }
}

// ---- the loop invariant of the cascade ---------------------------------------------------------------------------
spec fn pend(s: Seq<UpdateConnection>, x: Edge) -> bool { has_remove(s, x) }
spec fn inv(rank: spec_fn(GraphId) -> nat, e0: Set<Edge>, cl: GraphId, new: Set<GraphId>, first: bool, e: Set<Edge>, s: Seq<UpdateConnection>, nodes: Set<GraphId>) -> bool {
    &&& ranked(rank, e0, cl, new)
    &&& first ==> e == e0 && updates(e0, cl, new, s) && (forall|p: GraphId| #[trigger] nodes.contains(p) <==> p == cl)
    &&& !first ==> {
        &&& forall|p: GraphId| #[trigger] e.contains((p, cl)) <==> new.contains(p)
        &&& forall|p: GraphId, c: GraphId| c != cl && #[trigger] e.contains((p, c)) ==> e0.contains((p, c))
        // a removed or pending edge leads to an orphaned node; an orphaned node's edges are removed or pending
        &&& forall|p: GraphId, c: GraphId| c != cl && #[trigger] e0.contains((p, c)) && !e.contains((p, c)) ==> orphaned(e0, e, c) && rank(c) < rank(cl)
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Remove && e.contains(s[i].edge()) && s[i].client() != cl && orphaned(e0, e, s[i].client()) && rank(s[i].client()) < rank(cl)
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).edge() != (#[trigger] s[j]).edge()
        &&& forall|p: GraphId, c: GraphId| c != cl && #[trigger] e.contains((p, c)) && orphaned(e0, e, c) ==> has_remove(s, (p, c))
        &&& forall|p: GraphId| #[trigger] nodes.contains(p) <==> p == cl || clients_differ(e0, e, p)
    }
}

proof fn lemma_inv_start(rank: spec_fn(GraphId) -> nat, e0: Set<Edge>, cl: GraphId, new: Set<GraphId>, s: Seq<UpdateConnection>, nodes: Set<GraphId>)
    requires acyclic(e0, cl, new), rank == (choose|rank: spec_fn(GraphId) -> nat| ranked(rank, e0, cl, new)),
        updates(e0, cl, new, s), nodes == Set::<GraphId>::empty().insert(cl),
    ensures inv(rank, e0, cl, new, true, e0, s, nodes),
{
    assert(ranked(rank, e0, cl, new));
}

proof fn lemma_inv_ok(rank: spec_fn(GraphId) -> nat, e0: Set<Edge>, cl: GraphId, new: Set<GraphId>, first: bool, e: Set<Edge>, s: Seq<UpdateConnection>, nodes: Set<GraphId>)
    requires inv(rank, e0, cl, new, first, e, s, nodes),
    ensures cmds_ok(s, e),
{
    if first {
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Add implies !e.contains(s[i].edge()) && new.contains(s[i].parent()) by {
            assert(s[i].client() == cl); assert(has_add(s, (s[i].parent(), cl)));
        }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Remove implies e.contains(s[i].edge()) && !new.contains(s[i].parent()) by {
            assert(s[i].client() == cl); assert(has_remove(s, (s[i].parent(), cl)));
        }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (#[trigger] s[i]).client() != (#[trigger] s[j]).parent() by {
            assert(s[i].client() == cl && s[j].client() == cl);
            let p = s[j].parent();
            if s[j] is Add { assert(has_add(s, (p, cl))); assert(new.contains(p)); } else { assert(has_remove(s, (p, cl))); assert(e.contains((p, cl))); }
        }
    } else {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (#[trigger] s[i]).client() != (#[trigger] s[j]).parent() by {
            let p = s[j].parent();
            assert(e.contains((p, s[j].client())));
            assert(no_clients(e, s[i].client()));
        }
    }
}

proof fn lemma_inv_step(rank: spec_fn(GraphId) -> nat, e0: Set<Edge>, cl: GraphId, new: Set<GraphId>, first: bool, e1: Set<Edge>, s: Seq<UpdateConnection>, n1: Set<GraphId>,
        e2: Set<Edge>, t: Seq<UpdateConnection>, n2: Set<GraphId>)
    requires
        inv(rank, e0, cl, new, first, e1, s, n1),
        forall|x: Edge| #[trigger] e2.contains(x) <==> after(s, e1, x),
        cascade(s, e2, t),
        forall|p: GraphId| #[trigger] n2.contains(p) <==> n1.contains(p) || parent_in(s, p),
    ensures inv(rank, e0, cl, new, false, e2, t, n2),
{
    lemma_inv_ok(rank, e0, cl, new, first, e1, s, n1);
    // all commands of s concern rows (., c) with c == cl (first) or c orphaned
    assert forall|x: Edge| has_add(s, x) || has_remove(s, x) implies if first { x.1 == cl } else { x.1 != cl && has_remove(s, x) && e1.contains(x) && orphaned(e0, e1, x.1) && rank(x.1) < rank(cl) } by {
        if has_add(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Add && s[i].edge() == x; assert(s[i].client() == x.1); }
        if has_remove(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Remove && s[i].edge() == x; assert(s[i].client() == x.1); }
    }
    assert forall|p: GraphId| #[trigger] e2.contains((p, cl)) <==> new.contains(p) by {
        assert(e2.contains((p, cl)) <==> after(s, e1, (p, cl)));
        if first {
            assert(has_add(s, (p, cl)) <==> new.contains(p) && !e1.contains((p, cl)));
            assert(has_remove(s, (p, cl)) <==> !new.contains(p) && e1.contains((p, cl)));
        } else {
            assert(e1.contains((p, cl)) <==> new.contains(p));
            if has_add(s, (p, cl)) || has_remove(s, (p, cl)) { assert(false); }
        }
    }
    assert forall|p: GraphId, c: GraphId| c != cl && #[trigger] e2.contains((p, c)) implies e0.contains((p, c)) by {
        assert(after(s, e1, (p, c)));
        assert(e1.contains((p, c)));
    }
    // nodes that had lost their clients before do not get any back
    assert forall|c: GraphId| !first && #[trigger] orphaned(e0, e1, c) && c != cl implies no_clients(e2, c) by {
        assert forall|d: GraphId| !#[trigger] e2.contains((c, d)) by {
            assert(!e1.contains((c, d)));
            if has_add(s, (c, d)) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Add && s[i].edge() == (c, d); assert(s[i] is Remove); }
        }
    }
    assert forall|p: GraphId, c: GraphId| c != cl && #[trigger] e0.contains((p, c)) && !e2.contains((p, c)) implies orphaned(e0, e2, c) && rank(c) < rank(cl) by {
        assert(!after(s, e1, (p, c)));
        if first { assert(e1.contains((p, c))); assert(has_remove(s, (p, c))); assert(false); }
        if !e1.contains((p, c)) { assert(orphaned(e0, e1, c)); } else { assert(has_remove(s, (p, c))); assert(orphaned(e0, e1, c)); }
    }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Remove && e2.contains(t[i].edge()) && t[i].client() != cl && orphaned(e0, e2, t[i].client()) && rank(t[i].client()) < rank(cl) by {
        let p = t[i].client();
        assert(removes_at(s, p));
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] is Remove && s[j].parent() == p;
        assert(has_remove(s, s[j].edge()));
        assert(e1.contains((p, s[j].client())));
        let c = s[j].client();
        if first { assert(e0.contains((p, c))); } else { assert(c != cl); assert(e0.contains((p, c))); }
        assert(rank(p) < rank(c));
        assert(!no_clients(e0, p));
    }
    assert forall|p: GraphId, c: GraphId| c != cl && #[trigger] e2.contains((p, c)) && orphaned(e0, e2, c) implies has_remove(t, (p, c)) by {
        assert(after(s, e1, (p, c)));
        assert(e1.contains((p, c)));
        // c lost its last client in this round, or it had none left before and (p, c) was pending
        if !first && orphaned(e0, e1, c) { assert(has_remove(s, (p, c))); assert(false); }
        let d0 = choose|d: GraphId| #[trigger] e0.contains((c, d));
        assert(!no_clients(e1, c));
        let d = choose|d: GraphId| #[trigger] e1.contains((c, d));
        assert(!e2.contains((c, d)));
        assert(has_remove(s, (c, d)));
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Remove && s[i].edge() == (c, d);
        assert(s[i].parent() == c);
        assert(removes_at(s, c));
    }
    assert forall|p: GraphId| #[trigger] n2.contains(p) <==> p == cl || clients_differ(e0, e2, p) by {
        if parent_in(s, p) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).parent() == p;
            let x = s[i].edge();
            assert(x == (p, s[i].client()));
            if s[i] is Add {
                assert(has_add(s, x)); assert(!e1.contains(x)); assert(first);
                if has_remove(s, x) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] is Remove && s[j].edge() == x; assert(e1.contains(x)); }
                assert(e2.contains(x));
                assert(e0.contains((p, s[i].client())) != e2.contains((p, s[i].client())));
            } else {
                assert(has_remove(s, x));
                assert(e1.contains(x)); assert(!e2.contains(x));
                assert(e0.contains((p, s[i].client())));
                assert(e0.contains((p, s[i].client())) != e2.contains((p, s[i].client())));
            }
        }
        if n1.contains(p) && p != cl {
            assert(!first);
            let c = choose|c: GraphId| #[trigger] e0.contains((p, c)) != e1.contains((p, c));
            if e0.contains((p, c)) {
                if has_add(s, (p, c)) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Add && s[i].edge() == (p, c); assert(s[i] is Remove); }
                assert(!after(s, e1, (p, c)));
                assert(!e2.contains((p, c)));
            } else {
                assert(c == cl); assert(new.contains(p)); assert(e2.contains((p, cl)));
            }
            assert(e0.contains((p, c)) != e2.contains((p, c)));
        }
        if clients_differ(e0, e2, p) && p != cl {
            let c = choose|c: GraphId| #[trigger] e0.contains((p, c)) != e2.contains((p, c));
            let x = (p, c);
            assert(e2.contains(x) <==> after(s, e1, x));
            if e0.contains(x) != e1.contains(x) { assert(!first); assert(clients_differ(e0, e1, p)); assert(n1.contains(p)); }
            else if has_add(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Add && s[i].edge() == x; assert(s[i].parent() == p); assert(parent_in(s, p)); }
            else { assert(has_remove(s, x)); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Remove && s[i].edge() == x; assert(s[i].parent() == p); assert(parent_in(s, p)); }
        }
    }
}

proof fn lemma_smaller(e1: Set<Edge>, s: Seq<UpdateConnection>, e2: Set<Edge>, t: Seq<UpdateConnection>)
    requires
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Remove && e1.contains(s[i].edge()),
        forall|x: Edge| #[trigger] e2.contains(x) <==> after(s, e1, x),
        cascade(s, e2, t), t.len() > 0,
    ensures e2.len() < e1.len(),
{
    assert(removes_at(s, t[0].client()));
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Remove && s[i].parent() == t[0].client();
    let x = s[i].edge();
    assert(has_remove(s, x));
    assert(!e2.contains(x));
    assert forall|y: Edge| #[trigger] e2.contains(y) implies e1.remove(x).contains(y) by {
        if has_add(s, y) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] is Add && s[j].edge() == y; assert(s[j] is Remove); }
    }
    assert(e2.subset_of(e1.remove(x)));
    vstd::set_lib::lemma_len_subset(e2, e1.remove(x));
}

proof fn lemma_inv_end(rank: spec_fn(GraphId) -> nat, e0: Set<Edge>, cl: GraphId, new: Set<GraphId>, e: Set<Edge>, s: Seq<UpdateConnection>, nodes: Set<GraphId>)
    requires inv(rank, e0, cl, new, false, e, s, nodes), s.len() == 0,
    ensures replaced(e0, cl, new, e),
{
    assert forall|p: GraphId, c: GraphId| c != cl implies (#[trigger] e.contains((p, c)) <==> e0.contains((p, c)) && !orphaned(e0, e, c)) by {
        if e.contains((p, c)) && orphaned(e0, e, c) { assert(has_remove(s, (p, c))); }
    }
}

// ---- reachability ------------------------------------------------------------------------------------------------
proof fn lemma_reach_step(e: Set<Edge>, a: GraphId, m: GraphId, x: GraphId)
    requires m == a || reachable(e, a, m), e.contains((m, x)),
    ensures reachable(e, a, x),
{
    if reachable(e, a, m) {
        let s = choose|s: Seq<GraphId>| #[trigger] is_path(e, s) && s[0] == a && s.last() == m;
        let t = s.push(x);
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] e.contains((t[i], t[i + 1])) by {
            if i < s.len() - 1 { assert(e.contains((s[i], s[i + 1]))); }
        }
        assert(is_path(e, t) && t[0] == a && t.last() == x);
    } else {
        let t = seq![a, x];
        assert(is_path(e, t) && t[0] == a && t.last() == x);
    }
}
proof fn lemma_closure(e: Set<Edge>, a: GraphId, r: Set<GraphId>, done: Set<GraphId>)
    requires
        forall|x: GraphId| #[trigger] r.contains(x) ==> reachable(e, a, x),
        forall|x: GraphId| #[trigger] r.contains(x) ==> done.contains(x),
        done.contains(a),
        forall|x: GraphId, y: GraphId| done.contains(x) && #[trigger] e.contains((x, y)) ==> r.contains(y),
    ensures forall|x: GraphId| #[trigger] r.contains(x) <==> reachable(e, a, x),
{
    assert forall|x: GraphId| reachable(e, a, x) implies #[trigger] r.contains(x) by {
        let s = choose|s: Seq<GraphId>| #[trigger] is_path(e, s) && s[0] == a && s.last() == x;
        lemma_path_in(e, a, r, done, s, s.len() - 1);
    }
}
proof fn lemma_path_in(e: Set<Edge>, a: GraphId, r: Set<GraphId>, done: Set<GraphId>, s: Seq<GraphId>, i: int)
    requires
        forall|x: GraphId| #[trigger] r.contains(x) ==> done.contains(x),
        done.contains(a),
        forall|x: GraphId, y: GraphId| done.contains(x) && #[trigger] e.contains((x, y)) ==> r.contains(y),
        is_path(e, s), s[0] == a, 1 <= i < s.len(),
    ensures r.contains(s[i]),
    decreases i,
{
    if i > 1 { lemma_path_in(e, a, r, done, s, i - 1); }
    assert(r.contains(s[i - 1]) || s[i - 1] == a);
    assert(e.contains((s[i - 1], s[i - 1 + 1])));
}
spec fn targets(e: Set<Edge>) -> Set<GraphId> { e.map(|x: Edge| x.1) }
proof fn lemma_targets(e: Set<Edge>)
    ensures forall|l: GraphId, r: GraphId| e.contains((l, r)) ==> targets(e).contains(r),
{
    assert forall|l: GraphId, r: GraphId| e.contains((l, r)) implies targets(e).contains(r) by { assert((l, r).1 == r); }
}
proof fn lemma_push_contains(s: Seq<GraphId>, x: GraphId)
    ensures forall|y: GraphId| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    let t = s.push(x);
    assert forall|y: GraphId| #[trigger] t.contains(y) <==> s.contains(y) || y == x by {
        if t.contains(y) { let i = t.index_of(y); if i < s.len() { assert(s[i] == y); } }
        if s.contains(y) { let i = s.index_of(y); assert(t[i] == y); }
        if y == x { assert(t[s.len() as int] == y); }
    }
}
proof fn lemma_diff_smaller(u: Set<GraphId>, r: Set<GraphId>, x: GraphId)
    requires u.contains(x), !r.contains(x),
    ensures u.difference(r.insert(x)).len() < u.difference(r).len(),
{
    assert(u.difference(r.insert(x)) =~= u.difference(r).remove(x));
    assert(u.difference(r).contains(x));
}
}
fn main() {}
