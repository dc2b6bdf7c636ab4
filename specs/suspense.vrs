#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::btree::key_obeys_cmp_spec;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hash;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms, vstd::laws_cmp::group_laws_cmp, did::axiom_dom_id_hash, did::axiom_dom_id_ord, sax::axiom_string_key};

//@include struct_mut.inc
//@include hash_map_mut.inc
//@include dom_id.inc
// derive(Hash, Eq, Ord) on DomId (assumed)
mod did {
    use super::*;
    pub broadcast axiom fn axiom_dom_id_hash()
        ensures #[trigger] obeys_key_model::<DomId>();
    pub broadcast axiom fn axiom_dom_id_ord()
        ensures #[trigger] key_obeys_cmp_spec::<DomId>();
}
//@include strings.inc
//@include dom_commands.inc

// ---- trusted: std ----------------------------------------------------------------------------------------------------
#[verifier::external_body]
fn vx_unreachable() -> (r: !)
    requires false,
{ unreachable!() }
#[verifier::external_body]
fn vx_keys<K: Ord + Copy, V>(m: &BTreeMap<K, V>) -> (r: Vec<K>)
    ensures
        r@.no_duplicates(),
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(#[trigger] r@[i]),
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == k,
{ m.keys().copied().collect() }
// the exclusive reference that iter_mut() gives for one key
#[verifier::external_body]
fn vx_at<'a, K: Ord, V>(m: &'a mut BTreeMap<K, V>, k: &K) -> (r: &'a mut V)
    requires old(m)@.contains_key(*k),
    ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r)),
{ m.get_mut(k).unwrap() }
#[verifier::external_body]
fn vx_values<'a, K: Ord, V>(m: &'a BTreeMap<K, V>) -> (r: Vec<(&'a K, &'a V)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_pair(*(#[trigger] r@[i]).0, *r@[i].1),
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
{ m.iter().collect() }
#[verifier::external_body]
fn vx_elems<'a, K: Ord>(m: &'a BTreeSet<K>) -> (r: Vec<&'a K>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> m@.contains(*(#[trigger] r@[i])),
        forall|k: K| #[trigger] m@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k,
{ m.iter().collect() }
#[verifier::external_body]
fn vx_entry_or_default<'a>(m: &'a mut HashMap<DomId, BTreeSet<DomId>>, k: DomId) -> (r: &'a mut BTreeSet<DomId>)
{ m.entry(k).or_default() }

// ---- the tree of the page, as the parent of every inserted node -------------------------------------------------------
type Tree = Map<DomId, DomId>;
// the n-th ancestor
spec fn up(m: Tree, x: DomId, n: nat) -> Option<DomId>
    decreases n
{
    if n == 0 { Some(x) } else {
        match up(m, x, (n - 1) as nat) { Some(y) => if m.contains_key(y) { Some(m[y]) } else { None }, None => None }
    }
}
// x is y or inside y
spec fn inside(m: Tree, x: DomId, y: DomId) -> bool { exists|n: nat| #[trigger] up(m, x, n) == Some(y) }
// the domain: nodes nested less than 500 deep
spec fn shallow(m: Tree) -> bool { forall|x: DomId| #[trigger] up(m, x, 500) is None }
proof fn lemma_up_stops(m: Tree, x: DomId, n: nat, k: nat)
    requires up(m, x, n) is None, k >= n,
    ensures up(m, x, k) is None,
    decreases k,
{
    if k > n { lemma_up_stops(m, x, n, (k - 1) as nat); }
}
// removing the node r from the tree changes nothing for the nodes that are not inside it
proof fn lemma_up_removed(m: Tree, r: DomId, x: DomId, n: nat)
    requires !inside(m, x, r),
    ensures up(m.remove(r), x, n) == up(m, x, n),
    decreases n,
{
    if n > 0 {
        lemma_up_removed(m, r, x, (n - 1) as nat);
        assert(up(m, x, (n - 1) as nat) != Some(r));
    }
}
proof fn lemma_removed(m: Tree, r: DomId, x: DomId)
    requires !inside(m, x, r),
    ensures forall|y: DomId| inside(m.remove(r), x, y) == inside(m, x, y),
{
    assert forall|y: DomId| inside(m.remove(r), x, y) == inside(m, x, y) by {
        if inside(m, x, y) {
            let n = choose|n: nat| #[trigger] up(m, x, n) == Some(y);
            lemma_up_removed(m, r, x, n);
        }
        if inside(m.remove(r), x, y) {
            let n = choose|n: nat| #[trigger] up(m.remove(r), x, n) == Some(y);
            lemma_up_removed(m, r, x, n);
        }
    }
}
proof fn lemma_shallower(m: Tree, r: DomId)
    requires shallow(m),
    ensures shallow(m.remove(r)),
{
    assert forall|x: DomId| #[trigger] up(m.remove(r), x, 500) is None by {
        lemma_up_less(m, r, x, 500);
        assert(up(m, x, 500) is None);
    }
}
proof fn lemma_up_less(m: Tree, r: DomId, x: DomId, n: nat)
    ensures up(m.remove(r), x, n) is Some ==> up(m.remove(r), x, n) == up(m, x, n),
    decreases n,
{
    if n > 0 { lemma_up_less(m, r, x, (n - 1) as nat); }
}

//@file crates/vertigo/src/driver_module/dom_suspense/dom_connection.rs
//@item struct DomConnection
pub struct DomConnection {
    parent: HashMap<DomId, DomId>,
    child: HashMap<DomId, BTreeSet<DomId>>, //parent -> child (BTreeSet<GraphId>)
}
//@end
impl DomConnection {
    spec fn view(self) -> Tree { self.parent@ }
//@item impl DomConnection :: fn new
    pub fn new() -> «(r:» Self«)
        ensures r@ == Tree::empty(),»
    {
        Self {
            parent: HashMap::new(),
            child: HashMap::new(),
        }
    }
//@end
//@item impl DomConnection :: fn set_parent
    pub fn set_parent(&mut self, node_id: DomId, parent_id: DomId)
«        ensures final(self)@ == old(self)@.insert(node_id, parent_id),»
    {
        self.node_remove(node_id);
        self.node_insert(node_id, parent_id);
«        assert(self@ =~= old(self)@.insert(node_id, parent_id));»
    }
//@end
//@item impl DomConnection :: fn remove
    pub fn remove(&mut self, node_id: DomId)
«        ensures final(self)@ == old(self)@.remove(node_id),»
    {
        self.node_remove(node_id);
    }
//@end
//@item impl DomConnection :: fn node_remove
    fn node_remove(&mut self, node_id: DomId)
«        ensures final(self)@ == old(self)@.remove(node_id),»
    {
        let parent_id = self.parent.remove(&node_id);

        if let Some(parent_id) = parent_id {
            self.child.remove(&parent_id);
        }
    }
//@end
//@item impl DomConnection :: fn node_insert
    fn node_insert(&mut self, node_id: DomId, parent_id: DomId)
«        ensures final(self)@ == old(self)@.insert(node_id, parent_id),»
    {
        self.parent.insert(node_id, parent_id);

        ⟦self.child.entry(parent_id).or_default()⇒vx_entry_or_default(&mut self.child, parent_id)⟧.insert(node_id);
    }
//@end
//@item impl DomConnection :: fn get_parent
    pub fn get_parent(&self, node_id: DomId) -> «(r:» Option<DomId>«)
        ensures r == (if self@.contains_key(node_id) { Some(self@[node_id]) } else { None }),»
    {
        self.parent.get(&node_id).cloned()
    }
//@end
}

//@file crates/vertigo/src/driver_module/dom_suspense/node_paths.rs
spec fn is_path(m: Tree, x: DomId, p: Set<DomId>) -> bool { forall|y: DomId| #[trigger] p.contains(y) <==> inside(m, x, y) }
spec fn is_union(ps: Map<DomId, BTreeSet<DomId>>, a: Set<DomId>) -> bool {
    forall|y: DomId| #[trigger] a.contains(y) <==> in_some(ps, y)
}
spec fn in_some(ps: Map<DomId, BTreeSet<DomId>>, y: DomId) -> bool {
    exists|k: DomId| #[trigger] ps.contains_key(k) && ps[k]@.contains(y)
}
//@item fn calculate_path
fn calculate_path(dom_connection: &DomConnection, suspense_id: DomId) -> «(r:» BTreeSet<DomId>«)
    requires up(dom_connection@, suspense_id, 500) is None,
    ensures is_path(dom_connection@, suspense_id, r@),»
{
    let mut path = BTreeSet::new();

    let mut current = suspense_id;
    path.insert(current);

    let mut max_level«: i32» = 500;
«    let ghost m = dom_connection@;
    let ghost mut n: nat = 0;
    assert forall|y: DomId| #[trigger] path@.contains(y) implies exists|i: nat| i <= n && #[trigger] up(m, suspense_id, i) == Some(y) by {
        assert(up(m, suspense_id, 0) == Some(y));
    }»

    loop
        «invariant
            m == dom_connection@, up(m, suspense_id, 500) is None,
            max_level == 500 - n, n <= 500,
            up(m, suspense_id, n) == Some(current),
            forall|i: nat| i <= n ==> (#[trigger] up(m, suspense_id, i) matches Some(y) && path@.contains(y)),
            forall|y: DomId| #[trigger] path@.contains(y) ==> exists|i: nat| i <= n && #[trigger] up(m, suspense_id, i) == Some(y),
        decreases 500 - n,»
    {
        max_level -= 1;

        if max_level < 0 {
            ⟦panic!("Too much nesting or recursion error")⇒vx_unreachable()⟧;
        }

        if let Some(parent) = dom_connection.get_parent(current) {
            current = parent;
            path.insert(current);
«            proof {
                n = n + 1;
                assert(up(m, suspense_id, n) == Some(current));
                if n == 500 { assert(false); }
            }»
        } else {
«            assert forall|y: DomId| #[trigger] path@.contains(y) <==> inside(m, suspense_id, y) by {
                if inside(m, suspense_id, y) {
                    let i = choose|i: nat| #[trigger] up(m, suspense_id, i) == Some(y);
                    if i > n {
                        assert(up(m, suspense_id, n + 1) is None);
                        lemma_up_stops(m, suspense_id, n + 1, i);
                    }
                }
            }»
            return path;
        }
    }
}
//@end
//@item fn calculate_all_nodes
fn calculate_all_nodes(paths: &BTreeMap<DomId, BTreeSet<DomId>>) -> «(r:» BTreeSet<DomId>«)
    ensures is_union(paths@, r@),»
{
    let mut all_node = BTreeSet::new();
«    let ghost mut l: Seq<(&DomId, &BTreeSet<DomId>)> = Seq::empty();»

    for (_, path) in «it:» ⟦paths.iter()⇒vx_values(paths)⟧
        «invariant
            forall|i: int| 0 <= i < it.seq().len() ==> paths@.contains_pair(*(#[trigger] it.seq()[i]).0, *it.seq()[i].1),
            forall|k: DomId| #[trigger] paths@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
            forall|y: DomId| #[trigger] all_node@.contains(y) ==> in_some(paths@, y),
            forall|i: int, y: DomId| 0 <= i < it.index@ && #[trigger] (*it.seq()[i].1)@.contains(y) ==> all_node@.contains(y),
            it.index@ == it.seq().len() ==> is_union(paths@, all_node@),»
    {
«        let ghost before = all_node@;
        let ghost (k0, p0) = it.seq()[it.index@ as int];
        assert(paths@.contains_key(*k0) && paths@[*k0] == *path);»
        for node_id in «jt:» ⟦path⇒vx_elems(path)⟧
            «invariant
                paths@.contains_key(*k0) && paths@[*k0] == *path,
                forall|i: int| 0 <= i < jt.seq().len() ==> path@.contains(*(#[trigger] jt.seq()[i])),
                forall|k: DomId| #[trigger] path@.contains(k) ==> exists|i: int| 0 <= i < jt.seq().len() && *(#[trigger] jt.seq()[i]) == k,
                forall|y: DomId| #[trigger] before.contains(y) ==> all_node@.contains(y),
                forall|y: DomId| #[trigger] all_node@.contains(y) ==> in_some(paths@, y),
                forall|i: int| 0 <= i < jt.index@ ==> all_node@.contains(*(#[trigger] jt.seq()[i])),
                jt.index@ == jt.seq().len() ==> forall|y: DomId| #[trigger] path@.contains(y) ==> all_node@.contains(y),»
        {
            all_node.insert(*node_id);
«            assert(in_some(paths@, *node_id));»
        }
    }
    all_node
}
//@end
//@item struct NodePaths
pub struct NodePaths {
    paths: BTreeMap<DomId, BTreeSet<DomId>>,
    all_nodes: BTreeSet<DomId>,
}
//@end
impl NodePaths {
    spec fn wf(self) -> bool { is_union(self.paths@, self.all_nodes@) }
    spec fn nodes(self) -> Set<DomId> { self.paths@.dom() }
    // the paths are those of the tree m
    spec fn fresh(self, m: Tree) -> bool { forall|k: DomId| #[trigger] self.paths@.contains_key(k) ==> is_path(m, k, self.paths@[k]@) }
//@item impl NodePaths :: fn new
    pub fn new() -> «(r:» Self«)
        ensures r.wf(), r.nodes() =~= Set::<DomId>::empty(), forall|m: Tree| r.fresh(m),»
    {
        Self {
            paths: BTreeMap::new(),
            all_nodes: BTreeSet::new(),
        }
    }
//@end
//@item impl NodePaths :: fn refresh_paths
    pub fn refresh_paths(&mut self, dom_connection: &DomConnection)
«        requires shallow(dom_connection@),
        ensures final(self).wf(), final(self).nodes() == old(self).nodes(), final(self).fresh(dom_connection@),»
    {
«        let ghost ks = self.paths@.dom();
        let ghost m = dom_connection@;»
        for ⟦(suspense_id, suspense_path)⇒suspense_id⟧ in «it:» ⟦self.paths.iter_mut()⇒vx_keys(&self.paths)⟧
            «invariant
                m == dom_connection@, shallow(m), self.paths@.dom() =~= ks,
                forall|i: int| 0 <= i < it.seq().len() ==> ks.contains(#[trigger] it.seq()[i]),
                forall|k: DomId| #[trigger] ks.contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && #[trigger] it.seq()[i] == k,
                forall|i: int| 0 <= i < it.index@ ==> is_path(m, #[trigger] it.seq()[i], self.paths@[it.seq()[i]]@),
                it.index@ == it.seq().len() ==> forall|k: DomId| #[trigger] ks.contains(k) ==> is_path(m, k, self.paths@[k]@),»
        {
«            let suspense_id = &suspense_id;
            let suspense_path = vx_at(&mut self.paths, suspense_id);»
            *suspense_path = calculate_path(dom_connection, *suspense_id);
        }

        self.all_nodes = calculate_all_nodes(&self.paths);
    }
//@end
//@item impl NodePaths :: fn remove
    pub fn remove(&mut self, node_id: DomId) -> «(r:» bool«)
        requires old(self).wf(),
        ensures
            final(self).wf(), r == old(self).nodes().contains(node_id), final(self).paths@ == old(self).paths@.remove(node_id),
            !r ==> *final(self) == *old(self) || final(self).paths@ == old(self).paths@ && final(self).all_nodes@ == old(self).all_nodes@,»
    {
        let item = self.paths.remove(&node_id);

        let is_removed = item.is_some();

        if is_removed {
            self.all_nodes = calculate_all_nodes(&self.paths);
        }«
        else { assert(self.paths@ =~= old(self).paths@); }»

        is_removed
    }
//@end
//@item impl NodePaths :: fn insert
    pub fn insert(&mut self, dom_connection: &DomConnection, node_id: DomId)
«        requires shallow(dom_connection@),
        ensures
            final(self).wf(), final(self).nodes() =~= old(self).nodes().insert(node_id),
            old(self).fresh(dom_connection@) ==> final(self).fresh(dom_connection@),»
    {
        self.paths
            .insert(node_id, calculate_path(dom_connection, node_id));
        self.all_nodes = calculate_all_nodes(&self.paths);
    }
//@end
//@item impl NodePaths :: fn contains
    pub fn contains(&self, node_id: &DomId) -> «(r:» bool«)
        ensures r == self.all_nodes@.contains(*node_id),»
    {
        self.all_nodes.contains(node_id)
    }
//@end
}
// ---- trusted: what an element does when it is told (its class is under contract in the unit element_class) -----------------
pub struct Told { pub told: Ghost<Map<Callback, Seq<bool>>> }
#[verifier::external_body]
pub struct Callback { _p: () }
#[verifier::external_body]
fn vx_call(c: &Callback, show: bool, w: &mut Told)
    requires old(w).told@.contains_key(*c),
    ensures final(w).told@ == old(w).told@.insert(*c, old(w).told@[*c].push(show)),
{ unimplemented!() }
spec fn grown(a: Seq<bool>, b: Seq<bool>) -> bool { b == a || exists|v: bool| b == #[trigger] a.push(v) && (a.len() > 0 ==> a.last() != v) }

//@file crates/vertigo/src/driver_module/dom_suspense/dom_suspense_mod.rs
//@item struct LayerCallback
struct LayerCallback {
    callback: ⟦Rc<dyn Fn(bool)>⇒Callback⟧,
    last_show_loading: bool,
}
//@end
//@item struct DomSuspenseState
struct DomSuspenseState {
    dom_connection: DomConnection,
    suspense: NodePaths, //<vertigo-suspense />, node ID -> the node and all its ancestors
    layer: NodePaths,    //layer ID -> full path
    layer_callback: BTreeMap<DomId, LayerCallback>,
}
//@end
// some unfinished node is y or inside y
spec fn pending(s: NodePaths, m: Tree, y: DomId) -> bool { exists|k: DomId| #[trigger] s.nodes().contains(k) && inside(m, k, y) }
type Layers = Map<DomId, LayerCallback>;
// every element has its own callback, told the value that is kept as the last one
spec fn distinct(ls: Layers) -> bool {
    forall|a: DomId, b: DomId| #[trigger] ls.contains_key(a) && #[trigger] ls.contains_key(b) && a != b ==> ls[a].callback != ls[b].callback
}
spec fn heard(l: LayerCallback, w: Map<Callback, Seq<bool>>) -> bool {
    w.contains_key(l.callback) && w[l.callback].len() > 0 && w[l.callback].last() == l.last_show_loading
}
spec fn all_heard(ls: Layers, w: Map<Callback, Seq<bool>>) -> bool { forall|a: DomId| #[trigger] ls.contains_key(a) ==> heard(ls[a], w) }
// the element with the layer l under id has been told what is the case
spec fn right(l: LayerCallback, id: DomId, s: NodePaths, m: Tree) -> bool {
    m.contains_key(id) ==> (l.last_show_loading <==> pending(s, m, m[id]))
}
proof fn lemma_pending(s: NodePaths, m: Tree, y: DomId)
    requires s.wf(), s.fresh(m),
    ensures s.all_nodes@.contains(y) == pending(s, m, y),
{
    if s.all_nodes@.contains(y) {
        assert(in_some(s.paths@, y));
        let k = choose|k: DomId| #[trigger] s.paths@.contains_key(k) && s.paths@[k]@.contains(y);
        assert(is_path(m, k, s.paths@[k]@));
        assert(s.nodes().contains(k) && inside(m, k, y));
    }
    if pending(s, m, y) {
        let k = choose|k: DomId| #[trigger] s.nodes().contains(k) && inside(m, k, y);
        assert(s.paths@.contains_key(k));
        assert(is_path(m, k, s.paths@[k]@));
        assert(in_some(s.paths@, y));
    }
}
// from old to new: the same elements with the same callbacks, each told at most one value more, and only a different one
spec fn told_only_changes(o: Layers, n: Layers, a: Map<Callback, Seq<bool>>, b: Map<Callback, Seq<bool>>) -> bool {
    &&& n.dom() =~= o.dom()
    &&& forall|x: DomId| #[trigger] o.contains_key(x) ==> n[x].callback == o[x].callback
    &&& b.dom() =~= a.dom()
    &&& forall|c: Callback| #[trigger] a.contains_key(c) ==> grown(a[c], b[c])
    &&& forall|c: Callback| #[trigger] a.contains_key(c) && b[c] != a[c] ==> is_callback(o, c)
}
spec fn is_callback(ls: Layers, c: Callback) -> bool { exists|x: DomId| #[trigger] ls.contains_key(x) && ls[x].callback == c }

impl DomSuspenseState {
    spec fn tree(self) -> Tree { self.dom_connection@ }
    spec fn wf(self, w: Told) -> bool {
        &&& self.suspense.wf() && self.layer.wf() && shallow(self.tree())
        &&& distinct(self.layer_callback@) && all_heard(self.layer_callback@, w.told@)
    }
    // every element with a callback that is in the page knows whether something is unfinished in its parent
    spec fn settled(self) -> bool {
        &&& self.suspense.fresh(self.tree())
        &&& forall|x: DomId| #[trigger] self.layer_callback@.contains_key(x) ==> right(self.layer_callback@[x], x, self.suspense, self.tree())
    }
//@item impl DomSuspenseState :: fn new
    pub fn new() -> «(r:» Self«)
        ensures forall|w: Told| r.wf(w), r.settled(), r.tree() == Tree::empty(), r.suspense.nodes() =~= Set::<DomId>::empty(), r.layer_callback@ == Layers::empty(),»
    {
«        assert forall|x: DomId| #[trigger] up(Tree::empty(), x, 500) is None by { reveal_with_fuel(up, 2); lemma_up_stops(Tree::empty(), x, 1, 500); }»
        Self {
            dom_connection: DomConnection::new(),
            suspense: NodePaths::new(),
            layer: NodePaths::new(),
            layer_callback: BTreeMap::new(),
        }
    }
//@end
//@item impl DomSuspenseState :: fn refresh_subscribers
    fn refresh_subscribers(&mut self«, w: &mut Told»)
«        requires old(self).wf(*old(w)), old(self).suspense.fresh(old(self).tree()),
        ensures
            final(self).wf(*final(w)), final(self).settled(),
            final(self).dom_connection == old(self).dom_connection, final(self).suspense == old(self).suspense, final(self).layer == old(self).layer,
            told_only_changes(old(self).layer_callback@, final(self).layer_callback@, old(w).told@, final(w).told@),»
    {
«        let ghost (m, s, ls, t) = (self.tree(), self.suspense, self.layer_callback@, w.told@);»
        for ⟦(id, layer)⇒id⟧ in «it:» ⟦self.layer_callback.iter_mut()⇒vx_keys(&self.layer_callback)⟧
            «invariant
                m == self.tree(), s == self.suspense, self.layer == old(self).layer, self.dom_connection == old(self).dom_connection,
                s.wf(), s.fresh(m),
                ls == old(self).layer_callback@, t == old(w).told@, distinct(ls), all_heard(ls, t),
                it.seq().no_duplicates(),
                forall|i: int| 0 <= i < it.seq().len() ==> ls.contains_key(#[trigger] it.seq()[i]),
                forall|k: DomId| #[trigger] ls.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && #[trigger] it.seq()[i] == k,
                all_heard(self.layer_callback@, w.told@),
                told_only_changes(ls, self.layer_callback@, t, w.told@),
                forall|i: int| it.index@ <= i < it.seq().len() ==> self.layer_callback@[#[trigger] it.seq()[i]] == ls[it.seq()[i]] && w.told@[ls[it.seq()[i]].callback] == t[ls[it.seq()[i]].callback],
                forall|i: int| 0 <= i < it.index@ ==> right(self.layer_callback@[#[trigger] it.seq()[i]], it.seq()[i], s, m),
                it.index@ == it.seq().len() ==> forall|k: DomId| #[trigger] ls.contains_key(k) ==> right(self.layer_callback@[k], k, s, m),»
        {
«            let ghost (ls1, w1) = (self.layer_callback@, w.told@);
            let ghost x = id;
            let ghost n = it.index@ as int;
            assert(it.seq()[n] == x);
            assert(ls.contains_key(x));
            assert(heard(ls1[x], w1));
            let id = &id;
            let layer = vx_at(&mut self.layer_callback, id);»
            if let Some(id) = self.dom_connection.get_parent(*id) {
                let show_loading = self.suspense.contains(&id);
«                proof { lemma_pending(s, m, id); }»

                if layer.last_show_loading != show_loading {
                    layer.last_show_loading = show_loading;
                    ⟦(layer.callback)(show_loading)⇒vx_call(&layer.callback, show_loading, w)⟧;
                }
            }
«            proof {
                let c = ls[x].callback;
                assert(self.layer_callback@ =~= ls1.insert(x, self.layer_callback@[x]));
                assert(self.layer_callback@[x].callback == c);
                assert(right(self.layer_callback@[x], x, s, m));
                assert(is_callback(ls, c));
                assert(w.told@ == w1 || w.told@ == w1.insert(c, w1[c].push(self.layer_callback@[x].last_show_loading)));
                assert forall|k: DomId| #[trigger] self.layer_callback@.contains_key(k) implies heard(self.layer_callback@[k], w.told@) by {
                    assert(ls.contains_key(k));
                    assert(heard(ls1[k], w1));
                }
                assert(w1[c] == t[c]);
                assert forall|d: Callback| #[trigger] t.contains_key(d) implies grown(t[d], w.told@[d]) by {
                    assert(grown(t[d], w1[d]));
                }
            }»
        }
    }
//@end
//@item impl DomSuspenseState :: fn refresh_paths
    fn refresh_paths(&mut self«, w: &mut Told»)
«        requires old(self).wf(*old(w)),
        ensures
            final(self).wf(*final(w)), final(self).settled(),
            final(self).dom_connection == old(self).dom_connection, final(self).suspense.nodes() == old(self).suspense.nodes(), final(self).layer.nodes() == old(self).layer.nodes(),
            told_only_changes(old(self).layer_callback@, final(self).layer_callback@, old(w).told@, final(w).told@),»
    {
        self.suspense.refresh_paths(&self.dom_connection);
        self.layer.refresh_paths(&self.dom_connection);

        self.refresh_subscribers(«w»);
    }
//@end
//@item impl DomSuspenseState :: fn set_node_suspense
    pub fn set_node_suspense(&mut self, suspense_id: DomId«, w: &mut Told»)
«        requires old(self).wf(*old(w)),
        ensures
            final(self).wf(*final(w)), final(self).settled(),
            final(self).tree() == old(self).tree(), final(self).suspense.nodes() =~= old(self).suspense.nodes().insert(suspense_id),
            told_only_changes(old(self).layer_callback@, final(self).layer_callback@, old(w).told@, final(w).told@),»
    {
        self.suspense.insert(&self.dom_connection, suspense_id);
        self.refresh_paths(«w»);
    }
//@end
//@item impl DomSuspenseState :: fn set_parent
    pub fn set_parent(&mut self, node_id: DomId, parent_id: DomId«, w: &mut Told»)
«        requires old(self).wf(*old(w)), shallow(old(self).tree().insert(node_id, parent_id)),
        ensures
            final(self).wf(*final(w)), final(self).settled(),
            final(self).tree() == old(self).tree().insert(node_id, parent_id), final(self).suspense.nodes() == old(self).suspense.nodes(),
            told_only_changes(old(self).layer_callback@, final(self).layer_callback@, old(w).told@, final(w).told@),»
    {
        self.dom_connection.set_parent(node_id, parent_id);

        self.refresh_paths(«w»);
    }
//@end
//@item impl DomSuspenseState :: fn remove
    pub fn remove(&mut self, node_id: DomId«, w: &mut Told»)
«        requires old(self).wf(*old(w)),
        ensures
            final(self).wf(*final(w)),
            final(self).tree() == old(self).tree().remove(node_id), final(self).suspense.nodes() =~= old(self).suspense.nodes().remove(node_id),
            // an unfinished node, a node with a callback, or one with nothing unfinished inside it
            old(self).suspense.nodes().contains(node_id) || old(self).layer.nodes().contains(node_id)
                || old(self).settled() && !pending(old(self).suspense, old(self).tree(), node_id) ==> final(self).settled(),
            told_only_changes(old(self).layer_callback@, final(self).layer_callback@, old(w).told@, final(w).told@),»
    {
«        proof { lemma_shallower(self.tree(), node_id); }»
        self.dom_connection.remove(node_id);
        let is_suspense_removed = self.suspense.remove(node_id);
        let is_layer_removed = self.layer.remove(node_id);

        if is_suspense_removed || is_layer_removed {
            self.refresh_paths(«w»);
        }«
        proof {
            if !is_suspense_removed && !is_layer_removed && old(self).settled() && !pending(old(self).suspense, old(self).tree(), node_id) {
                lemma_remove_outside(*old(self), *self, node_id);
            }
        }»
    }
//@end
//@item impl DomSuspenseState :: fn set_layer_callback
    pub fn set_layer_callback(&mut self, node_id: DomId, callback: ⟦impl Fn(bool) + 'static⇒Callback⟧«, w: &mut Told»)
«        requires
            old(self).wf(*old(w)),
            // a new callback
            old(w).told@.contains_key(callback), old(w).told@[callback].len() == 0, !is_callback(old(self).layer_callback@, callback),
        ensures
            final(self).wf(*final(w)), final(self).settled(),
            final(self).tree() == old(self).tree(), final(self).suspense.nodes() == old(self).suspense.nodes(),
            final(self).layer_callback@.dom() =~= old(self).layer_callback@.dom().insert(node_id), final(self).layer_callback@[node_id].callback == callback,
            forall|x: DomId| #[trigger] old(self).layer_callback@.contains_key(x) && x != node_id ==> final(self).layer_callback@[x].callback == old(self).layer_callback@[x].callback,
            forall|c: Callback| #[trigger] old(w).told@.contains_key(c) && c != callback ==> grown(old(w).told@[c], final(w).told@[c]),»
    {
        let show_loading = self.suspense.contains(&node_id);

        ⟦let callback = Rc::new(callback);⇒⟧
        ⟦callback(show_loading)⇒vx_call(&callback, show_loading, w)⟧;
«        let ghost c0 = callback;»

        let state = LayerCallback {
            callback,
            last_show_loading: show_loading,
        };

        let prev_value = self.layer_callback.insert(node_id, state);
«        proof {
            let ls = self.layer_callback@;
            assert forall|a: DomId| #[trigger] ls.contains_key(a) implies heard(ls[a], w.told@) by {
                if a != node_id { assert(old(self).layer_callback@.contains_key(a)); assert(heard(old(self).layer_callback@[a], old(w).told@)); assert(ls[a].callback != c0); }
            }
            assert forall|a: DomId, b: DomId| #[trigger] ls.contains_key(a) && #[trigger] ls.contains_key(b) && a != b implies ls[a].callback != ls[b].callback by {
                if a != node_id { assert(old(self).layer_callback@.contains_key(a)); }
                if b != node_id { assert(old(self).layer_callback@.contains_key(b)); }
            }
        }»

        if prev_value.is_some() {
        }

        self.layer.insert(&self.dom_connection, node_id);
«        let ghost w1 = w.told@;
        let ghost ls1 = self.layer_callback@;»
        self.refresh_paths(«w»);
«        proof {
            assert(ls1.contains_key(node_id));
            assert forall|c: Callback| #[trigger] old(w).told@.contains_key(c) && c != c0 implies grown(old(w).told@[c], w.told@[c]) by { assert(w1.contains_key(c)); }
            assert forall|x: DomId| #[trigger] old(self).layer_callback@.contains_key(x) && x != node_id implies self.layer_callback@[x].callback == old(self).layer_callback@[x].callback by { assert(ls1.contains_key(x)); }
        }»
    }
//@end
//@item impl DomSuspenseState :: fn remove_layer_callback
    pub fn remove_layer_callback(&mut self, node_id: DomId«, w: &mut Told»)
«        requires old(self).wf(*old(w)),
        ensures
            final(self).wf(*final(w)), old(self).settled() ==> final(self).settled(),
            final(self).tree() == old(self).tree(), final(self).suspense.nodes() =~= old(self).suspense.nodes(),
            told_only_changes(old(self).layer_callback@.remove(node_id), final(self).layer_callback@, old(w).told@, final(w).told@),»
    {
        self.layer_callback.remove(&node_id);
«        proof {
            assert forall|a: DomId| #[trigger] self.layer_callback@.contains_key(a) implies heard(self.layer_callback@[a], w.told@) by { assert(old(self).layer_callback@.contains_key(a)); }
            assert forall|x: DomId| old(self).settled() && #[trigger] self.layer_callback@.contains_key(x) implies right(self.layer_callback@[x], x, self.suspense, self.tree()) by { assert(old(self).layer_callback@.contains_key(x)); }
        }»
        let is_layer_removed = self.layer.remove(node_id);

        if is_layer_removed {
            self.refresh_paths(«w»);
        }
    }
//@end
}
proof fn lemma_remove_outside(a: DomSuspenseState, b: DomSuspenseState, r: DomId)
    requires
        a.settled(), !pending(a.suspense, a.tree(), r), b.tree() == a.tree().remove(r), b.suspense.paths@ == a.suspense.paths@, b.layer_callback@ == a.layer_callback@,
    ensures b.settled(),
{
    assert forall|k: DomId| #[trigger] b.suspense.paths@.contains_key(k) implies is_path(b.tree(), k, b.suspense.paths@[k]@) by {
        assert(a.suspense.nodes().contains(k));
        assert(!inside(a.tree(), k, r));
        lemma_removed(a.tree(), r, k);
        assert(is_path(a.tree(), k, a.suspense.paths@[k]@));
    }
    assert forall|x: DomId| #[trigger] b.layer_callback@.contains_key(x) implies right(b.layer_callback@[x], x, b.suspense, b.tree()) by {
        assert(right(a.layer_callback@[x], x, a.suspense, a.tree()));
        if b.tree().contains_key(x) {
            let y = b.tree()[x];
            if pending(a.suspense, a.tree(), y) {
                let k = choose|k: DomId| #[trigger] a.suspense.nodes().contains(k) && inside(a.tree(), k, y);
                assert(!inside(a.tree(), k, r));
                lemma_removed(a.tree(), r, k);
                assert(b.suspense.nodes().contains(k) && inside(b.tree(), k, y));
            }
            if pending(b.suspense, b.tree(), y) {
                let k = choose|k: DomId| #[trigger] b.suspense.nodes().contains(k) && inside(b.tree(), k, y);
                assert(a.suspense.nodes().contains(k));
                assert(!inside(a.tree(), k, r));
                lemma_removed(a.tree(), r, k);
                assert(inside(a.tree(), k, y));
            }
        }
    }
}
// ---- the page's driver: what each operation records for the host, and what it tells the elements --------------------------
pub struct DropResource { pub releases: Ghost<DomId> }
impl DropResource {
    // the function of the handle is verified to release that element's callback from whatever the tree is when it is run
    fn for_layer<F: FnOnce(&mut DomSuspenseState, &mut Told)>(key: Ghost<DomId>, f: F) -> (r: DropResource)
        requires
            forall|s: &mut DomSuspenseState, w: &mut Told| (*s).wf(*w) ==> #[trigger] call_requires(f, (s, w)),
            forall|s: &mut DomSuspenseState, w: &mut Told| #[trigger] call_ensures(f, (s, w), ()) ==> released(*s, *w, *final(s), *final(w), key@),
        ensures r.releases == key,
    { DropResource { releases: key } }
    fn for_parent<F: FnOnce(&mut HashMapMut<DomId, ParentFn>)>(key: Ghost<DomId>, f: F) -> (r: DropResource)
        requires
            forall|m: &mut HashMapMut<DomId, ParentFn>| #[trigger] call_requires(f, (m,)),
            forall|m: &mut HashMapMut<DomId, ParentFn>| #[trigger] call_ensures(f, (m,), ()) ==> (*final(m))@ == (*m)@.remove(key@),
        ensures r.releases == key,
    { DropResource { releases: key } }
}
spec fn released(a: DomSuspenseState, w: Told, b: DomSuspenseState, v: Told, id: DomId) -> bool {
    &&& b.wf(v) && (a.settled() ==> b.settled())
    &&& b.tree() == a.tree() && b.suspense.nodes() =~= a.suspense.nodes()
    &&& told_only_changes(a.layer_callback@.remove(id), b.layer_callback@, w.told@, v.told@)
}
//@item struct DomSuspense
pub struct DomSuspense {
    «pub» inner: InnerValue<DomSuspenseState>,
}
//@end
impl DomSuspense {
    spec fn view(self) -> DomSuspenseState { self.inner.value }
//@item impl DomSuspense :: fn new
    pub fn new() -> «(r:» ⟦&'static DomSuspense⇒DomSuspense⟧«)
        ensures forall|w: Told| r@.wf(w), r@.settled(), r@.tree() == Tree::empty(),»
    {
        ⟦Box::leak(Box::new(⇒⟧Self {
            inner: InnerValue::new(DomSuspenseState::new()),
        }⟦))⇒⟧
    }
//@end
    //Function called when a new <vertigo-suspense /> node is created
//@item impl DomSuspense :: fn set_node_suspense
    pub fn set_node_suspense(⟦&self⇒&mut self⟧, node_id: DomId«, w: &mut Told»)
«        requires old(self)@.wf(*old(w)),
        ensures
            final(self)@.wf(*final(w)), final(self)@.settled(),
            final(self)@.tree() == old(self)@.tree(), final(self)@.suspense.nodes() =~= old(self)@.suspense.nodes().insert(node_id),»
    {
        self.inner.get_mut().set_node_suspense(node_id«, w»);
    }
//@end
//@item impl DomSuspense :: fn set_parent
    pub fn set_parent(⟦&self⇒&mut self⟧, node_id: DomId, parent_id: DomId«, w: &mut Told»)
«        requires old(self)@.wf(*old(w)), shallow(old(self)@.tree().insert(node_id, parent_id)),
        ensures
            final(self)@.wf(*final(w)), final(self)@.settled(),
            final(self)@.tree() == old(self)@.tree().insert(node_id, parent_id), final(self)@.suspense.nodes() == old(self)@.suspense.nodes(),»
    {
        self.inner.get_mut().set_parent(node_id, parent_id«, w»);
    }
//@end
//@item impl DomSuspense :: fn remove
    pub fn remove(⟦&self⇒&mut self⟧, node_id: DomId«, w: &mut Told»)
«        requires old(self)@.wf(*old(w)),
        ensures
            final(self)@.wf(*final(w)), removed(old(self)@, final(self)@, node_id),»
    {
        self.inner.get_mut().remove(node_id«, w»);
    }
//@end
//@item impl DomSuspense :: fn set_layer_callback
    pub fn set_layer_callback(
        ⟦&'static self⇒&mut self⟧,
        node_id: DomId,
        callback: ⟦impl Fn(bool) + 'static⇒Callback⟧,
«        w: &mut Told,»
    ) -> «(r:» DropResource«)
        requires
            old(self)@.wf(*old(w)),
            old(w).told@.contains_key(callback), old(w).told@[callback].len() == 0, !is_callback(old(self)@.layer_callback@, callback),
        ensures
            r.releases@ == node_id,
            final(self)@.wf(*final(w)), final(self)@.settled(),
            final(self)@.tree() == old(self)@.tree(), final(self)@.suspense.nodes() == old(self)@.suspense.nodes(),
            final(self)@.layer_callback@.contains_key(node_id), final(self)@.layer_callback@[node_id].callback == callback,»
    {
        self.inner.get_mut().set_layer_callback(node_id, callback«, w»);

        DropResource⟦::new⇒::for_layer⟧(«Ghost(node_id), »move ⟦||⇒|s: &mut DomSuspenseState, w: &mut Told| requires old(s).wf(*old(w)), ensures released(*old(s), *old(w), *final(s), *final(w), node_id)⟧ {
            ⟦self.inner.get_mut()⇒s⟧.remove_layer_callback(node_id«, w»);
        })
    }
//@end
}
// a node is gone from the tree; if it was unfinished, had a callback, or nothing unfinished was inside it, all know
spec fn removed(a: DomSuspenseState, b: DomSuspenseState, id: DomId) -> bool {
    &&& b.tree() == a.tree().remove(id) && b.suspense.nodes() =~= a.suspense.nodes().remove(id)
    &&& a.suspense.nodes().contains(id) || a.layer.nodes().contains(id) || a.settled() && !pending(a.suspense, a.tree(), id) ==> b.settled()
}

// a subscriber of the parent of a node: it may do anything with the page that keeps what is claimed here
#[verifier::external_body]
pub struct ParentFn { _p: () }
impl Clone for ParentFn {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn vx_parent(c: &ParentFn, parent: DomId, d: &mut DriverDom, w: &mut Told, Ghost(child): Ghost<DomId>)
    requires
        old(d).dom_suspense@.wf(*old(w)),
        // it runs after the insertion has been recorded
        old(d).commands.commands@.len() > 0,
        old(d).commands.commands@.last() matches DriverDomCommand::InsertBefore { parent: p, child: c, .. } && p == parent && c == child,
    ensures
        final(d).dom_suspense@.wf(*final(w)),
        // the domain: nesting stays below 500
        shallow(final(d).dom_suspense@.tree().insert(child, parent)),
{ unimplemented!() }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r == st(s@) { s.to_string() }

//@file crates/vertigo/src/driver_module/dom.rs
//@item struct DriverDom
pub struct DriverDom {
    commands: ⟦&'static Commands⇒Commands⟧,
    _sub1: DropResource,
    _sub2: DropResource,
    node_parent_callback: ⟦Rc<HashMapMut<DomId, Callback>>⇒HashMapMut<DomId, ParentFn>⟧,
    pub dom_suspense: ⟦&'static DomSuspense⇒DomSuspense⟧,
}
//@end
impl DriverDom {
    // recorded this command, nothing else
    spec fn recorded(self, o: Self, c: DriverDomCommand) -> bool {
        &&& self.commands.commands@ == o.commands.commands@.push(c)
        &&& self.commands.api.sent == o.commands.api.sent && self.commands.state == o.commands.state
        &&& self.node_parent_callback == o.node_parent_callback
    }
//@item impl DriverDom :: fn create_node
    pub fn create_node(⟦&self⇒&mut self⟧, id: DomId, name: ⟦impl Into<StaticString>⇒StaticString⟧«, w: &mut Told»)
«        requires old(self).dom_suspense@.wf(*old(w)),
        ensures
            final(self).recorded(*old(self), DriverDomCommand::CreateNode { id, name }),
            final(self).dom_suspense@.wf(*final(w)), old(self).dom_suspense@.settled() ==> final(self).dom_suspense@.settled(),
            final(self).dom_suspense@.tree() == old(self).dom_suspense@.tree(),
            // exactly the nodes of this name are unfinished ones
            final(self).dom_suspense@.suspense.nodes() =~= (if name@ == "vertigo-suspense"@ { old(self).dom_suspense@.suspense.nodes().insert(id) } else { old(self).dom_suspense@.suspense.nodes() }),»
    {
        let name = name⟦.into()⇒⟧;

        if ⟦name.as_str() == "vertigo-suspense"⇒vx_str_eq(name.as_str(), "vertigo-suspense")⟧ {
            self.dom_suspense.set_node_suspense(id«, w»);
        }

        self.commands
            .add_command(DriverDomCommand::CreateNode { id, name });
    }
//@end
//@item impl DriverDom :: fn create_text
    pub fn create_text(⟦&self⇒&mut self⟧, id: DomId, value: &str)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::CreateText { id, value: st(value@) }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.commands.add_command(DriverDomCommand::CreateText {
            id,
            value: ⟦value.into()⇒vx_owned(value)⟧,
        })
    }
//@end
//@item impl DriverDom :: fn update_text
    pub fn update_text(⟦&self⇒&mut self⟧, id: DomId, value: &str)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::UpdateText { id, value: st(value@) }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.commands.add_command(DriverDomCommand::UpdateText {
            id,
            value: ⟦value.into()⇒vx_owned(value)⟧,
        });
    }
//@end
//@item impl DriverDom :: fn set_attr
    pub fn set_attr(⟦&self⇒&mut self⟧, id: DomId, name: ⟦impl Into<StaticString>⇒StaticString⟧, value: &str)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::SetAttr { id, name, value: st(value@) }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        let name = name⟦.into()⇒⟧;

        self.commands.add_command(DriverDomCommand::SetAttr {
            id,
            name,
            value: ⟦value.into()⇒vx_owned(value)⟧,
        });
    }
//@end
//@item impl DriverDom :: fn remove_attr
    pub fn remove_attr(⟦&self⇒&mut self⟧, id: DomId, name: ⟦impl Into<StaticString>⇒StaticString⟧)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::RemoveAttr { id, name }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.commands.add_command(DriverDomCommand::RemoveAttr {
            id,
            name: name⟦.into()⇒⟧,
        });
    }
//@end
//@item impl DriverDom :: fn remove_text
    pub fn remove_text(⟦&self⇒&mut self⟧, id: DomId«, w: &mut Told»)
«        requires old(self).dom_suspense@.wf(*old(w)),
        ensures
            final(self).recorded(*old(self), DriverDomCommand::RemoveText { id }),
            final(self).dom_suspense@.wf(*final(w)), removed(old(self).dom_suspense@, final(self).dom_suspense@, id),»
    {
        self.commands
            .add_command(DriverDomCommand::RemoveText { id });
        self.dom_suspense.remove(id«, w»);
    }
//@end
//@item impl DriverDom :: fn remove_node
    pub fn remove_node(⟦&self⇒&mut self⟧, id: DomId«, w: &mut Told»)
«        requires old(self).dom_suspense@.wf(*old(w)),
        ensures
            final(self).recorded(*old(self), DriverDomCommand::RemoveNode { id }),
            final(self).dom_suspense@.wf(*final(w)), removed(old(self).dom_suspense@, final(self).dom_suspense@, id),»
    {
        self.commands
            .add_command(DriverDomCommand::RemoveNode { id });
        self.dom_suspense.remove(id«, w»);
    }
//@end
//@item impl DriverDom :: fn insert_before
    pub fn insert_before(⟦&self⇒&mut self⟧, parent: DomId, child: DomId, ref_id: Option<DomId>«, w: &mut Told»)
«        requires old(self).dom_suspense@.wf(*old(w)), shallow(old(self).dom_suspense@.tree().insert(child, parent)),
        ensures
            final(self).dom_suspense@.wf(*final(w)), final(self).dom_suspense@.settled(),
            final(self).dom_suspense@.tree().contains_pair(child, parent),
            !old(self).node_parent_callback@.contains_key(child) ==> {
                &&& final(self).recorded(*old(self), DriverDomCommand::InsertBefore { parent, child, ref_id })
                &&& final(self).dom_suspense@.tree() == old(self).dom_suspense@.tree().insert(child, parent)
                &&& final(self).dom_suspense@.suspense.nodes() == old(self).dom_suspense@.suspense.nodes()
            },»
    {
        self.commands.add_command(DriverDomCommand::InsertBefore {
            parent,
            child,
            ref_id,
        });

        if let Some(callback) = self.node_parent_callback.get(&child) {
            ⟦callback(parent)⇒vx_parent(&callback, parent, self, w, Ghost(child))⟧;
        }

        self.dom_suspense.set_parent(child, parent«, w»);
    }
//@end
//@item impl DriverDom :: fn insert_css
    pub fn insert_css(⟦&self⇒&mut self⟧, selector: &str, value: &str)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::InsertCss { selector: st(selector@), value: st(value@) }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.commands.add_command(DriverDomCommand::InsertCss {
            selector: ⟦selector.into()⇒vx_owned(selector)⟧,
            value: ⟦value.into()⇒vx_owned(value)⟧,
        });
    }
//@end
//@item impl DriverDom :: fn create_comment
    pub fn create_comment(⟦&self⇒&mut self⟧, id: DomId, value: ⟦impl Into<String>⇒String⟧)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::CreateComment { id, value }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.commands.add_command(DriverDomCommand::CreateComment {
            id,
            value: value⟦.into()⇒⟧,
        })
    }
//@end
//@item impl DriverDom :: fn remove_comment
    pub fn remove_comment(⟦&self⇒&mut self⟧, id: DomId«, w: &mut Told»)
«        requires old(self).dom_suspense@.wf(*old(w)),
        ensures
            final(self).recorded(*old(self), DriverDomCommand::RemoveComment { id }),
            final(self).dom_suspense@.wf(*final(w)), removed(old(self).dom_suspense@, final(self).dom_suspense@, id),»
    {
        self.commands
            .add_command(DriverDomCommand::RemoveComment { id });
        self.dom_suspense.remove(id«, w»);
    }
//@end
//@item impl DriverDom :: fn callback_add
    pub fn callback_add(⟦&self⇒&mut self⟧, id: DomId, event_name: ⟦impl Into<String>⇒String⟧, callback_id: CallbackId)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::CallbackAdd { id, event_name, callback_id }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.commands.add_command(DriverDomCommand::CallbackAdd {
            id,
            event_name: event_name⟦.into()⇒⟧,
            callback_id,
        });
    }
//@end
//@item impl DriverDom :: fn callback_remove
    pub fn callback_remove(⟦&self⇒&mut self⟧, id: DomId, event_name: ⟦impl Into<String>⇒String⟧, callback_id: CallbackId,)
«        ensures
            final(self).recorded(*old(self), DriverDomCommand::CallbackRemove { id, event_name, callback_id }),
            final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.commands.add_command(DriverDomCommand::CallbackRemove {
            id,
            event_name: event_name⟦.into()⇒⟧,
            callback_id,
        });
    }
//@end
//@item impl DriverDom :: fn flush_dom_changes
    pub fn flush_dom_changes(⟦&self⇒&mut self⟧)
«        ensures
            final(self).dom_suspense == old(self).dom_suspense,
            old(self).commands.state@ is Ready ==> final(self).commands.flushed(old(self).commands),
            !(old(self).commands.state@ is Ready) ==> final(self).commands.unsent(old(self).commands),»
    {
        self.commands.flush_dom_changes();
    }
//@end
//@item impl DriverDom :: fn node_parent
    pub fn node_parent(⟦&self⇒&mut self⟧, node_id: DomId, callback: ⟦impl Fn(DomId) + 'static⇒ParentFn⟧) -> «(r:» DropResource«)
        ensures
            r.releases@ == node_id, final(self).node_parent_callback@ == old(self).node_parent_callback@.insert(node_id, callback),
            final(self).commands == old(self).commands, final(self).dom_suspense == old(self).dom_suspense,»
    {
        self.node_parent_callback.insert(node_id, ⟦Rc::new(callback)⇒callback⟧);

        ⟦let node_parent_callback = self.node_parent_callback.clone();⇒⟧

        DropResource⟦::new⇒::for_parent⟧(«Ghost(node_id), »move ⟦||⇒|node_parent_callback: &mut HashMapMut<DomId, ParentFn>| ensures final(node_parent_callback)@ == old(node_parent_callback)@.remove(node_id)⟧ {
            node_parent_callback.remove(&node_id);
        })
    }
//@end
}
} // verus!
fn main() {}
