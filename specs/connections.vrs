#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, BTreeSet};

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, gid_axiom::axiom_graph_id_key};

//@include graph_types.inc
//@include struct_mut.inc
//@include btree_map_mut.inc

// a connection function supplied by the program, and the handle it returns; dropping the handle ends the connection
#[verifier::external_body]
pub struct ConnectType { _p: () }
impl Clone for ConnectType {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct DropResource { _p: () }
impl ConnectType {
    // called for node id while the nodes in open are connected
    #[verifier::external_body]
    fn call(&self, id: Ghost<GraphId>, open: Ghost<Set<GraphId>>) -> DropResource
        requires !open@.contains(id@),
    { unimplemented!() }
}

//@file crates/vertigo/src/computed/dependencies/external_connections.rs
//@item struct ExternalConnections
pub struct ExternalConnections {
    connect: BTreeMapMut<GraphId, ConnectType>,
    connected_resource: BTreeMapMut<GraphId, DropResource>,
}
//@end
impl ExternalConnections {
    spec fn connectable(self) -> Set<GraphId> { self.connect@.dom() }
    spec fn conn(self) -> Set<GraphId> { self.connected_resource@.dom() }
//@item impl ExternalConnections :: fn default
    pub fn default() -> «(r:» Self «)
        ensures r.connectable() == Set::<GraphId>::empty(), r.conn() == Set::<GraphId>::empty(),»
    {
        ⟦ExternalConnections⇒let r = ExternalConnections⟧ {
            connect: BTreeMapMut::new(),
            connected_resource: BTreeMapMut::new(),
        }«;
        assert(r.connectable() =~= Set::<GraphId>::empty());
        assert(r.conn() =~= Set::<GraphId>::empty());
        r»
    }
//@end
//@item impl ExternalConnections :: fn register_connect
    pub fn register_connect(⟦&self⇒&mut self⟧, id: GraphId, connect: ConnectType)
        «ensures final(self).connectable() =~= old(self).connectable().insert(id), final(self).conn() == old(self).conn(),»
    {
        self.connect.insert(id, connect);
    }
//@end
//@item impl ExternalConnections :: fn unregister_connect
    pub fn unregister_connect(⟦&self⇒&mut self⟧, id: GraphId)
        «ensures final(self).connectable() =~= old(self).connectable().remove(id), final(self).conn() == old(self).conn(),»
    {
        self.connect.remove(&id);
    }
//@end
//@item impl ExternalConnections :: fn set_connection
    pub fn set_connection(⟦&self⇒&mut self⟧, id: GraphId, should_connect: bool)
        «ensures
            final(self).connectable() == old(self).connectable(),
            final(self).conn() =~= if should_connect {
                if old(self).connectable().contains(id) { old(self).conn().insert(id) } else { old(self).conn() }
            } else { old(self).conn().remove(id) },»
    {
        if should_connect {
            if self.connected_resource.contains_key(&id) {
                return;
            }

            //must be connected
            if let Some(connect_func) = self.connect.get_and_clone(&id) {
                self.connected_resource.insert(id, ⟦connect_func()⇒connect_func.call(Ghost(id), Ghost(self.conn()))⟧);
            }
        } else {
            self.connected_resource.remove(&id);
        }
    }
//@end
}

// ---- the registered refresh functions -------------------------------------------------------------------------------
#[verifier::external_body]
pub struct Token { _p: () }
impl Clone for Token {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@file crates/vertigo/src/computed/dependencies/refresh.rs
//@item struct Refresh
pub struct Refresh {
    refresh: BTreeMapMut<GraphId, ⟦Rc<dyn Fn(RefreshKind) + 'static>⇒Token⟧>,
}
//@end
impl Refresh {
    spec fn live(self) -> Map<GraphId, Token> { self.refresh@ }
//@item impl Refresh :: fn new
    pub fn new() -> «(r:» Refresh «)
        ensures r.live() == Map::<GraphId, Token>::empty(),»
    {
        Refresh {
            refresh: BTreeMapMut::new(),
        }
    }
//@end
//@item impl Refresh :: fn refresh_token_add
    pub fn refresh_token_add(⟦&self⇒&mut self⟧, id: GraphId, graph_value_refresh: ⟦impl Fn(RefreshKind) + 'static⇒Token⟧)
        «ensures final(self).live() == old(self).live().insert(id, graph_value_refresh),»
    {
        let prev_refresh = self.refresh.insert(id, ⟦Rc::new(graph_value_refresh)⇒graph_value_refresh⟧);

        if prev_refresh.is_none() {
            //Correct transition
            return;
        }
    }
//@end
//@item impl Refresh :: fn refresh_token_drop
    pub fn refresh_token_drop(⟦&self⇒&mut self⟧, id: GraphId)
        «ensures final(self).live() == old(self).live().remove(id),»
    {
        self.refresh.remove(&id);
    }
//@end
//@item impl Refresh :: fn get
    fn get(&self, id: &GraphId) -> «(r:» Option<⟦Rc<dyn Fn(RefreshKind)>⇒Token⟧> «)
        ensures r is Some <==> self.live().contains_key(*id), r is Some ==> r->0 == self.live()[*id],»
    {
        if let Some(item) = self.refresh.get_and_clone(id) {
            return Some(item);
        }

        None
    }
//@end
}
} // verus!
fn main() {}
