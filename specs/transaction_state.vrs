#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::btree::*;
use std::collections::{BTreeMap, BTreeSet};

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, gid_axiom::axiom_graph_id_key};

//@include graph_types.inc
//@include ts_spec.inc
//@include struct_mut.inc

// panic!: control does not come back
#[verifier::external_body]
fn vx_panic<T>() -> (r: T)
    ensures false,
{ panic!() }
fn vx_error() {}
#[verifier::external_body]
fn vx_extend_set(a: &mut BTreeSet<GraphId>, b: BTreeSet<GraphId>)
    ensures final(a)@ == old(a)@.union(b@),
{ a.extend(b) }

//@file crates/vertigo/src/computed/dependencies/transaction_state.rs
//@item enum State
enum State {
    Idle,
    Modification {
        // Modifying the first layer
        level: u16, // current transaction level
        client_ids: BTreeSet<GraphId>,
    },
    Refreshing,
}
//@end
impl State {
    spec fn ts(self) -> TS {
        match self {
            State::Idle => TS::Idle,
            State::Modification { level, client_ids } => TS::Modification { level: level as int, clients: client_ids@ },
            State::Refreshing => TS::Refreshing,
        }
    }
}
impl Default for State {
//@item impl Default for State :: fn default
    fn default() -> Self {
        Self::Idle
    }
//@end
}
//@item struct TransactionState
pub struct TransactionState {
    state: ValueMut<State>,
}
//@end
impl TransactionState {
    spec fn ts(self) -> TS { self.state@.ts() }
    spec fn wf(self) -> bool { self.ts() is Modification ==> self.ts()->level >= 1 }

//@item impl TransactionState :: fn new
    pub fn new() -> «(r:» TransactionState «)
        ensures r.ts() is Idle, r.wf(),»
    {
        TransactionState {
            state: ValueMut::new(State::Idle),
        }
    }
//@end
//@item impl TransactionState :: fn up
    pub fn up(⟦&self⇒&mut self⟧)
        «requires old(self).wf(), ts_level(old(self).ts()) < 65535,
        ensures final(self).ts() == ts_up(old(self).ts()), final(self).wf(), !(old(self).ts() is Refreshing),»
    {
        let TransactionState { state } = self;

        state.move_to_void(move |state «: State»| «-> (r: State) requires ts_level(state.ts()) < 65535, ensures r.ts() == ts_up(state.ts()), !(state.ts() is Refreshing),» {
            match state {
                State::Idle => {
                    State::Modification {
                        level: 1,
                        client_ids: BTreeSet::new(),
                    }
                }
                State::Modification { ⟦mut level⇒level⟧, client_ids } => {
                    «let mut level = level;»
                    level += 1;
                    State::Modification { level, client_ids }
                }
                State::Refreshing => {
                    ⟦panic!("You cannot change the source value while the dependency graph is being refreshed");⇒vx_panic()⟧
                }
            }
        })
    }
//@end
//@item impl TransactionState :: fn down
    pub fn down(⟦&self⇒&mut self⟧) -> «(r:» Option<BTreeSet<GraphId>> «)
        requires old(self).wf(),
        ensures
            final(self).ts() == ts_down(old(self).ts()), final(self).wf(),
            r is Some <==> ts_down_result(old(self).ts()) is Some,
            r is Some ==> r->0@ == ts_down_result(old(self).ts())->0,»
    {
        self.state.move_to(|state «: State»| -> «(r:» (State, Option<BTreeSet<GraphId>>) «)
            requires state.ts() is Modification ==> state.ts()->level >= 1,
            ensures r.0.ts() == ts_down(state.ts()),
                r.1 is Some <==> ts_down_result(state.ts()) is Some,
                r.1 is Some ==> r.1->0@ == ts_down_result(state.ts())->0,» {
            match state {
                State::Idle => {

                    (State::Idle, None)
                }
                State::Modification { ⟦mut level⇒level⟧, client_ids } => {
                    «let mut level = level;»
                    level -= 1;

                    if level == 0 {
                        return (State::Refreshing, Some(client_ids));
                    }

                    (State::Modification { level, client_ids }, None)
                }
                State::Refreshing => {

                    (State::Refreshing, None)
                }
            }
        })
    }
//@end
//@item impl TransactionState :: fn move_to_idle
    pub fn move_to_idle(⟦&self⇒&mut self⟧)
        «requires old(self).wf(),
        ensures final(self).ts() == ts_to_idle(old(self).ts()), final(self).wf(),»
    {
        let TransactionState { state } = self;

        state.move_to_void(move |state «: State»| «-> (r: State) ensures r.ts() == ts_to_idle(state.ts()),» {
            match state {
                State::Idle => {
                    State::Idle
                }
                State::Modification { level, client_ids } => {
                    State::Modification { level, client_ids }
                }
                State::Refreshing => {
                    State::Idle
                }
            }
        });
    }
//@end
//@item impl TransactionState :: fn add_clients_to_refresh
    pub fn add_clients_to_refresh(⟦&self⇒&mut self⟧, client: BTreeSet<GraphId>)
        «requires old(self).wf(),
        ensures final(self).ts() == ts_add(old(self).ts(), client@), final(self).wf(),»
    {
        self.state.change(move |⟦mut state⇒state: &mut State⟧| «ensures final(state).ts() == ts_add(old(state).ts(), client@), {» match ⟦&mut state⇒state⟧ {
            State::Modification { client_ids, .. } => {
                ⟦client_ids.extend(client)⇒vx_extend_set(client_ids, client)⟧;
            }
            _ => {
            }
        }«}»)
    }
//@end
}
} // verus!
fn main() {}
