#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
//@include std_extra.inc

verus! {

//@include struct_mut.inc

//@include dom_id.inc
//@include dom_commands.inc

// ---- the driver of the page: which event counts which way -------------------------------------------------------------------
// a request of the initial rendering starts, or has ended
pub enum Event { Start, Stop }
pub struct DropResource { pub on: Ghost<Event>, pub counts_up: Ghost<bool> }
pub struct Emitter { pub event: Ghost<Event> }
spec fn can_count(up: bool, c: Commands) -> bool {
    c.state@ != (if up { StateInitiation::Waiting { counter: u32::MAX } } else { StateInitiation::Waiting { counter: 0 } })
}
spec fn counted(up: bool, a: Commands, b: Commands) -> bool {
    if up {
        b.state@ == after_up(a.state@) && b.unsent(a)
    } else {
        b.state@ == after_down(a.state@) && (if settles(a.state@) { b.flushed(a) } else { b.unsent(a) })
    }
}
impl Emitter {
    // the listener is run once for every event until the handle is dropped (C24); the commands are those of the driver
    fn add<F: Fn((), &mut Commands)>(&self, f: F, up: Ghost<bool>) -> (r: DropResource)
        requires
            forall|c: &mut Commands| can_count(up@, *c) ==> #[trigger] call_requires(f, ((), c)),
            forall|c: &mut Commands| #[trigger] call_ensures(f, ((), c), ()) ==> counted(up@, *c, *final(c)),
        ensures r.on == self.event, r.counts_up == up,
    { DropResource { on: self.event, counts_up: up } }
}
pub struct Api { pub import: ApiImport, pub on_fetch_start: Emitter, pub on_fetch_stop: Emitter }
#[verifier::external_body]
pub struct DomSuspense(());
impl DomSuspense { #[verifier::external_body] fn new() -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Parents(());
impl Parents { #[verifier::external_body] fn new() -> Self { unimplemented!() } }

//@item struct DriverDom
pub struct DriverDom {
    commands: ⟦&'static Commands⇒Commands⟧,
    _sub1: DropResource,
    _sub2: DropResource,
    node_parent_callback: ⟦Rc<HashMapMut<DomId, Callback>>⇒Parents⟧,
    pub dom_suspense: ⟦&'static DomSuspense⇒DomSuspense⟧,
}
//@end
impl DriverDom {
//@item impl DriverDom :: fn new
    pub fn new(api: ⟦&ApiImport⇒Api⟧) -> «(r:» ⟦&'static DriverDom⇒DriverDom⟧«)
        requires api.on_fetch_start.event@ == Event::Start, api.on_fetch_stop.event@ == Event::Stop,
        ensures
            r.commands.state@ == (StateInitiation::Waiting { counter: 0 }), r.commands.commands@.len() == 0, r.commands.api.sent == api.import.sent,
            // both listeners are kept for as long as the driver is
            r._sub1.on@ == Event::Start && r._sub1.counts_up@ && r._sub2.on@ == Event::Stop && !r._sub2.counts_up@
                || r._sub2.on@ == Event::Start && r._sub2.counts_up@ && r._sub1.on@ == Event::Stop && !r._sub1.counts_up@,»
    {
        let commands = Commands::new(api«.import»);

        let sub1 = api.on_fetch_start.add({
            move |⟦_⇒e: (), commands: &mut Commands⟧| «requires can_count(true, *old(commands)), ensures counted(true, *old(commands), *final(commands)),» {
                commands.fetch_up();
            }
        }«, Ghost(true)»);

        let sub2 = api.on_fetch_stop.add({
            move |⟦_⇒e: (), commands: &mut Commands⟧| «requires can_count(false, *old(commands)), ensures counted(false, *old(commands), *final(commands)),» {
                commands.fetch_down();
            }
        }«, Ghost(false)»);

        ⟦Box::leak(Box::new(⇒⟧DriverDom {
            commands,
            _sub1: sub1,
            _sub2: sub2,
            node_parent_callback: ⟦Rc::new(HashMapMut::new())⇒Parents::new()⟧,
            dom_suspense: DomSuspense::new(),
        }⟦))⇒⟧
    }
//@end
}

} // verus!
fn main() {}
