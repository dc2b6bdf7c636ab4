#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;

verus! {

// ---- trusted: the location of the host (unit client_calls), values and what is connected to them (unit reactive) -------------------
// What the two locations are, what was asked for, in order, and how often each value was given something (unit reactive: it is told to
// those who observe it only if it is another).
pub struct World { pub ghost at: (Seq<char>, Seq<char>), pub ghost asked: Seq<(bool, Seq<char>)>, pub ghost given: Seq<(int, Seq<char>)> }
pub open spec fn at(w: World, history: bool) -> Seq<char> { if history { w.at.1 } else { w.at.0 } }
pub open spec fn ask(w: World, history: bool, to: Seq<char>) -> World { World { asked: w.asked.push((history, to)), ..w } }
// the value is made of the new location, exactly
pub open spec fn told(w: World, of: int, url: Seq<char>) -> World { World { given: w.given.push((of, url)), ..w } }
// T: Clone + ToString + From<String> + PartialEq
pub trait Path: Sized {
    spec fn of(s: Seq<char>) -> Self;
    spec fn shown(self) -> Seq<char>;
    fn from(s: String) -> (r: Self) ensures r == Self::of(s@);
    fn to_string(&self) -> (r: String) ensures r@ == self.shown();
}
#[verifier::external_body]
pub struct DropResource(());
impl DropResource {
    // to which of the two locations, for which value; letting go of it ends just that (unit client_calls)
    pub uninterp spec fn watches(self) -> (bool, int);
}
pub struct Api(());
impl Api {
    #[verifier::external_body]
    fn get_hash_location(&self, w: &World) -> (r: String) ensures r@ == w.at.0 { unimplemented!() }
    #[verifier::external_body]
    fn get_history_location(&self, w: &World) -> (r: String) ensures r@ == w.at.1 { unimplemented!() }
    #[verifier::external_body]
    fn push_hash_location(&self, s: &str, w: &mut World) ensures *final(w) == ask(*old(w), false, s@) { unimplemented!() }
    #[verifier::external_body]
    fn push_history_location(&self, s: &str, w: &mut World) ensures *final(w) == ask(*old(w), true, s@) { unimplemented!() }
    #[verifier::external_body]
    fn on_hash_change<F: Fn(String, &mut World)>(&self, callback: F, of: Ghost<int>) -> (r: DropResource)
        requires
            forall|s: String, w: &mut World| #[trigger] call_requires(callback, (s, w)),
            forall|s: String, w: &mut World| #[trigger] call_ensures(callback, (s, w), ()) ==> *final(w) == told(*w, of@, s@),
        ensures r.watches() == (false, of@),
    { unimplemented!() }
    #[verifier::external_body]
    fn on_history_change<F: Fn(String, &mut World)>(&self, callback: F, of: Ghost<int>) -> (r: DropResource)
        requires
            forall|s: String, w: &mut World| #[trigger] call_requires(callback, (s, w)),
            forall|s: String, w: &mut World| #[trigger] call_ensures(callback, (s, w), ()) ==> *final(w) == told(*w, of@, s@),
        ensures r.watches() == (true, of@),
    { unimplemented!() }
}
pub struct DriverInner { pub api: Api }
pub struct Driver { pub inner: DriverInner }
#[verifier::external_body]
fn get_driver() -> Driver { unimplemented!() }
#[verifier::external_body]
fn vx_string(s: String) -> (r: String) ensures r == s { s }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Value<T>(T);
impl<T: Path> Value<T> {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.of() == self.of() { unimplemented!() }
    #[verifier::external_body]
    fn set_value_and_compare(&self, x: T, url: Ghost<Seq<char>>, w: &mut World)
        requires x == T::of(url@),
        ensures *final(w) == told(*old(w), self.of(), url@),
    { unimplemented!() }
    // while somebody observes the value there is what `create` made of it (unit reactive)
    #[verifier::external_body]
    fn with_connect<F: Fn(&Value<T>) -> DropResource>(value: T, create: F, history: Ghost<bool>) -> (r: Computed<T>)
        requires
            forall|v: &Value<T>| #[trigger] call_requires(create, (v,)),
            forall|v: &Value<T>, d: DropResource| #[trigger] call_ensures(create, (v,), d) ==> d.watches() == (history@, v.of()),
        ensures r.first() == value, r.watches() == history@,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Computed<T>(T);
impl<T> Computed<T> {
    pub uninterp spec fn first(self) -> T;
    pub uninterp spec fn watches(self) -> bool;
    pub uninterp spec fn now(self, c: Context) -> T;
    #[verifier::external_body]
    fn get(&self, c: &Context) -> (r: T) ensures r == self.now(*c) { unimplemented!() }
    #[verifier::external_body]
    fn to_computed(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Context(());
#[verifier::external_body]
fn vx_transaction(w: &World) -> Context { unimplemented!() }

//@file crates/vertigo/src/router.rs
//@item struct Router
«#[verifier::reject_recursive_types(T)] pub» struct Router<T⟦: Clone + ToString + From<String> + PartialEq + 'static⇒⟧> {
    use_history_api: bool,
    «pub» route: Computed<T>,
}
//@end
impl<T: Path> Router<T> {
    // the router follows the location it is made for, from what this is now on
    pub closed spec fn follows(self, history: bool, w: World) -> bool {
        self.use_history_api == history && self.route.watches() == history && self.route.first() == T::of(at(w, history))
    }
    pub closed spec fn history(self) -> bool { self.use_history_api }
//@item impl Router :: fn new_hash_router
    pub fn new_hash_router(«w: &World») -> ⟦Router<T>⇒(r: Router<T>) ensures r.follows(false, *w)⟧ {
        Self::new(false«, w»)
    }
//@end
//@item impl Router :: fn new_history_router
    pub fn new_history_router(«w: &World») -> ⟦Router<T>⇒(r: Router<T>) ensures r.follows(true, *w)⟧ {
        Self::new(true«, w»)
    }
//@end
//@item impl Router :: fn new
    fn new(use_history_api: bool«, w: &World») -> ⟦Self⇒(r: Self) ensures r.follows(use_history_api, *w)⟧ {
        let driver = get_driver();

        let init_value = match use_history_api {
            false => T::from(driver.inner.api.get_hash_location(«w»)),
            true => T::from(driver.inner.api.get_history_location(«w»)),
        };

        let route = Value::with_connect(init_value, move |value«: &Value<T>»| «-> (d: DropResource) ensures d.watches() == (use_history_api, value.of())» {
            let value = value.clone();
            «let of = Ghost(value.of());»
            let callback = move |url: String«, world: &mut World»| «ensures *final(world) == told(*old(world), of@, url@)» {
                «let ghost to = url@;»
                value.set_value_and_compare(T::from(url)«, Ghost(to), world»);
            };

            match use_history_api {
                false => driver.inner.api.on_hash_change(callback«, of»),
                true => driver.inner.api.on_history_change(callback«, of»),
            }
        }«, Ghost(use_history_api)»);

        Self {
            use_history_api,
            route,
        }
    }
//@end
//@item impl Router :: fn set
    pub fn set(&self, route: T«, w: &mut World») «ensures *final(w) == ask(*old(w), self.history(), route.shown())» {
        let driver = get_driver();
        match self.use_history_api {
            false => driver.inner.api.push_hash_location(⟦&route.to_string()⇒route.to_string().as_str(), w⟧),
            true => driver.inner.api.push_history_location(⟦&route.to_string()⇒route.to_string().as_str(), w⟧),
        };
    }
//@end
//@item impl Router :: fn change
    fn change⟦(&self, change_fn: impl FnOnce(&mut T))⇒<F: FnOnce(&mut T)>(&self, change_fn: F, w: &mut World)
        requires forall|x: &mut T| #[trigger] call_requires(change_fn, (x,)),
        ensures exists|c: Context, x: T| #[trigger] changed(self.route.now(c), x, change_fn) && *final(w) == ask(*old(w), self.history(), x.shown()),⟧
    {
        ⟦get_driver().inner.dependencies.transaction(|ctx| {⇒{ let context = vx_transaction(w); let ctx = &context;⟧
            let mut value = self.get(ctx);
            «let ghost before = value;»
            change_fn(&mut value);
            «assert(changed(before, value, change_fn));»
            self.set(value«, w»);
        ⟦});⇒}⟧
    }
//@end
//@item impl Reactive for Router :: fn get
    fn get(&self, context: &⟦crate::Context⇒Context⟧) -> ⟦T⇒(r: T) ensures r == self.route.now(*context)⟧ {
        self.route.get(context)
    }
//@end
//@item impl ToComputed for Router :: fn to_computed
    fn to_computed(&self) -> ⟦Computed<T>⇒(r: Computed<T>) ensures r == self.route⟧ {
        self.route.to_computed()
    }
//@end
//@item impl Default for Router :: fn default
    fn default(«w: &World») -> ⟦Self⇒(r: Self) ensures r.follows(true, *w)⟧ {
        Router::new(true«, w»)
    }
//@end
}
// what the function of the program makes of the present value
#[verifier::prophetic]
pub open spec fn changed<T, F: FnOnce(&mut T)>(a: T, b: T, f: F) -> bool {
    exists|x: &mut T| *x == a && *final(x) == b && #[trigger] call_ensures(f, (x,), ())
}
} // verus!
fn main() {}
