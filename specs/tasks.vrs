#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;

verus! {

//@include struct_mut.inc

// ---- trusted: cells, wakers, functions that can be polled, timers (unit client_calls) ------------------------------------------
pub struct Cell<T> { pub v: T }
impl<T> Cell<T> {
    fn new(v: T) -> (r: Self) ensures r.v == v { Cell { v } }
    fn set(&mut self, v: T) ensures final(self).v == v { self.v = v; }
}
impl<T> Cell<Option<T>> {
    #[verifier::external_body]
    fn take(&mut self) -> (r: Option<T>) ensures r == old(self).v, final(self).v == None::<T> { unimplemented!() }
}
// What has been woken; what the timers will do, each once, after how long; which tasks were polled; which are over.
pub enum Due { Run(int), Publish(int) }
pub struct World { pub ghost woken: Seq<int>, pub ghost due: Seq<(u32, Due)>, pub ghost polled: Seq<int>, pub ghost over: Set<int>, pub ghost css: Seq<(Seq<char>, Seq<char>)>, pub ghost flushed: int }
#[verifier::external_body]
pub struct Waker(());
impl Waker {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.of() == self.of() { unimplemented!() }
    #[verifier::external_body]
    fn wake(self, w: &mut World)
        ensures *final(w) == (World { woken: old(w).woken.push(self.of()), ..*old(w) }),
    { unimplemented!() }
}
pub struct Context { pub waker: Waker }
impl Context {
    fn waker(&self) -> (r: &Waker) ensures *r == self.waker { &self.waker }
}
pub enum Poll<T> { Ready(T), Pending }
impl<T> Poll<T> {
    fn is_ready(&self) -> (r: bool) ensures r == (*self is Ready) { match self { Poll::Ready(_) => true, Poll::Pending => false } }
}
// the function of a program, which is not polled any more once it is over
#[verifier::external_body]
pub struct Running(());
impl Running {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn poll(&mut self, waker: &Waker, w: &mut World) -> (r: Poll<()>)
        requires !old(w).over.contains(old(self).of()), waker.of() == old(self).of(),
        ensures
            final(self).of() == old(self).of(), final(w).polled == old(w).polled.push(old(self).of()), old(w).woken.is_prefix_of(final(w).woken), old(w).due.is_prefix_of(final(w).due),
            final(w).over == (if r is Ready { old(w).over.insert(old(self).of()) } else { old(w).over }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ApiImport(());
impl ApiImport {
    // the function is run once, after this time (lemma_detached)
    #[verifier::external_body]
    fn set_timeout_and_detach_run<F: Fn(&mut ValueMut<Option<Inner>>, &mut World)>(&self, duration: u32, f: F, t: Ghost<int>, w: &mut World)
        requires
            forall|x: &mut ValueMut<Option<Inner>>, s: &mut World| ready(*x, *s, t@) ==> #[trigger] call_requires(f, (x, s)),
            forall|x: &mut ValueMut<Option<Inner>>, s: &mut World| ready(*x, *s, t@) && #[trigger] call_ensures(f, (x, s), ()) ==> ran(*x, *final(x), *s, *final(s), t@),
        ensures *final(w) == (World { due: old(w).due.push((duration, Due::Run(t@))), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn set_timeout_and_detach_publish<F: Fn(&mut CallbackFutureInner<()>, &mut World)>(&self, duration: u32, f: F, b: Ghost<int>, w: &mut World)
        requires
            forall|x: &mut CallbackFutureInner<()>, s: &mut World| #[trigger] call_requires(f, (x, s)),
            forall|x: &mut CallbackFutureInner<()>, s: &mut World| #[trigger] call_ensures(f, (x, s), ()) ==> published(*x, *final(x), *s, *final(s), ()),
        ensures *final(w) == (World { due: old(w).due.push((duration, Due::Publish(b@))), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> ApiImport { unimplemented!() }
}

// ---- trusted: Rc, which counts who has it; a raw pointer keeps its share; what ends at the end of a block gives its share back --
pub struct Held { pub ghost n: int }
pub struct Rc<T> { pub v: T }
impl<T> Rc<T> {
    #[verifier::external_body]
    fn new(v: T, h: &mut Held) -> (r: Rc<T>) ensures r.v == v, final(h).n == 1 { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self, h: &mut Held) -> (r: Rc<T>) ensures r == *self, final(h).n == old(h).n + 1 { unimplemented!() }
}
// *const (): what it was made from, and whether whoever has it also has a share
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Raw(());
impl Raw {
    pub uninterp spec fn task(self) -> Task;
}
impl Rc<Task> {
    #[verifier::external_body]
    fn from_raw(p: Raw, h: &mut Held) -> (r: Rc<Task>) requires old(h).n >= 1 ensures r.v == p.task(), *final(h) == *old(h) { unimplemented!() }
    #[verifier::external_body]
    fn into_raw(this: Rc<Task>) -> (r: Raw) ensures r.task() == this.v { unimplemented!() }
}
pub struct ManuallyDrop<T> { pub v: T }
impl<T> ManuallyDrop<T> {
    fn new(v: T) -> (r: Self) ensures r.v == v { ManuallyDrop { v } }
}
// std::ops::Deref, as far as it is used here, and Drop at the end of a block
pub trait Ends: Sized {
    spec fn gives(self) -> int;
    spec fn task(self) -> Task;
    fn get(&self) -> (r: &Rc<Task>) ensures r.v == self.task();
    fn ends(self, h: &mut Held) requires old(h).n >= self.gives() ensures final(h).n == old(h).n - self.gives();
}
impl Ends for Rc<Task> {
    open spec fn gives(self) -> int { 1 }
    open spec fn task(self) -> Task { self.v }
    fn get(&self) -> &Rc<Task> { self }
    #[verifier::external_body]
    fn ends(self, h: &mut Held) { unimplemented!() }
}
impl Ends for ManuallyDrop<Rc<Task>> {
    open spec fn gives(self) -> int { 0 }
    open spec fn task(self) -> Task { self.v.v }
    fn get(&self) -> &Rc<Task> { &self.v }
    #[verifier::external_body]
    fn ends(self, h: &mut Held) { unimplemented!() }
}
fn drop<T: Ends>(x: T, h: &mut Held)
    requires old(h).n >= x.gives()
    ensures final(h).n == old(h).n - x.gives()
{ x.ends(h) }
// What std::task asks of the four functions: a waker has a share of its own, waking gives it back (or not), and the task is run later.
#[verifier::external_body]
pub struct RawWaker(());
impl RawWaker {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn new(p: Raw, table: &RawWakerVTable) -> (r: RawWaker) ensures r.of() == p.task().inner@ { unimplemented!() }
}
#[verifier::external_body]
pub struct RawWakerVTable(());
impl RawWakerVTable {
    #[verifier::external_body]
    fn new<C: Fn(Raw, &mut Held) -> RawWaker, A: Fn(Raw, &mut Held, &mut World), B: Fn(Raw, &mut Held, &mut World), D: Fn(Raw, &mut Held)>(clone: C, wake: A, wake_by_ref: B, drop: D) -> (r: RawWakerVTable)
        requires
            forall|p: Raw, h: &mut Held| h.n >= 1 ==> #[trigger] call_requires(clone, (p, h)),
            forall|p: Raw, h: &mut Held, k: RawWaker| #[trigger] call_ensures(clone, (p, h), k) ==> k.of() == p.task().inner@ && final(h).n == h.n + 1,
            forall|p: Raw, h: &mut Held, w: &mut World| h.n >= 1 ==> #[trigger] call_requires(wake, (p, h, w)),
            // (the share of the waker, and the share of the timer)
            forall|p: Raw, h: &mut Held, w: &mut World| #[trigger] call_ensures(wake, (p, h, w), ()) ==> final(h).n == h.n - 1 + 1 && *final(w) == woken(*w, p.task().inner@),
            forall|p: Raw, h: &mut Held, w: &mut World| h.n >= 1 ==> #[trigger] call_requires(wake_by_ref, (p, h, w)),
            forall|p: Raw, h: &mut Held, w: &mut World| #[trigger] call_ensures(wake_by_ref, (p, h, w), ()) ==> final(h).n == h.n + 1 && *final(w) == woken(*w, p.task().inner@),
            forall|p: Raw, h: &mut Held| h.n >= 1 ==> #[trigger] call_requires(drop, (p, h)),
            forall|p: Raw, h: &mut Held| #[trigger] call_ensures(drop, (p, h), ()) ==> final(h).n == h.n - 1,
    { unimplemented!() }
}
// the contract of Task::into_raw_waker, which is proved below: the table refers to its own functions, which verus refuses as a cycle
#[verifier::external_body]
fn vx_into_raw_waker(this: Rc<Task>, held: &mut Held) -> (r: RawWaker)
    ensures r.of() == this.v.inner@, *final(held) == *old(held)
{ unimplemented!() }
impl Waker {
    #[verifier::external_body]
    fn from_raw(k: RawWaker) -> (r: Waker) ensures r.of() == k.of() { unimplemented!() }
}

//@file crates/vertigo/src/future_box.rs
//@item struct CallbackFutureInner
«pub» struct CallbackFutureInner<T> {
    «pub» waker: Cell<Option<Waker>>,
    «pub» result: Cell<Option<T>>,
}
//@end
// the value is there for the next poll, and the one who polled last is woken
pub open spec fn published<T>(a: CallbackFutureInner<T>, b: CallbackFutureInner<T>, w: World, x: World, value: T) -> bool {
    &&& b.result.v == Some(value) && b.waker.v is None
    &&& x == match a.waker.v { Some(k) => World { woken: w.woken.push(k.of()), ..w }, None => w }
}
// there is a value: it is handed over, once.  There is none: whoever asked is the one to wake
pub open spec fn polled<T>(a: CallbackFutureInner<T>, b: CallbackFutureInner<T>, by: int, r: Poll<T>) -> bool {
    match a.result.v {
        Some(v) => r == Poll::Ready(v) && b.result.v is None && b.waker == a.waker,
        None => r is Pending && b.result.v is None && b.waker.v is Some && b.waker.v->0.of() == by,
    }
}
impl<T> CallbackFutureInner<T> {
//@item impl CallbackFutureInner :: fn new
    fn new() -> ⟦Rc<CallbackFutureInner<T>>⇒(r: CallbackFutureInner<T>)⟧
«        ensures r.result.v is None, r.waker.v is None,»
    {
        ⟦Rc::new(CallbackFutureInner {⇒{ let r = CallbackFutureInner {⟧
            waker: Cell::new(None),
            result: Cell::new(None),
        ⟦})⇒}; r }⟧
    }
//@end
}
// both ends share one such place (Rc): it is given to the functions here, `at` says which it is
pub struct Shared { pub at: Ghost<int> }
impl Shared {
    fn clone(&self) -> (r: Shared) ensures r.at == self.at { Shared { at: self.at } }
}
//@item struct FutureBoxSend
pub struct FutureBoxSend⟦<T>⇒⟧ {
    inner: ⟦Rc<CallbackFutureInner<T>>⇒Shared⟧,
}
//@end
//@item struct FutureBox
pub struct FutureBox⟦<T>⇒⟧ {
    inner: ⟦Rc<CallbackFutureInner<T>>⇒Shared⟧,
}
//@end
impl FutureBoxSend {
//@item impl FutureBoxSend :: fn new
    fn new(inner: ⟦Rc<CallbackFutureInner<T>>⇒Shared⟧) -> ⟦FutureBoxSend<T>⇒(r: FutureBoxSend) ensures r.inner == inner⟧ {
        FutureBoxSend { inner }
    }
//@end
//@item impl FutureBoxSend :: fn publish
    pub fn publish«<T>»(&self, result: T«, inner: &mut CallbackFutureInner<T>, world: &mut World»)
«        ensures published(*old(inner), *final(inner), *old(world), *final(world), result),»
    {
        ⟦self.inner⇒inner⟧.result.set(Some(result));
        if let Some(w) = ⟦self.inner⇒inner⟧.waker.take() {
            w.wake(«world»)
        }
    }
//@end
}
impl FutureBox {
//@item impl FutureBox :: fn new
    pub fn new«<T>(at: Ghost<int>)»⟦()⇒⟧ -> (⟦FutureBoxSend<T>, FutureBox<T>⇒r: (FutureBoxSend, FutureBox, CallbackFutureInner<T>)⟧)
«        ensures r.0.inner == r.1.inner, r.0.inner.at == at, r.2.result.v is None, r.2.waker.v is None,»
    {
        let inner = ⟦CallbackFutureInner::new()⇒Shared { at }⟧;
        let sender = FutureBoxSend::new(inner.clone());
        let future = FutureBox { inner };
        (sender, future«, CallbackFutureInner::new()»)
    }
//@end
//@item impl Future for FutureBox :: fn poll
    fn poll«<T>»(self: ⟦Pin<&mut Self>⇒&mut Self⟧, cx: &mut Context⟦<'_>⇒⟧«, inner: &mut CallbackFutureInner<T>») -> ⟦Poll<Self::Output>⇒(r: Poll<T>)
        ensures polled(*old(inner), *final(inner), old(cx).waker.of(), r), *final(cx) == *old(cx)⟧
    {
        match ⟦self.inner⇒inner⟧.result.take() {
            Some(x) => Poll::Ready(x),
            None => {
                ⟦self.inner⇒inner⟧.waker.set(Some(cx.waker().clone()));
                Poll::Pending
            }
        }
    }
//@end
}
// Nobody who waits is forgotten: the one who polled last is woken by what is published, and then finds it.
proof fn lemma_woken<T>(a: CallbackFutureInner<T>, b: CallbackFutureInner<T>, c: CallbackFutureInner<T>, d: CallbackFutureInner<T>, by: int, again: int, r: Poll<T>, q: Poll<T>, v: World, w: World, value: T)
    requires polled(a, b, by, r), r is Pending, published(b, c, v, w, value), polled(c, d, again, q),
    ensures w.woken == v.woken.push(by), q == Poll::Ready(value), d.result.v is None,
{
}
// what was published before is found at the first poll, and only there
proof fn lemma_found<T>(a: CallbackFutureInner<T>, b: CallbackFutureInner<T>, c: CallbackFutureInner<T>, d: CallbackFutureInner<T>, by: int, again: int, r: Poll<T>, q: Poll<T>, v: World, w: World, value: T)
    requires published(a, b, v, w, value), polled(b, c, by, r), polled(c, d, again, q),
    ensures r == Poll::Ready(value), q is Pending,
{
}

//@file crates/vertigo/src/driver_module/utils/futures_spawn.rs
//@item struct Inner
struct Inner {
    future: ⟦Pin<Box<dyn Future<Output = ()>>>⇒Running⟧,
    waker: Waker,
}
//@end
//@item struct Task
«pub» struct Task {
    // it is given to the functions here; this is which task it is
    inner: ⟦ValueMut<Option<Inner>>⇒Ghost<int>⟧,
    api: ApiImport,
}
//@end
// the place is this task's; while the task is not over it keeps its function, and its waker wakes it
pub closed spec fn ready(t: ValueMut<Option<Inner>>, w: World, of: int) -> bool {
    t@ matches Some(i) ==> i.future.of() == of && i.waker.of() == of && !w.over.contains(of)
}
// It is polled once, and given up if it is over then.  Once it is over, nothing happens.
pub closed spec fn ran(a: ValueMut<Option<Inner>>, b: ValueMut<Option<Inner>>, w: World, x: World, of: int) -> bool {
    &&& ready(b, x, of)
    &&& match a@ {
        None => x == w && b@ is None,
        Some(_) => x.polled == w.polled.push(of) && (b@ is None <==> x.over.contains(of)) && x.over.subset_of(w.over.insert(of)),
    }
}
// it is going to be run, once, as soon as there is time
pub open spec fn woken(w: World, of: int) -> World { World { due: w.due.push((0u32, Due::Run(of))), ..w } }
impl Task {
//@item impl Task :: fn spawn
    pub(crate) fn spawn(api: ApiImport, future: ⟦Pin<Box<dyn Future<Output = ()>>>⇒Running⟧«, held: &mut Held, world: &mut World») «-> (r: (Rc<Task>, ValueMut<Option<Inner>>))
        requires !old(world).over.contains(future.of()),
        // it is not polled yet, it will be, once; its waker and the timer keep it
        ensures
            r.0.v.inner@ == future.of(), ready(r.1, *final(world), future.of()), r.1@ is Some,
            *final(world) == woken(*old(world), future.of()), final(held).n == 3,»
    {
        «let of = Ghost(future.of()); let mut place = ValueMut::new(None);
        »let this = Rc::new(Self {
            inner: ⟦ValueMut::new(None)⇒of⟧,
            api,
        }«, held»);

        let waker = ⟦unsafe {⇒⟧ Waker::from_raw(Task::into_raw_waker(Rc::clone(&this«, held»)«, held»)) ⟦}⇒⟧;

        ⟦this.inner⇒place⟧.set(Some(Inner { future, waker }));

        Task::wake_by_ref(&this«, held, world»);«
        (this, place)»
    }
//@end
//@item impl Task :: fn wake_by_ref
    fn wake_by_ref(this: &Rc<Self>«, held: &mut Held, world: &mut World»)
«        ensures *final(world) == woken(*old(world), this.v.inner@), final(held).n == old(held).n + 1,»
    {
        let this_clone = this.clone(«held»);
        «let ghost of = this_clone.v.inner@;»
        ⟦this.api⇒this.v.api⟧.⟦set_timeout_and_detach⇒set_timeout_and_detach_run⟧(0, move |«place: &mut ValueMut<Option<Inner>>, world: &mut World»| «requires ready(*old(place), *old(world), of) ensures ran(*old(place), *final(place), *old(world), *final(world), of)» {
            ⟦this_clone⇒this_clone.v⟧.run(«place, world»);
        }«, Ghost(this_clone.v.inner@), world»);
    }
//@end
//@item impl Task :: fn into_raw_waker
    ⟦unsafe fn into_raw_waker(this: Rc<Self>) -> RawWaker {⇒⟧
        ⟦unsafe⇒⟧ fn raw_clone(ptr: ⟦*const ()⇒Raw, held: &mut Held⟧) -> ⟦RawWaker⇒(r: RawWaker)
            requires old(held).n >= 1
            ensures r.of() == ptr.task().inner@, final(held).n == old(held).n + 1⟧
        {
            let ptr = ManuallyDrop::new(Rc::from_raw(ptr ⟦as *const Task⇒, held⟧));
            «let r = »⟦Task::into_raw_waker⇒vx_into_raw_waker⟧((⟦*ptr⇒ptr.get()⟧).clone(«held»)«, held»)«;
            drop(ptr, held); r»
        }

        ⟦unsafe⇒⟧ fn raw_wake(ptr: ⟦*const ()⇒Raw, held: &mut Held, world: &mut World⟧)
«            requires old(held).n >= 1
            ensures final(held).n == old(held).n, *final(world) == woken(*old(world), ptr.task().inner@)»
        {
            let ptr = Rc::from_raw(ptr ⟦as *const Task⇒, held⟧);
            Task::wake_by_ref(⟦&ptr⇒ptr.get(), held, world⟧);«
            drop(ptr, held)»
        }

        ⟦unsafe⇒⟧ fn raw_wake_by_ref(ptr: ⟦*const ()⇒Raw, held: &mut Held, world: &mut World⟧)
«            requires old(held).n >= 1
            ensures final(held).n == old(held).n + 1, *final(world) == woken(*old(world), ptr.task().inner@)»
        {
            let ptr = ManuallyDrop::new(Rc::from_raw(ptr ⟦as *const Task⇒, held⟧));
            Task::wake_by_ref(⟦&ptr⇒ptr.get(), held, world⟧);«
            drop(ptr, held)»
        }

        ⟦unsafe⇒⟧ fn raw_drop(ptr: ⟦*const ()⇒Raw, held: &mut Held⟧)
«            requires old(held).n >= 1
            ensures final(held).n == old(held).n - 1»
        {
            drop(Rc::from_raw(ptr ⟦as *const Task⇒, held⟧)«, held»);
        }

«    // the share of `this` goes into what is returned
    fn into_raw_waker(this: Rc<Self>, held: &mut Held) -> (r: RawWaker)
        ensures r.of() == this.v.inner@, *final(held) == *old(held)
    {»
        ⟦const VTABLE: RawWakerVTable⇒let VTABLE⟧ =
            RawWakerVTable::new(«Task::»raw_clone, «Task::»raw_wake, «Task::»raw_wake_by_ref, «Task::»raw_drop);

        RawWaker::new(Rc::into_raw(this) ⟦as *const ()⇒⟧, &VTABLE)
    }
//@end
//@item impl Task :: fn run
    fn run(&self«, place: &mut ValueMut<Option<Inner>>, world: &mut World»)
«        requires ready(*old(place), *old(world), self.inner@),
        ensures ran(*old(place), *final(place), *old(world), *final(world), self.inner@),»
    {
        ⟦self.inner.change(|borrow| {⇒{ let borrow = place.value.get_mut();⟧
            let inner = match borrow.as_mut() {
                Some(inner) => inner,
                None => return,
            };

            let poll = {
                ⟦let mut cx = Context::from_waker(&inner.waker);
                inner.future.as_mut().poll(&mut cx)⇒inner.future.poll(&inner.waker, world)⟧
            };

            if poll.is_ready() {
                *borrow = None;
            }
        ⟦});⇒}⟧
    }
//@end
}
//@item fn spawn_local
pub fn spawn_local⟦<F>⇒⟧(api: ApiImport, future: ⟦F⇒Running, held: &mut Held, world: &mut World⟧)«
        requires !old(world).over.contains(future.of()),
        ensures *final(world) == woken(*old(world), future.of()), final(held).n == 3,»
⟦where
    F: Future<Output = ()> + 'static,⇒⟧
{
    Task::spawn(api, ⟦Box::pin(future)⇒future, held, world⟧);
}
//@end
// ---- trusted: what the driver is put together from, and what is given to its parts -------------------------------------------------
impl ApiImport {
    #[verifier::external_body]
    fn default() -> ApiImport { unimplemented!() }
}
#[verifier::external_body]
pub struct Executor(());
impl Executor {
    #[verifier::external_body]
    fn new<F: Fn(Running, &mut Held, &mut World)>(f: F) -> (r: Executor)
        requires
            forall|x: Running, h: &mut Held, w: &mut World| !w.over.contains(x.of()) ==> #[trigger] call_requires(f, (x, h, w)),
            forall|x: Running, h: &mut Held, w: &mut World| #[trigger] call_ensures(f, (x, h, w), ()) ==> *final(w) == woken(*w, x.of()),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> Executor { unimplemented!() }
    // (what `new` asks of the function)
    #[verifier::external_body]
    fn run(&self, x: Running, h: &mut Held, w: &mut World)
        requires !old(w).over.contains(x.of())
        ensures *final(w) == woken(*old(w), x.of())
    { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct DriverDom(());
impl DriverDom {
    #[verifier::external_body]
    fn new(api: &ApiImport) -> DriverDom { unimplemented!() }
    #[verifier::external_body]
    fn insert_css(&self, selector: &str, value: &str, w: &mut World)
        ensures *final(w) == (World { css: old(w).css.push((selector@, value@)), ..*old(w) })
    { unimplemented!() }
    #[verifier::external_body]
    fn flush_dom_changes(&self, w: &mut World)
        ensures *final(w) == (World { flushed: old(w).flushed + 1, ..*old(w) })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct CssManager(());
impl CssManager {
    // every rule gets to the page, as it is
    #[verifier::external_body]
    fn new<F: Fn(&str, &str, &mut World)>(f: F) -> CssManager
        requires
            forall|s: &str, v: &str, w: &mut World| #[trigger] call_requires(f, (s, v, w)),
            forall|s: &str, v: &str, w: &mut World| #[trigger] call_ensures(f, (s, v, w), ()) ==> *final(w) == (World { css: w.css.push((s@, v@)), ..*w }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct DropResource(());
#[verifier::external_body]
pub struct Hooks(());
impl Hooks {
    // the changes of the page are sent after every transaction
    #[verifier::external_body]
    fn on_after_transaction<F: Fn(&mut World)>(&self, f: F) -> DropResource
        requires
            forall|w: &mut World| #[trigger] call_requires(f, (w,)),
            forall|w: &mut World| #[trigger] call_ensures(f, (w,), ()) ==> *final(w) == (World { flushed: w.flushed + 1, ..*w }),
    { unimplemented!() }
}
pub struct Dependencies { hooks: Hooks }
#[verifier::external_body]
fn vx_dependencies() -> Dependencies { unimplemented!() }

//@file crates/vertigo/src/driver_module/driver.rs
//@item struct DriverInner
«pub» struct DriverInner {
    api: ApiImport,
    dependencies: ⟦&'static Dependencies⇒Dependencies⟧,
    css_manager: CssManager,
    dom: ⟦&'static DriverDom⇒DriverDom⟧,
    spawn_executor: ⟦Rc<Executable>⇒Executor⟧,
    _subscribe: DropResource,
    _plains_handler: ⟦RefCell<Option<Rc<PlainHandler>>>⇒()⟧,
}
//@end
impl DriverInner {
//@item impl DriverInner :: fn new
    fn new() -> ⟦&'static Self⇒Self⟧ {
        let dependencies: ⟦&'static Dependencies = Box::leak(Box::default())⇒Dependencies = vx_dependencies()⟧;

        let api = ApiImport::default();

        let spawn_executor = {
            let api = api.clone();

            ⟦Rc::new⇒Executor::new⟧(move |fut: ⟦Pin<Box<dyn Future<Output = ()> + 'static>>⇒Running, held: &mut Held, world: &mut World⟧| «requires !old(world).over.contains(fut.of()) ensures *final(world) == woken(*old(world), fut.of())» {
                spawn_local(api.clone(), fut«, held, world»);
            })
        };

        let dom = DriverDom::new(&api);
        let css_manager = {
            let driver_dom = dom;
            CssManager::new(move |selector: &str, value: &str«, world: &mut World»| «ensures *final(world) == (World { css: old(world).css.push((selector@, value@)), ..*old(world) })» {
                driver_dom.insert_css(selector, value«, world»);
            })
        };

        let subscribe = dependencies.hooks.on_after_transaction(move |«world: &mut World»| «ensures *final(world) == (World { flushed: old(world).flushed + 1, ..*old(world) })» {
            dom.flush_dom_changes(«world»);
        });

        ⟦Box::leak(Box::new(⇒⟧DriverInner {
            api,
            dependencies,
            css_manager,
            dom,
            spawn_executor,
            _subscribe: subscribe,
            _plains_handler: ⟦RefCell::new(None)⇒()⟧,
        }⟦))⇒⟧
    }
//@end
}
pub struct Driver { inner: DriverInner }
impl Driver {
//@item impl Driver :: fn spawn
    pub fn spawn(&self, future: ⟦impl Future<Output = ()> + 'static⇒Running, held: &mut Held, world: &mut World⟧)«
        requires !old(world).over.contains(future.of()),
        ensures *final(world) == woken(*old(world), future.of()),»
    {
        let future = ⟦Box::pin(future)⇒future⟧;
        let spawn_executor = self.inner.spawn_executor.clone();
        spawn_executor«.run»(future«, held, world»);
    }
//@end
//@item impl Driver :: fn sleep
    pub fn sleep(&self, time: u32«, at: Ghost<int>, world: &mut World») -> ⟦FutureBox<()>⇒(r: FutureBox)
        // after this time, and not before, there is something in it
        ensures r.inner.at == at, *final(world) == (World { due: old(world).due.push((time, Due::Publish(at@))), ..*old(world) })⟧
    {
        let (sender, future«, _place») = FutureBox::new«::<()>»(«at»);
        self.inner.api.⟦set_timeout_and_detach⇒set_timeout_and_detach_publish⟧(time, move |«inner: &mut CallbackFutureInner<()>, world: &mut World»| «ensures published(*old(inner), *final(inner), *old(world), *final(world), ())» {
            sender.publish(()«, inner, world»);
        }«, at, world»);

        future
    }
//@end
}
} // verus!
fn main() {}
