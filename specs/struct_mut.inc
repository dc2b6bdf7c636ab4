// ---- the interior-mutable containers.  Interior mutability is verified as exclusive access for the duration of one
// method call (&self is given to the verifier as &mut self); re-entrant access from inside a callback is not covered.
//@file crates/vertigo/src/computed/struct_mut/inner_value.rs
//@item struct InnerValue
pub struct InnerValue<T> {
    «pub» value: ⟦UnsafeCell<T>⇒T⟧,
}
//@end
impl<T> InnerValue<T> {
//@item impl InnerValue :: fn new
    pub fn new(value: T) -> «(r:» InnerValue<T>«)
        ensures r.value == value,»
    {
        InnerValue {
            value: ⟦UnsafeCell::new(value)⇒value⟧,
        }
    }
//@end
//@item impl InnerValue :: fn get
    pub fn get(&self) -> «(r:» &T«)
        ensures *r == self.value,»
    {
        ⟦unsafe { &*self.value.get() }⇒&self.value⟧
    }
//@end
//@item impl InnerValue :: fn get_mut
    pub fn get_mut(⟦&self⇒&mut self⟧) -> «(r:» &mut T«)
        ensures *r == old(self).value, *final(r) == final(self).value,»
    {
        ⟦unsafe { &mut *self.value.get() }⇒&mut self.value⟧
    }
//@end
//@item impl InnerValue :: fn into_inner
    pub fn into_inner(self) -> «(r:» T«)
        ensures r == self.value,»
    {
        ⟦self.value.into_inner()⇒self.value⟧
    }
//@end
}

//@file crates/vertigo/src/computed/struct_mut/value_mut.rs
//@item struct ValueMut
pub struct ValueMut<T> {
    «pub» value: InnerValue<T>,
}
//@end
impl<T> ValueMut<T> {
    pub closed spec fn view(self) -> T { self.value.value }
//@item impl ValueMut :: fn new
    pub fn new(value: T) -> «(r:» ValueMut<T>«)
        ensures r@ == value,»
    {
        ValueMut {
            value: InnerValue::new(value),
        }
    }
//@end
//@item impl ValueMut :: fn set
    pub fn set(⟦&self⇒&mut self⟧, value: T)
«        ensures final(self)@ == value,»
    {
        *self.value.get_mut() = value;
    }
//@end
//@item impl ValueMut :: fn map
    pub fn map<K>(&self, fun: impl Fn(&T) -> K) -> «(r:» K«)
        requires call_requires(fun, (&self@,)),
        ensures call_ensures(fun, (&self@,), r),»
    {
        fun(self.value.get())
    }
//@end
//@item impl ValueMut :: fn change
    pub fn change<R>(⟦&self⇒&mut self⟧, change: impl FnOnce(&mut T) -> R) -> «(r:» R«)
        requires forall|p: &mut T| *p == old(self)@ ==> call_requires(change, (p,)),
        ensures exists|p: &mut T| *p == old(self)@ && *final(p) == final(self)@ && call_ensures(change, (p,), r),»
    {
        change(self.value.get_mut())
    }
//@end
}

pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
fn vx_take<T: Default>(v: &mut T) -> (r: T)
    ensures r == *old(v),
{
    std::mem::replace(v, T::default())
}
impl<T: Clone> ValueMut<T> {
//@item impl ValueMut :: fn get
    pub fn get(&self) -> «(r:» T «)
        ensures call_ensures(T::clone, (&self@,), r),»
    {
        // let state = self.value.borrow();
        let state = self.value.get();
        (*state).clone()
    }
//@end
}
impl<T: PartialEq> ValueMut<T> {
//@item impl ValueMut :: fn set_and_check
    pub fn set_and_check(⟦&self⇒&mut self⟧, value: T) -> «(r:» bool «)
        ensures final(self)@ == value, T::obeys_eq_spec() ==> r == !old(self)@.eq_spec(&value),»
    {
        let state = self.value.get_mut();
        let is_change = *state != value;
        *state = value;
        is_change
    }
//@end
}
impl<T: Default> ValueMut<T> {
//@item impl ValueMut :: fn move_to
    pub fn move_to<R>(⟦&self⇒&mut self⟧, change: impl Fn(T) -> (T, R)) -> «(r:» R«)
        requires call_requires(change, (old(self)@,)),
        ensures call_ensures(change, (old(self)@,), (final(self)@, r)),»
    {
        let state = self.value.get_mut();
        let prev_state = ⟦std::mem::take::<T>⇒vx_take⟧(state);
        let (new_state, rest) = change(prev_state);
        let _ = std::mem::replace::<T>(state, new_state);
        rest
    }
//@end
//@item impl ValueMut :: fn move_to_void
    pub fn move_to_void(⟦&self⇒&mut self⟧, change: impl Fn(T) -> T)
«        requires call_requires(change, (old(self)@,)),
        ensures call_ensures(change, (old(self)@,), final(self)@),»
    {
        let state = self.value.get_mut();
        let prev_state = ⟦std::mem::take::<T>⇒vx_take⟧(state);
        let new_state = change(prev_state);
        let _ = std::mem::replace::<T>(state, new_state);
    }
//@end
}

// std::mem::take on a vector
fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0,
{
    let mut out = Vec::new();
    std::mem::swap(v, &mut out);
    out
}
//@file crates/vertigo/src/computed/struct_mut/vec_mut.rs
//@item struct VecMut
pub struct VecMut<V> {
    «pub» data: InnerValue<Vec<V>>,
}
//@end
impl<V> VecMut<V> {
    pub closed spec fn view(self) -> Seq<V> { self.data.value@ }
//@item impl VecMut :: fn new
    pub fn new() -> «(r:» VecMut<V>«)
        ensures r@ == Seq::<V>::empty(),»
    {
        VecMut {
            data: InnerValue::new(Vec::new()),
        }
    }
//@end
//@item impl VecMut :: fn push
    pub fn push(⟦&self⇒&mut self⟧, value: V)
«        ensures final(self)@ == old(self)@.push(value),»
    {
        let state = self.data.get_mut();
        state.push(value);
    }
//@end
//@item impl VecMut :: fn take
    pub fn take(⟦&self⇒&mut self⟧) -> «(r:» Vec<V>«)
        ensures r@ == old(self)@, final(self)@ == Seq::<V>::empty(),»
    {
        let state = self.data.get_mut();
        ⟦std::mem::take⇒vx_take_vec⟧(state)
    }
//@end
//@item impl VecMut :: fn map
    pub fn map<K«, F: Fn(&Vec<V>) -> K»>(⟦&self⇒&mut self⟧, map: ⟦impl Fn(&Vec<V>) -> K⇒F⟧) -> «(r:» K«)
        requires map.requires((&old(self).data.value,)),
        ensures final(self)@ == old(self)@, map.ensures((&old(self).data.value,), r),»
    {
        let data = self.data.get_mut();
        map(&*data)
    }
//@end
//@item impl VecMut :: fn into_inner
    pub fn into_inner(self) -> «(r:» Vec<V>«)
        ensures r@ == self@,»
    {
        self.data.into_inner()
    }
//@end
}
