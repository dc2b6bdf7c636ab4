//@file crates/vertigo/src/computed/struct_mut/btree_map_mut.rs
//@item struct BTreeMapMut
pub struct BTreeMapMut<K: Ord, V> {
    «pub» data: InnerValue<BTreeMap<K, V>>,
}
//@end
impl<K: Ord, V> BTreeMapMut<K, V> {
    pub closed spec fn view(self) -> Map<K, V> { self.data.value@ }
//@item impl BTreeMapMut :: fn new
    pub fn new() -> «(r:» BTreeMapMut<K, V>«)
        ensures r@ == Map::<K, V>::empty(),»
    {
        BTreeMapMut {
            data: InnerValue::new(BTreeMap::new()),
        }
    }
//@end
//@item impl BTreeMapMut :: fn insert
    pub fn insert(⟦&self⇒&mut self⟧, key: K, value: V) -> «(r:» Option<V>«)
        requires key_obeys_cmp_spec::<K>(),
        ensures
            final(self)@ == old(self)@.insert(key, value),
            r is Some <==> old(self)@.contains_key(key),
            r is Some ==> r->0 == old(self)@[key],»
    {
        let state = self.data.get_mut();
        state.insert(key, value)
    }
//@end
//@item impl BTreeMapMut :: fn remove
    pub fn remove(⟦&self⇒&mut self⟧, key: &K) -> «(r:» Option<V>«)
        requires key_obeys_cmp_spec::<K>(),
        ensures
            final(self)@ == old(self)@.remove(*key),
            r is Some <==> old(self)@.contains_key(*key),
            r is Some ==> r->0 == old(self)@[*key],»
    {
        let state = self.data.get_mut();
        state.remove(key)
    }
//@end
//@item impl BTreeMapMut :: fn contains_key
    pub fn contains_key(&self, key: &K) -> «(r:» bool«)
        requires key_obeys_cmp_spec::<K>(),
        ensures r == self@.contains_key(*key),»
    {
        let state = self.data.get();
        state.contains_key(key)
    }
//@end
//@item impl BTreeMapMut :: fn map
    pub fn map<R>(&self, map_f: impl FnOnce(&BTreeMap<K, V>) -> R) -> «(r:» R«)
        requires forall|m: &BTreeMap<K, V>| m@ == self@ ==> call_requires(map_f, (m,)),
        ensures exists|m: &BTreeMap<K, V>| m@ == self@ && call_ensures(map_f, (m,), r),»
    {
        let state = self.data.get();
«        assert(state@ == self@);»
        map_f(state)
    }
//@end
}
impl<K: Ord, V: Clone> BTreeMapMut<K, V> {
//@item impl BTreeMapMut :: fn get_and_clone
    pub fn get_and_clone(&self, key: &K) -> «(r:» Option<V>«)
        requires key_obeys_cmp_spec::<K>(),
        ensures
            r is Some <==> self@.contains_key(*key),
            r is Some ==> cloned(self@[*key], r->0),»
    {
        let state = self.data.get();
        state.get(key).cloned()
    }
//@end
}
