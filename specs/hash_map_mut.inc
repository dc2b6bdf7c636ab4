//@file crates/vertigo/src/computed/struct_mut/hash_map_mut.rs
//@item struct HashMapMut
pub struct HashMapMut<K, V> {
    «pub» data: InnerValue<HashMap<K, V>>,
}
//@end
impl<K: Eq + Hash, V> HashMapMut<K, V> {
    pub closed spec fn view(self) -> Map<K, V> { self.data.value@ }
//@item impl HashMapMut :: fn new
    pub fn new() -> «(r:» HashMapMut<K, V>«)
        ensures r@ == Map::<K, V>::empty(),»
    {
        HashMapMut {
            data: InnerValue::new(HashMap::new()),
        }
    }
//@end
//@item impl HashMapMut :: fn insert
    pub fn insert(⟦&self⇒&mut self⟧, key: K, value: V) -> «(r:» Option<V>«)
        requires obeys_key_model::<K>(),
        ensures
            final(self)@ == old(self)@.insert(key, value),
            r is Some <==> old(self)@.contains_key(key),
            r is Some ==> r->0 == old(self)@[key],»
    {
        let state = self.data.get_mut();
        state.insert(key, value)
    }
//@end
//@item impl HashMapMut :: fn remove
    pub fn remove(⟦&self⇒&mut self⟧, key: &K) -> «(r:» Option<V>«)
        requires obeys_key_model::<K>(),
        ensures
            final(self)@ == old(self)@.remove(*key),
            r is Some <==> old(self)@.contains_key(*key),
            r is Some ==> r->0 == old(self)@[*key],»
    {
        let state = self.data.get_mut();
        state.remove(key)
    }
//@end
}
impl<K: Eq + Hash, V: Clone> HashMapMut<K, V> {
//@item impl HashMapMut :: fn get
    pub fn get(&self, key: &K) -> «(r:» Option<V>«)
        requires obeys_key_model::<K>(),
        ensures
            r is Some <==> self@.contains_key(*key),
            r is Some ==> cloned(self@[*key], r->0),»
    {
        let state = self.data.get();
        state.get(key).map(|value «: &V»| «-> (o: V) ensures cloned(*value, o) {» (*value).clone() «}»)
    }
//@end
}
