//@file crates/vertigo-cli/src/serve/html/ordered_map.rs
//@item struct OrderedMap
pub struct OrderedMap {
    order: Vec<String>,
    data: HashMap<String, String>,
}
//@end
// derive(Clone)
impl OrderedMap {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn isnt(k: String) -> spec_fn(String) -> bool { |x: String| x != k }
pub open spec fn without(s: Seq<String>, k: String) -> Seq<String> { s.filter(isnt(k)) }

// xs.iter().filter(f).cloned().collect()
fn vx_filter_cloned<F: Fn(&String) -> bool>(v: &Vec<String>, f: F, p: Ghost<spec_fn(String) -> bool>) -> (r: Vec<String>)
    requires
        forall|x: &String| #[trigger] call_requires(f, (x,)),
        forall|x: &String, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == p@(*x),
    ensures r@ == v@.filter(p@),
{
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    proof { reveal(Seq::filter); assert(v@.take(0) =~= Seq::<String>::empty()); }
    while i < v.len()
        invariant
            0 <= i <= v.len(), out@ == v@.take(i as int).filter(p@),
            forall|x: &String| #[trigger] call_requires(f, (x,)),
            forall|x: &String, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == p@(*x),
        decreases v.len() - i,
    {
        proof {
            assert(v@.take(i + 1) =~= v@.take(i as int).push(v@[i as int]));
            Seq::lemma_filter_push(v@.take(i as int), v@[i as int], p@);
        }
        if f(&v[i]) {
            out.push(vx_string_clone(&v[i]));
        }
        i += 1;
    }
    assert(v@.take(v@.len() as int) =~= v@);
    out
}

proof fn lemma_without(s: Seq<String>, k: String)
    requires s.no_duplicates(),
    ensures
        without(s, k).no_duplicates(),
        forall|x: String| #[trigger] without(s, k).contains(x) <==> s.contains(x) && x != k,
    decreases s.len(),
{
    let w = without(s, k);
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        assert(s =~= t.push(s.last()));
        lemma_without(t, k);
        lemma_push_contains(t, s.last());
        lemma_push_contains(without(t, k), s.last());
        Seq::lemma_filter_push(t, s.last(), isnt(k));
        if t.contains(s.last()) { let i = t.index_of(s.last()); assert(s[i] == s[s.len() - 1]); }
        assert(!without(t, k).contains(s.last()));
        assert(w == if s.last() == k { without(t, k) } else { without(t, k).push(s.last()) });
    }
}
proof fn lemma_push_contains(s: Seq<String>, k: String)
    ensures forall|x: String| #[trigger] s.push(k).contains(x) <==> s.contains(x) || x == k,
{
    let b = s.push(k);
    assert forall|x: String| #[trigger] b.contains(x) <==> s.contains(x) || x == k by {
        if b.contains(x) && x != k { let i = b.index_of(x); assert(s[i] == x); }
        if s.contains(x) { let i = s.index_of(x); assert(b[i] == x); }
        assert(b[b.len() - 1] == k);
    }
}

impl OrderedMap {
    spec fn keys(self) -> Seq<String> { self.order@ }
    spec fn vals(self) -> Map<String, String> { self.data@ }
    spec fn wf(self) -> bool { self.order@.no_duplicates() && forall|x: String| #[trigger] self.order@.contains(x) <==> self.data@.contains_key(x) }

//@item impl OrderedMap :: fn new
    pub fn new() -> «(r:» Self«)
        ensures r.wf(), r.keys() == Seq::<String>::empty(), r.vals() == Map::<String, String>::empty(),»
    {
        Self {
            order: Vec::new(),
            data: HashMap::new(),
        }
    }
//@end
//@item impl OrderedMap :: fn set
    pub fn set(&mut self, name: ⟦impl Into<String>⇒String⟧, value: ⟦impl Into<String>⇒String⟧)
«        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).keys() == without(old(self).keys(), name).push(name),
            final(self).vals() == old(self).vals().insert(name, value),»
    {
        let name = name⟦.into()⇒⟧;
        let value = value⟦.into()⇒⟧;

        self.data.insert(⟦name.clone()⇒vx_string_clone(&name)⟧, value);
«        proof {
            lemma_without(self.order@, name);
            lemma_push_contains(without(self.order@, name), name);
        }»

        if self.data.contains_key(&name) {
            let mut order = ⟦self
                .order
                .iter()
                .filter(|&item_name| item_name != &name)
                .cloned()
                .collect::<Vec<_>>()⇒vx_filter_cloned(&self.order, |item_name: &String| -> (b: bool) ensures b == (*item_name != name) { !vx_string_eq(item_name, &name) }, Ghost(isnt(name)))⟧;

            order.push(name);

            self.order = order;
        } else {
            self.order.push(name);
        }
    }
//@end
//@item impl OrderedMap :: fn remove
    pub fn remove(&mut self, name: ⟦&str⇒&String⟧)
«        requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).keys() == without(old(self).keys(), *name),
            final(self).vals() == old(self).vals().remove(*name),»
    {
«        proof { lemma_without(self.order@, *name); }»
        ⟦self.order.retain(|item_name| item_name != name)⇒self.order = vx_filter_cloned(&self.order, |item_name: &String| -> (b: bool) ensures b == (*item_name != *name) { !vx_string_eq(item_name, name) }, Ghost(isnt(*name)))⟧;
        self.data.remove(name);
    }
//@end
//@item impl OrderedMap :: fn get_iter
    pub fn get_iter(&self) -> «(r:» Vec<(String, String)>«)
        requires self.wf(),
        ensures
            r@.len() == self.keys().len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self.keys()[i], self.vals()[self.keys()[i]]),»
    {
        let mut result = Vec::new();

        for key in «it:» self.order.iter()
«            invariant
                self.wf(), it.seq().unref() == self.order@,
                result@.len() == it.index@,
                forall|i: int| 0 <= i < result@.len() ==> #[trigger] result@[i] == (self.order@[i], self.data@[self.order@[i]]),»
        {
«            proof {
                assert(it.seq().unref()[it.index@ as int] == *key);
                assert(self.order@.contains(self.order@[it.index@ as int]));
            }»
            let value = self.data.get(key).unwrap();
            result.push((⟦key.clone()⇒vx_string_clone(key)⟧, ⟦value.clone()⇒vx_string_clone(value)⟧));
        }

        result
    }
//@end
}
