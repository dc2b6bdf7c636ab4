//@file crates/vertigo/src/computed/graph_id.rs
#[derive(Structural, PartialEq, Eq, Clone, Copy, PartialOrd, Ord, Hash)]
//@item enum GraphIdKind
pub enum GraphIdKind {
    Value,
    Computed,
    Client,
}
//@end
#[derive(Structural, PartialEq, Eq, Clone, Copy, PartialOrd, Ord, Hash)]
//@item struct GraphId
pub struct GraphId(GraphIdKind, u64);
//@end

// derive(Ord) on GraphId is the lexicographic total order (assumed)
mod gid_axiom {
    use super::*;
    pub broadcast axiom fn axiom_graph_id_key()
        ensures #[trigger] key_obeys_cmp_spec::<GraphId>();
}

// iterator plumbing ---------------------------------------------------------------------------------------------
// A std iterator chain  xs.map(f).collect()  is handed to the verifier as the same chain on this verified list type.
pub struct VxIter<T>(Vec<T>);

impl<T> VxIter<T> {
    pub closed spec fn view(self) -> Seq<T> { self.0@ }

    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    {
        let mut out: Vec<U> = Vec::new();
        let ghost s = self@;
        for x in it: self.0
            invariant
                it.seq() == s,
                out@.len() == it.index@,
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < out@.len() ==> call_ensures(f, (s[i],), #[trigger] out@[i]),
        {
            out.push(f(x));
        }
        VxIter(out)
    }

    pub fn collect_set(self) -> (r: BTreeSet<T>) where T: Ord
        requires key_obeys_cmp_spec::<T>(),
        ensures r@ == self@.to_set(),
    {
        let ghost s = self@;
        let mut out: BTreeSet<T> = BTreeSet::new();
        for x in it: self.0
            invariant
                it.seq() == s, key_obeys_cmp_spec::<T>(),
                out@ =~= s.take(it.index@ as int).to_set(),
        {
            proof {
                assert(s.take(it.index@ + 1) =~= s.take(it.index@ as int).push(x));
                s.take(it.index@ as int).lemma_push_to_set_commute(x);
            }
            out.insert(x);
        }
        assert(s.take(s.len() as int) =~= s);
        out
    }

    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@,
    { self.0 }
}

// iteration over a set: every element exactly once (order unspecified)
pub open spec fn lists(s: Seq<GraphId>, t: Set<GraphId>) -> bool {
    s.no_duplicates() && s.to_set() =~= t
}

#[verifier::external_body]
pub fn vx_set_into_iter(s: BTreeSet<GraphId>) -> (r: Vec<GraphId>)
    ensures lists(r@, s@),
{ s.into_iter().collect() }

#[verifier::external_body]
pub fn vx_set_difference<'a>(a: &'a BTreeSet<GraphId>, b: &'a BTreeSet<GraphId>) -> (r: VxIter<&'a GraphId>)
    ensures lists(r@.unref(), a@.difference(b@)),
{ VxIter(a.difference(b).collect()) }

#[verifier::external_body]
pub fn vx_entry_or_default<'a>(m: &'a mut BTreeMap<GraphId, BTreeSet<GraphId>>, k: GraphId) -> (r: &'a mut BTreeSet<GraphId>)
    ensures
        old(m)@.contains_key(k) ==> *r == old(m)@[k],
        !old(m)@.contains_key(k) ==> r@ == Set::<GraphId>::empty(),
        final(m)@ == old(m)@.insert(k, *final(r)),
{ m.entry(k).or_default() }

pub fn vx_extend<T>(v: &mut Vec<T>, mut w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@,
{ v.append(&mut w); }
