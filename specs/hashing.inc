// ---- trusted: what a hasher is fed, the bits of a number, the order of strings -----------------------------------------
pub enum Item { U8(u8), U64(u64), Bytes(Seq<char>), Text(Seq<char>) }
#[verifier::external_body]
struct Fed { _x: u8 }
impl Fed {
    uninterp spec fn view(&self) -> Seq<Item>;
    #[verifier::external_body]
    fn write_u8(&mut self, x: u8) ensures final(self)@ == old(self)@.push(Item::U8(x)) { unimplemented!() }
    #[verifier::external_body]
    fn write_u64(&mut self, x: u64) ensures final(self)@ == old(self)@.push(Item::U64(x)) { unimplemented!() }
    // the bytes of a string are a function of its characters
    #[verifier::external_body]
    fn write(&mut self, s: &String) ensures final(self)@ == old(self)@.push(Item::Bytes(s@)) { unimplemented!() }
    #[verifier::external_body]
    fn string(&mut self, s: &String) ensures final(self)@ == old(self)@.push(Item::Text(s@)) { unimplemented!() }
}
uninterp spec fn bits(x: f64) -> u64;
#[verifier::external_body]
fn vx_bits(x: &f64) -> (r: u64) ensures r == bits(*x) { x.to_bits() }
// the names of an object in increasing order
uninterp spec fn in_order(d: Set<String>) -> Seq<String>;
spec fn refs<T>(r: Seq<(&String, &T)>, names: Seq<String>, m: Map<String, T>) -> bool {
    &&& r.len() == names.len()
    &&& forall|i: int| 0 <= i < names.len() ==> *(#[trigger] r[i]).0 == names[i] && m.contains_key(names[i]) && *r[i].1 == m[names[i]]
}
// the entries of a map in an order of its own, each once
#[verifier::external_body]
fn vx_entries<T>(m: &HashMap<String, T>) -> (r: Vec<(&String, &T)>)
    ensures
        exists|names: Seq<String>| #[trigger] refs(r@, names, m@) && forall|k: String| m@.contains_key(k) ==> names.contains(k),
{ m.iter().collect() }
#[verifier::external_body]
fn vx_sort_by_name<T>(v: &mut Vec<(&String, &T)>, Ghost(m): Ghost<Map<String, T>>)
    requires exists|names: Seq<String>| #[trigger] refs(old(v)@, names, m) && forall|k: String| m.contains_key(k) ==> names.contains(k),
    ensures refs(final(v)@, in_order(m.dom()), m),
{ v.sort_by_key(|(name, _)| *name); }
