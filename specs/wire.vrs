#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::raw_ptr::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::iter::*;
//@include std_extra.inc

verus! {

broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::vec::group_vec_axioms, bel::lemma_be_len, ax::axiom_string_ext, ax::axiom_string_key, ax::axiom_f64_len};

//@include wire_tree.inc

// ---- trusted: primitives of std --------------------------------------------------------------------------------
mod ax {
    use super::*;
pub uninterp spec fn st(cs: Seq<char>) -> String;
pub uninterp spec fn f64b(f: f64) -> Seq<u8>;
    // two Strings with the same characters are the same key
    pub broadcast axiom fn axiom_string_ext(s: String)
        ensures st(#[trigger] s@) == s;
    pub broadcast axiom fn axiom_string_key()
        ensures #[trigger] obeys_key_model::<String>();
    // f64::to_be_bytes is 8 bytes and loses nothing
    pub broadcast axiom fn axiom_f64_len(f: f64)
        ensures #[trigger] f64b(f).len() == 8;
    pub axiom fn axiom_f64_inj(f: f64, g: f64)
        requires f64b(f) == f64b(g),
        ensures f == g;
}
use ax::*;
#[verifier::external_body] fn vx_be_u16(v: u16) -> (r: [u8; 2]) ensures r@ == be(v as nat, 2) { v.to_be_bytes() }
#[verifier::external_body] fn vx_be_u32(v: u32) -> (r: [u8; 4]) ensures r@ == be(v as nat, 4) { v.to_be_bytes() }
#[verifier::external_body] fn vx_be_u64(v: u64) -> (r: [u8; 8]) ensures r@ == be(v as nat, 8) { v.to_be_bytes() }
#[verifier::external_body] fn vx_be_i32(v: i32) -> (r: [u8; 4]) ensures r@ == be(v as u32 as nat, 4) { v.to_be_bytes() }
#[verifier::external_body] fn vx_be_i64(v: i64) -> (r: [u8; 8]) ensures r@ == be(v as u64 as nat, 8) { v.to_be_bytes() }
#[verifier::external_body] fn vx_be_f64(v: f64) -> (r: [u8; 8]) ensures r@ == f64b(v) { v.to_be_bytes() }
#[verifier::external_body] fn vx_from_u16(b: [u8; 2]) -> (r: u16) ensures r as nat == unbe(b@) { u16::from_be_bytes(b) }
#[verifier::external_body] fn vx_from_u32(b: [u8; 4]) -> (r: u32) ensures r as nat == unbe(b@) { u32::from_be_bytes(b) }
#[verifier::external_body] fn vx_from_u64(b: [u8; 8]) -> (r: u64) ensures r as nat == unbe(b@) { u64::from_be_bytes(b) }
#[verifier::external_body] fn vx_from_i32(b: [u8; 4]) -> (r: i32) ensures r as u32 as nat == unbe(b@) { i32::from_be_bytes(b) }
#[verifier::external_body] fn vx_from_i64(b: [u8; 8]) -> (r: i64) ensures r as u64 as nat == unbe(b@) { i64::from_be_bytes(b) }
#[verifier::external_body] fn vx_from_f64(b: [u8; 8]) -> (r: f64) ensures f64b(r) == b@ { f64::from_be_bytes(b) }
// String::from_utf8
#[verifier::external_body]
fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, ()>)
    ensures match r { Ok(s) => encode_utf8(s@) == v@, Err(_) => !valid_utf8(v@) },
{ String::from_utf8(v).map_err(|_| ()) }
#[verifier::external_body] fn vx_string() -> String { String::new() }

fn vx_slice_vec(v: &Vec<u8>, from: usize, to: usize) -> (r: Vec<u8>)
    requires from <= to <= v@.len(),
    ensures r@ == v@.subrange(from as int, to as int),
{
    let mut out: Vec<u8> = Vec::new();
    let mut i = from;
    while i < to
        invariant from <= i <= to <= v@.len(), out@ == v@.subrange(from as int, i as int),
        decreases to - i,
    {
        out.push(v[i]);
        i = i + 1;
        assert(v@.subrange(from as int, i as int) =~= v@.subrange(from as int, i - 1).push(v@[i - 1]));
    }
    out
}

//@include memory_block.inc

//@file crates/vertigo/src/driver_module/js_value/memory_block_write.rs
//@item struct MemoryBlockWrite
pub struct MemoryBlockWrite {
    block: MemoryBlock,
    offset: u32,
}
//@end
impl MemoryBlockWrite {
    pub closed spec fn wf(self) -> bool { self.block.wf() && self.offset <= self.block@.len() <= u32::MAX && self.offset <= self.block.init() }
    pub closed spec fn written(self) -> Seq<u8> { self.block@.take(self.offset as int) }
    pub closed spec fn cap(self) -> nat { self.block@.len() }
    proof fn lemma_wf(self)
        requires self.wf(),
        ensures self.written().len() <= self.cap() <= u32::MAX,
    {}
//@item impl MemoryBlockWrite :: fn new
    pub fn new(block: MemoryBlock) -> «(r:» MemoryBlockWrite «)
        requires block.wf(),
        ensures r.wf(), r.written() == Seq::<u8>::empty(), r.cap() == block@.len(), r.block == block,»
    {
        «proof { block.lemma_wf(); }
        let r =» MemoryBlockWrite { block, offset: 0 } «; proof { assert(r.written() =~= Seq::<u8>::empty()); } r»
    }
//@end
//@item impl MemoryBlockWrite :: fn get_block
    pub fn get_block(self) -> «(r:» MemoryBlock «)
        requires self.wf(),
        ensures r.wf(), r@.take(self.written().len() as int) == self.written(), r@.len() == self.cap(), r.init() >= self.written().len(),»
    {
        self.block
    }
//@end
//@item impl MemoryBlockWrite :: fn write
    pub fn write(&mut self, data: &[u8])
        «requires old(self).wf(), old(self).written().len() + data@.len() <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).written() == old(self).written() + data@,»
    {
        self.block.write(self.offset, data);
        self.offset += data.len() as u32;
        «proof { assert(self.written() =~= old(self).written() + data@); }»
    }
//@end
//@item impl MemoryBlockWrite :: fn write_u8
    pub fn write_u8(&mut self, value: impl Into<u8>)
        «requires old(self).wf(), old(self).written().len() + 1 <= old(self).cap(), call_requires(Into::into, (value,)),
        ensures final(self).wf(), final(self).cap() == old(self).cap(),
            exists|b: u8| call_ensures(Into::into, (value,), b) && final(self).written() == #[trigger] old(self).written().push(b),»
    {
        let value = value.into();
        self.write(&[value]);
        «proof { assert(self.written() =~= old(self).written().push(value)); }»
    }
//@end
//@item impl MemoryBlockWrite :: fn write_u64
    pub fn write_u64(&mut self, value: u64)
        «requires old(self).wf(), old(self).written().len() + 8 <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).written() == old(self).written() + be(value as nat, 8),»
    {
        let bytes: [u8; 8] = ⟦value.to_be_bytes()⇒vx_be_u64(value)⟧;
        self.write(&bytes);
    }
//@end
//@item impl MemoryBlockWrite :: fn write_i64
    pub fn write_i64(&mut self, value: i64)
        «requires old(self).wf(), old(self).written().len() + 8 <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).written() == old(self).written() + be(value as u64 as nat, 8),»
    {
        let bytes: [u8; 8] = ⟦value.to_be_bytes()⇒vx_be_i64(value)⟧;
        self.write(&bytes);
    }
//@end
//@item impl MemoryBlockWrite :: fn write_u32
    pub fn write_u32(&mut self, value: u32)
        «requires old(self).wf(), old(self).written().len() + 4 <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).written() == old(self).written() + be(value as nat, 4),»
    {
        let bytes: [u8; 4] = ⟦value.to_be_bytes()⇒vx_be_u32(value)⟧;
        self.write(&bytes);
    }
//@end
//@item impl MemoryBlockWrite :: fn write_i32
    pub fn write_i32(&mut self, value: i32)
        «requires old(self).wf(), old(self).written().len() + 4 <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).written() == old(self).written() + be(value as u32 as nat, 4),»
    {
        let bytes: [u8; 4] = ⟦value.to_be_bytes()⇒vx_be_i32(value)⟧;
        self.write(&bytes);
    }
//@end
//@item impl MemoryBlockWrite :: fn write_u16
    pub fn write_u16(&mut self, value: u16)
        «requires old(self).wf(), old(self).written().len() + 2 <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).written() == old(self).written() + be(value as nat, 2),»
    {
        let bytes: [u8; 2] = ⟦value.to_be_bytes()⇒vx_be_u16(value)⟧;
        self.write(&bytes);
    }
//@end
//@item impl MemoryBlockWrite :: fn write_f64
    pub fn write_f64(&mut self, value: f64)
        «requires old(self).wf(), old(self).written().len() + 8 <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).written() == old(self).written() + f64b(value),»
    {
        let bytes: [u8; 8] = ⟦value.to_be_bytes()⇒vx_be_f64(value)⟧;
        self.write(&bytes);
    }
//@end
}

//@file crates/vertigo/src/driver_module/js_value/memory_block_read.rs
//@item struct MemoryBlockRead
pub struct MemoryBlockRead {
    block: Vec<u8>,
    offset: u32,
}
//@end
impl MemoryBlockRead {
    pub closed spec fn wf(self) -> bool { self.offset <= self.block@.len() <= u32::MAX }
    pub closed spec fn rest(self) -> Seq<u8> { self.block@.skip(self.offset as int) }
    // n bytes were consumed
    pub open spec fn adv(self, o: Self, n: int) -> bool { self.wf() && self.rest() == o.rest().skip(n) }
    proof fn lemma_wf(self)
        requires self.wf(),
        ensures self.rest().len() <= u32::MAX,
    {}
//@item impl MemoryBlockRead :: fn new
    pub fn new(buffer: MemoryBlock) -> «(r:» MemoryBlockRead «)
        requires buffer.wf(), buffer.full(),
        ensures r.wf(), r.rest() == buffer@,»
    {
        «let r =» MemoryBlockRead {
            block: buffer.convert_to_vec(),
            offset: 0,
        } «; proof { assert(r.rest() =~= buffer@); } r»
    }
//@end
//@item impl MemoryBlockRead :: fn get_byte
    pub fn get_byte(&mut self) -> «(r:» u8 «)
        requires old(self).wf(), old(self).rest().len() >= 1,
        ensures r == old(self).rest()[0], final(self).adv(*old(self), 1),»
    {
        let result = self.block[self.offset as usize];
        self.offset += 1;
        «proof { assert(self.rest() =~= old(self).rest().skip(1)); }»
        result
    }
//@end
//@item impl MemoryBlockRead :: fn get_u16
    pub fn get_u16(&mut self) -> «(r:» u16 «)
        requires old(self).wf(), old(self).rest().len() >= 2,
        ensures r as nat == unbe(old(self).rest().take(2)), final(self).adv(*old(self), 2),»
    {
        let bytes: [u8; 2] = [
            self.block[self.offset as usize],
            self.block[self.offset as usize + 1],
        ];

        «proof { assert(bytes@ =~= old(self).rest().take(2)); }»
        self.offset += 2;
        «proof { assert(self.rest() =~= old(self).rest().skip(2)); }»
        ⟦u16::from_be_bytes(bytes)⇒vx_from_u16(bytes)⟧
    }
//@end
//@item impl MemoryBlockRead :: fn get_u32
    pub fn get_u32(&mut self) -> «(r:» u32 «)
        requires old(self).wf(), old(self).rest().len() >= 4,
        ensures r as nat == unbe(old(self).rest().take(4)), final(self).adv(*old(self), 4),»
    {
        let bytes: [u8; 4] = [
            self.block[self.offset as usize],
            self.block[self.offset as usize + 1],
            self.block[self.offset as usize + 2],
            self.block[self.offset as usize + 3],
        ];

        «proof { assert(bytes@ =~= old(self).rest().take(4)); }»
        self.offset += 4;
        «proof { assert(self.rest() =~= old(self).rest().skip(4)); }»
        ⟦u32::from_be_bytes(bytes)⇒vx_from_u32(bytes)⟧
    }
//@end
//@item impl MemoryBlockRead :: fn get_i32
    pub fn get_i32(&mut self) -> «(r:» i32 «)
        requires old(self).wf(), old(self).rest().len() >= 4,
        ensures r as u32 as nat == unbe(old(self).rest().take(4)), final(self).adv(*old(self), 4),»
    {
        let bytes: [u8; 4] = [
            self.block[self.offset as usize],
            self.block[self.offset as usize + 1],
            self.block[self.offset as usize + 2],
            self.block[self.offset as usize + 3],
        ];

        «proof { assert(bytes@ =~= old(self).rest().take(4)); }»
        self.offset += 4;
        «proof { assert(self.rest() =~= old(self).rest().skip(4)); }»
        ⟦i32::from_be_bytes(bytes)⇒vx_from_i32(bytes)⟧
    }
//@end
//@item impl MemoryBlockRead :: fn get_u64
    pub fn get_u64(&mut self) -> «(r:» u64 «)
        requires old(self).wf(), old(self).rest().len() >= 8,
        ensures r as nat == unbe(old(self).rest().take(8)), final(self).adv(*old(self), 8),»
    {
        let bytes: [u8; 8] = [
            self.block[self.offset as usize],
            self.block[self.offset as usize + 1],
            self.block[self.offset as usize + 2],
            self.block[self.offset as usize + 3],
            self.block[self.offset as usize + 4],
            self.block[self.offset as usize + 5],
            self.block[self.offset as usize + 6],
            self.block[self.offset as usize + 7],
        ];

        «proof { assert(bytes@ =~= old(self).rest().take(8)); }»
        self.offset += 8;
        «proof { assert(self.rest() =~= old(self).rest().skip(8)); }»
        ⟦u64::from_be_bytes(bytes)⇒vx_from_u64(bytes)⟧
    }
//@end
//@item impl MemoryBlockRead :: fn get_f64
    pub fn get_f64(&mut self) -> «(r:» f64 «)
        requires old(self).wf(), old(self).rest().len() >= 8,
        ensures f64b(r) == old(self).rest().take(8), final(self).adv(*old(self), 8),»
    {
        let bytes: [u8; 8] = [
            self.block[self.offset as usize],
            self.block[self.offset as usize + 1],
            self.block[self.offset as usize + 2],
            self.block[self.offset as usize + 3],
            self.block[self.offset as usize + 4],
            self.block[self.offset as usize + 5],
            self.block[self.offset as usize + 6],
            self.block[self.offset as usize + 7],
        ];

        «proof { assert(bytes@ =~= old(self).rest().take(8)); }»
        self.offset += 8;
        «proof { assert(self.rest() =~= old(self).rest().skip(8)); }»
        ⟦f64::from_be_bytes(bytes)⇒vx_from_f64(bytes)⟧
    }
//@end
//@item impl MemoryBlockRead :: fn get_i64
    pub fn get_i64(&mut self) -> «(r:» i64 «)
        requires old(self).wf(), old(self).rest().len() >= 8,
        ensures r as u64 as nat == unbe(old(self).rest().take(8)), final(self).adv(*old(self), 8),»
    {
        let bytes: [u8; 8] = [
            self.block[self.offset as usize],
            self.block[self.offset as usize + 1],
            self.block[self.offset as usize + 2],
            self.block[self.offset as usize + 3],
            self.block[self.offset as usize + 4],
            self.block[self.offset as usize + 5],
            self.block[self.offset as usize + 6],
            self.block[self.offset as usize + 7],
        ];

        «proof { assert(bytes@ =~= old(self).rest().take(8)); }»
        self.offset += 8;
        «proof { assert(self.rest() =~= old(self).rest().skip(8)); }»
        ⟦i64::from_be_bytes(bytes)⇒vx_from_i64(bytes)⟧
    }
//@end
//@item impl MemoryBlockRead :: fn get_string
    pub fn get_string(&mut self, len: u32) -> «(r:» Result<String, String> «)
        requires old(self).wf(), old(self).rest().len() >= len, valid_utf8(old(self).rest().take(len as int)),
        ensures r is Ok, encode_utf8(r->Ok_0@) == old(self).rest().take(len as int), final(self).adv(*old(self), len as int),»
    {
        let vec = self.get_vec(len);
        ⟦String::from_utf8(vec)⇒vx_from_utf8(vec)⟧.map_err(⟦|_| String::from("String decoding error")⇒|_e: ()| vx_string()⟧)
    }
//@end
//@item impl MemoryBlockRead :: fn get_vec
    pub fn get_vec(&mut self, len: u32) -> «(r:» Vec<u8> «)
        requires old(self).wf(), old(self).rest().len() >= len,
        ensures r@ == old(self).rest().take(len as int), final(self).adv(*old(self), len as int),»
    {
        let from = self.offset as usize;
        let to = (self.offset + len) as usize;
        let slice = ⟦&self.block[from..to]⇒vx_slice_vec(&self.block, from, to)⟧;
        «proof { assert(slice@ =~= old(self).rest().take(len as int)); }»

        self.offset += len;
        «proof { assert(self.rest() =~= old(self).rest().skip(len as int)); }»

        ⟦slice.to_vec()⇒slice⟧
    }
//@end
}

// ---- sizes: sums over the keys of a map do not depend on the order ----------------------------------------------
pub open spec fn psum(ks: Seq<String>, f: spec_fn(String) -> nat) -> nat
    decreases ks.len(),
{
    if ks.len() == 0 { 0 } else { psum(ks.drop_last(), f) + f(ks.last()) }
}
pub open spec fn enumerates(ks: Seq<String>, d: Set<String>) -> bool {
    ks.no_duplicates() && ks.to_set() == d
}
pub open spec fn keys_of<K, V>(r: Seq<(&K, &V)>) -> Seq<K> { Seq::new(r.len(), |i: int| *r[i].0) }
// r lists the entries of m, each once
pub open spec fn iterates<K, V>(r: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& r.len() == m.dom().len()
    &&& keys_of(r).no_duplicates()
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i]).0) && m[*r[i].0] == *r[i].1
    &&& keys_of(r).to_set() == m.dom()
}
proof fn lemma_iterates<K, V>(r: Seq<(&K, &V)>, m: Map<K, V>)
    requires r.len() == m.dom().len(), r.no_duplicates(),
        forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i]).0) && m[*r[i].0] == *r[i].1,
    ensures iterates(r, m),
{
    let ks = keys_of(r);
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by {
        if ks[i] == ks[j] { assert(r[i] == r[j]); }
    }
    ks.unique_seq_to_set();
    assert(ks.to_set().subset_of(m.dom())) by {
        assert forall|k: K| ks.to_set().contains(k) implies m.dom().contains(k) by { let i = ks.index_of(k); assert(*r[i].0 == k); }
    }
    vstd::set_lib::lemma_subset_equality(ks.to_set(), m.dom());
}
fn vx_entries<'a, V>(m: &'a HashMap<String, V>) -> (r: std::collections::hash_map::Iter<'a, String, V>)
    ensures iterates(IteratorSpec::remaining(&r), m@),
        IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some,
{
    let r = m.iter();
    proof { lemma_iterates(IteratorSpec::remaining(&r), m@); }
    r
}
pub open spec fn keyseq(d: Set<String>) -> Seq<String> { choose|ks: Seq<String>| enumerates(ks, d) }

proof fn lemma_psum_remove(ks: Seq<String>, i: int, f: spec_fn(String) -> nat)
    requires 0 <= i < ks.len(),
    ensures psum(ks, f) == psum(ks.remove(i), f) + f(ks[i]),
    decreases ks.len(),
{
    if i == ks.len() - 1 {
        assert(ks.remove(i) =~= ks.drop_last());
    } else {
        lemma_psum_remove(ks.drop_last(), i, f);
        assert(ks.remove(i).drop_last() =~= ks.drop_last().remove(i));
        assert(ks.remove(i).last() == ks.last());
    }
}
proof fn lemma_psum_perm(a: Seq<String>, b: Seq<String>, f: spec_fn(String) -> nat)
    requires a.no_duplicates(), b.no_duplicates(), a.to_set() == b.to_set(),
    ensures psum(a, f) == psum(b, f), a.len() == b.len(),
    decreases a.len(),
{
    a.unique_seq_to_set();
    b.unique_seq_to_set();
    if a.len() > 0 {
        let x = a.last();
        assert(a.to_set().contains(x)) by { assert(a.contains(x)); }
        assert(b.contains(x));
        let i = b.index_of(x);
        lemma_psum_remove(b, i, f);
        let c = b.remove(i);
        let p = a.drop_last();
        assert(c.no_duplicates());
        assert(p.to_set() =~= c.to_set()) by {
            assert forall|y: String| p.to_set().contains(y) <==> c.to_set().contains(y) by {
                if p.contains(y) {
                    assert(a.contains(y)) by { let j = p.index_of(y); assert(a[j] == y); }
                    assert(a.to_set().contains(y));
                    assert(b.contains(y));
                    let j = b.index_of(y);
                    let q = p.index_of(y);
                    assert(y != x) by { assert(a[q] == y); assert(a[a.len() - 1] == x); }
                    if j < i { assert(c[j] == y); } else { assert(c[j - 1] == y); }
                }
                if c.contains(y) {
                    let j = c.index_of(y);
                    let bj = if j < i { j } else { j + 1 };
                    assert(b[bj] == y);
                    assert(b.to_set().contains(y));
                    assert(a.contains(y));
                    assert(y != x);
                    let q = a.index_of(y);
                    assert(p[q] == y);
                }
            }
        }
        lemma_psum_perm(p, c, f);
    }
}
proof fn lemma_psum_keyseq(ks: Seq<String>, d: Set<String>, f: spec_fn(String) -> nat)
    requires enumerates(ks, d),
    ensures psum(ks, f) == psum(keyseq(d), f),
{
    assert(enumerates(keyseq(d), d));
    lemma_psum_perm(ks, keyseq(d), f);
}
proof fn lemma_psum_take(ks: Seq<String>, i: int, f: spec_fn(String) -> nat)
    requires 0 <= i <= ks.len(),
    ensures psum(ks.take(i), f) <= psum(ks, f),
        i < ks.len() ==> psum(ks.take(i + 1), f) == psum(ks.take(i), f) + f(ks[i]) && psum(ks.take(i + 1), f) <= psum(ks, f),
    decreases ks.len() - i,
{
    if i < ks.len() {
        lemma_psum_take(ks, i + 1, f);
        assert(ks.take(i + 1).drop_last() =~= ks.take(i));
        assert(ks.take(i + 1).last() == ks[i]);
    } else {
        assert(ks.take(i) =~= ks);
    }
}
proof fn lemma_psum_congr(ks: Seq<String>, f: spec_fn(String) -> nat, g: spec_fn(String) -> nat)
    requires forall|k: String| ks.contains(k) ==> f(k) == #[trigger] g(k),
    ensures psum(ks, f) == psum(ks, g),
    decreases ks.len(),
{
    if ks.len() > 0 {
        let p = ks.drop_last();
        assert forall|k: String| p.contains(k) implies f(k) == #[trigger] g(k) by { let i = p.index_of(k); assert(ks[i] == k); assert(ks.contains(k)); }
        lemma_psum_congr(p, f, g);
        assert(ks.contains(ks.last()));
    }
}

// the tree at the front of what is left to read
pub open spec fn front(b: Seq<u8>, k: K) -> T { parse(b, k).unwrap().0 }
pub open spec fn frontn(b: Seq<u8>, k: K) -> nat { parse(b, k).unwrap().1 }
pub open spec fn readable(b: Seq<u8>, k: K) -> bool { parse(b, k) is Some && okt(front(b, k), k) }

//@file crates/vertigo/src/driver_module/js_value/js_json_struct.rs
mod js_json {
use super::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::vec::group_vec_axioms, bel::lemma_be_len, ax::axiom_string_ext, ax::axiom_string_key, ax::axiom_f64_len};

//@item const PARAM_TYPE
const PARAM_TYPE: u32 = 1;
//@end
//@item const STRING_SIZE
const STRING_SIZE: u32 = 4;
//@end
//@item const LIST_COUNT
const LIST_COUNT: u32 = 4;
//@end
//@item const OBJECT_COUNT
const OBJECT_COUNT: u32 = 2;
//@end

//@item enum JsJsonConst
«pub» enum JsJsonConst {
    True = 1,
    False = 2,
    Null = 3,

    String = 4,
    Number = 5,
    List = 6,
    Object = 7,
}
//@end
pub open spec fn jtag(c: JsJsonConst) -> u8 {
    match c {
        JsJsonConst::True => 1, JsJsonConst::False => 2, JsJsonConst::Null => 3, JsJsonConst::String => 4,
        JsJsonConst::Number => 5, JsJsonConst::List => 6, JsJsonConst::Object => 7,
    }
}
impl JsJsonConst {
//@item impl JsJsonConst :: fn from_byte
    fn from_byte(byte: u8) -> «(r:» Option<JsJsonConst> «)
        ensures match r { Some(c) => jtag(c) == byte, None => byte == 0 || byte > 7 },»
    {
        match byte {
            1 => Some(JsJsonConst::True),
            2 => Some(JsJsonConst::False),
            3 => Some(JsJsonConst::Null),
            4 => Some(JsJsonConst::String),
            5 => Some(JsJsonConst::Number),
            6 => Some(JsJsonConst::List),
            7 => Some(JsJsonConst::Object),
            _ => None,
        }
    }
//@end
}
impl FromSpecImpl<JsJsonConst> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: JsJsonConst) -> u8 { jtag(v) }
}
impl From<JsJsonConst> for u8 {
//@item impl From for u8 :: fn from
    fn from(value: JsJsonConst) -> Self {
        value as u8
    }
//@end
}

//@item enum JsJson
«pub» enum JsJson {
    True,
    False,
    Null,
    String(String),
    Number(f64),
    List(Vec<JsJson>),
    Object(HashMap<String, JsJson>),
}
//@end

// the tree t is an encoding of the value j (objects list their entries in any order)
pub open spec fn repj(j: JsJson, t: T) -> bool
    decreases t,
{
    match j {
        JsJson::True => t == T { tag: 1, body: Body::Raw(Seq::empty()) },
        JsJson::False => t == T { tag: 2, body: Body::Raw(Seq::empty()) },
        JsJson::Null => t == T { tag: 3, body: Body::Raw(Seq::empty()) },
        JsJson::String(s) => t == T { tag: 4, body: Body::Raw(lp(encode_utf8(s@))) } && encode_utf8(s@).len() < 0x1_0000_0000,
        JsJson::Number(f) => t == T { tag: 5, body: Body::Raw(f64b(f)) },
        JsJson::List(l) => t.tag == 6 && match t.body {
            Body::List(ts) => ts.len() == l@.len() && ts.len() < 0x1_0000_0000 && forall|i: int| 0 <= i < ts.len() ==> repj(l@[i], #[trigger] ts[i]),
            _ => false,
        },
        JsJson::Object(m) => t.tag == 7 && match t.body {
            Body::Obj(ps) => ps.len() == m@.len() && ps.len() <= 65535 && distinct_keys(ps)
                && forall|i: int| 0 <= i < ps.len() ==> reppj(m@, #[trigger] ps[i]),
            _ => false,
        },
    }
}
pub open spec fn reppj(m: Map<String, JsJson>, p: Pair) -> bool
    decreases p,
{
    &&& m.contains_key(st(p.key)) && st(p.key)@ == p.key
    &&& encode_utf8(p.key).len() < 0x1_0000_0000
    &&& repj(m[st(p.key)], p.val)
}
pub proof fn lemma_repj_ok(j: JsJson, t: T)
    requires repj(j, t),
    ensures okt(t, K::J),
    decreases t,
{
    match j {
        JsJson::String(s) => { encode_utf8_valid_utf8(s@); assert(exists|x: Seq<u8>| t.body->Raw_0 == #[trigger] lp(x) && x.len() < 0x1_0000_0000 && valid_utf8(x)); }
        JsJson::Number(f) => { axiom_f64_len(f); assert(shape(K::J, 5) == 8); }
        JsJson::List(l) => {
            let ts = t.body->List_0;
            assert forall|i: int| 0 <= i < ts.len() implies okt(#[trigger] ts[i], K::J) by { lemma_repj_ok(l@[i], ts[i]); }
            assert(okt(t, K::J));
        }
        JsJson::Object(m) => {
            let ps = t.body->Obj_0;
            assert forall|i: int| 0 <= i < ps.len() implies okp(#[trigger] ps[i], K::J) by {
                assert(reppj(m@, ps[i]));
                lemma_repj_ok(m@[st(ps[i].key)], ps[i].val);
            }
        }
        _ => {}
    }
}

// size of the encoding, in any order
pub open spec fn sizej(j: JsJson) -> nat
    decreases j, 0nat,
{
    match j {
        JsJson::True | JsJson::False | JsJson::Null => 1,
        JsJson::String(s) => 5 + encode_utf8(s@).len(),
        JsJson::Number(f) => 9,
        JsJson::List(l) => 5 + sumj(l@),
        JsJson::Object(m) => 3 + psum(keyseq(m@.dom()), entf(m@)),
    }
}
pub open spec fn sumj(l: Seq<JsJson>) -> nat
    decreases l, 0nat,
{
    if l.len() == 0 { 0 } else { sumj(l.drop_last()) + sizej(l.last()) }
}
pub open spec fn entf(m: Map<String, JsJson>) -> spec_fn(String) -> nat
    decreases m, 1nat,
{
    |k: String| entj(m, k)
}
pub open spec fn entj(m: Map<String, JsJson>, k: String) -> nat
    decreases m, 0nat,
{
    4 + encode_utf8(k@).len() + if m.contains_key(k) { sizej(m[k]) } else { 0 }
}
// encodable: object sizes fit the 16-bit count
pub open spec fn wfj(j: JsJson) -> bool
    decreases j,
{
    match j {
        JsJson::List(l) => forall|i: int| 0 <= i < l@.len() ==> wfj(#[trigger] l@[i]),
        JsJson::Object(m) => m@.len() <= 65535 && forall|k: String| #[trigger] m@.contains_key(k) ==> wfj(m@[k]),
        _ => true,
    }
}
pub proof fn lemma_sumj_take(l: Seq<JsJson>, i: int)
    requires 0 <= i <= l.len(),
    ensures sumj(l.take(i)) <= sumj(l),
        i < l.len() ==> sumj(l.take(i + 1)) == sumj(l.take(i)) + sizej(l[i]) && sumj(l.take(i + 1)) <= sumj(l),
        l.len() <= sumj(l),
    decreases l.len() - i,
{
    if i < l.len() {
        lemma_sumj_take(l, i + 1);
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        assert(l.take(i + 1).last() == l[i]);
    } else {
        assert(l.take(i) =~= l);
        lemma_sumj_len(l);
    }
}
proof fn lemma_sumj_len(l: Seq<JsJson>)
    ensures l.len() <= sumj(l),
    decreases l.len(),
{
    if l.len() > 0 { lemma_sumj_len(l.drop_last()); lemma_sizej_pos(l.last()); }
}
proof fn lemma_sizej_pos(j: JsJson)
    ensures sizej(j) >= 1,
{}

impl JsJson {
//@item impl JsJson :: fn get_size
    «#[verifier::exec_allows_no_decreases_clause] pub»
    pub fn get_size(&self) -> «(r:» u32 «)
        requires sizej(*self) <= u32::MAX,
        ensures r == sizej(*self),»
    {
        match self {
            Self::True => PARAM_TYPE,
            Self::False => PARAM_TYPE,
            Self::Null => PARAM_TYPE,

            Self::String(value) => PARAM_TYPE + STRING_SIZE + Self::get_string_size(value),
            Self::Number(..) => PARAM_TYPE + 8,
            Self::List(items) => {
                let mut sum = PARAM_TYPE + LIST_COUNT;

                for param in «it:» items
                    «invariant sizej(*self) <= u32::MAX, sizej(*self) == 5 + sumj(items@), it.seq().unref() == items@,
                        sum == 5 + sumj(items@.take(it.index@ as int)),»
                {
                    «proof { lemma_sumj_take(items@, it.index@ as int); assert(it.seq().unref()[it.index@ as int] == *param); }»
                    sum += param.get_size();
                }

                «proof { assert(items@.take(items@.len() as int) =~= items@); assert(sum == sizej(*self)); }»
                sum
            }
            Self::Object(map) => {
                let mut sum = PARAM_TYPE + OBJECT_COUNT;

                «let ghost f = entf(map@);
                proof {
                    assert(psum(Seq::<String>::empty(), f) == 0);
                    if map@.dom().len() == 0 { lemma_enum_empty(map@.dom()); lemma_psum_keyseq(Seq::<String>::empty(), map@.dom(), f); }
                }»
                for (key, value) in «it:» ⟦map⇒vx_entries(map)⟧
                    «invariant sizej(*self) <= u32::MAX, *self == JsJson::Object(*map), f == entf(map@),
                        sizej(*self) == 3 + psum(keyseq(map@.dom()), f), iterates(it.seq(), map@),
                        sum == 3 + psum(keys_of(it.seq()).take(it.index@ as int), f), it.index@ == it.seq().len() ==> sum == sizej(*self),»
                {
                    «proof {
                        let ks = keys_of(it.seq());
                        lemma_psum_keyseq(ks, map@.dom(), f);
                        lemma_psum_take(ks, it.index@ as int, f);
                        assert(it.seq()[it.index@ as int] == (key, value));
                        assert(f(*key) == 4 + encode_utf8(key@).len() + sizej(*value));
                        assert(ks.take(ks.len() as int) =~= ks);
                    }»
                    sum += STRING_SIZE + Self::get_string_size(key);
                    sum += value.get_size();
                }

                sum
            }
        }
    }
//@end
//@item impl JsJson :: fn get_string_size
    fn get_string_size(value: &str) -> «(r:» u32 «)
        requires encode_utf8(value@).len() <= u32::MAX,
        ensures r == encode_utf8(value@).len(),»
    {
        value.as_bytes().len() as u32
    }
//@end
}

// what writing j after w leaves: one encoding of j behind w
pub open spec fn wroj(j: JsJson, w: Seq<u8>, w2: Seq<u8>, t: T) -> bool {
    repj(j, t) && w2 == w + enc(t) && enc(t).len() == sizej(j)
}
//@item fn write_string_to
fn write_string_to(value: &str, buff: &mut MemoryBlockWrite)
    «requires old(buff).wf(), old(buff).written().len() + 4 + encode_utf8(value@).len() <= old(buff).cap(),
    ensures final(buff).wf(), final(buff).cap() == old(buff).cap(), final(buff).written() == old(buff).written() + lp(encode_utf8(value@)),»
{
    let data = value.as_bytes();
    «proof { old(buff).lemma_wf(); }»
    buff.write_u32(data.len() as u32);
    buff.write(data);
    «proof { assert(buff.written() =~= old(buff).written() + lp(encode_utf8(value@))); }»
}
//@end
impl JsJson {
//@item impl JsJson :: fn write_to
    «#[verifier::exec_allows_no_decreases_clause]
    #[verifier::rlimit(40)] pub»
    pub fn write_to(&self, buff: &mut MemoryBlockWrite)
        «requires old(buff).wf(), wfj(*self), old(buff).written().len() + sizej(*self) <= old(buff).cap(),
        ensures final(buff).wf(), final(buff).cap() == old(buff).cap(),
            exists|t: T| #[trigger] wroj(*self, old(buff).written(), final(buff).written(), t),»
    {
        «let ghost w0 = buff.written();
        proof { old(buff).lemma_wf(); }»
        match self {
            Self::True => {
                buff.write_u8(JsJsonConst::True);
                «proof { lemma_wroj_raw(*self, w0, buff.written(), 1, Seq::empty()); }»
            }
            Self::False => {
                buff.write_u8(JsJsonConst::False);
                «proof { lemma_wroj_raw(*self, w0, buff.written(), 2, Seq::empty()); }»
            }
            Self::Null => {
                buff.write_u8(JsJsonConst::Null);
                «proof { lemma_wroj_raw(*self, w0, buff.written(), 3, Seq::empty()); }»
            }
            Self::String(value) => {
                buff.write_u8(JsJsonConst::String);
                write_string_to(value.as_str(), buff);
                «proof { lemma_wroj_raw(*self, w0, buff.written(), 4, lp(encode_utf8(value@))); }»
            }
            Self::Number(value) => {
                buff.write_u8(JsJsonConst::Number);
                buff.write_f64(*value);
                «proof { axiom_f64_len(*value); lemma_wroj_raw(*self, w0, buff.written(), 5, f64b(*value)); }»
            }
            Self::List(list) => {
                «proof { lemma_sumj_take(list@, 0); }»
                buff.write_u8(JsJsonConst::List);
                buff.write_u32(list.len() as u32);
                «let ghost w1 = buff.written();
                let ghost mut ts: Seq<T> = Seq::empty();
                proof { assert(list@.take(0) =~= Seq::<JsJson>::empty()); }»

                for param in «it:» list
                    «invariant buff.wf(), buff.cap() == old(buff).cap() <= u32::MAX, it.seq().unref() == list@, *self == JsJson::List(*list), wfj(*self),
                        w1.len() + sumj(list@) <= buff.cap(),
                        ts.len() == it.index@, buff.written() == w1 + enc_list(ts), enc_list(ts).len() == sumj(list@.take(it.index@ as int)),
                        forall|i: int| 0 <= i < ts.len() ==> repj(list@[i], #[trigger] ts[i]),»
                {
                    «let ghost wi = buff.written();
                    proof { lemma_sumj_take(list@, it.index@ as int); assert(it.seq().unref()[it.index@ as int] == *param); assert(0 <= it.index@ < list@.len()); assert(list@[it.index@ as int] == *param); lemma_wfj_item(*self, it.index@ as int); }»
                    param.write_to(buff);
                    «proof {
                        let t = choose|t: T| #[trigger] wroj(*param, wi, buff.written(), t);
                        let ts2 = ts.push(t);
                        assert(ts2.drop_last() =~= ts);
                        assert(w1 + enc_list(ts2) =~= wi + enc(t));
                        ts = ts2;
                    }»
                }
                «proof {
                    assert(list@.take(list@.len() as int) =~= list@);
                    let t = T { tag: 6, body: Body::List(ts) };
                    assert(w0 + enc(t) =~= buff.written());
                    assert(wroj(*self, w0, buff.written(), t));
                }»
            }
            Self::Object(map) => {
                buff.write_u8(JsJsonConst::Object);
                buff.write_u16(map.len() as u16);
                «let ghost w1 = buff.written();
                let ghost mut ps: Seq<Pair> = Seq::empty();
                let ghost f = entf(map@);
                let ghost mut kz: Seq<String> = Seq::empty();
                proof { assert(psum(Seq::<String>::empty(), f) == 0); if map@.dom().len() == 0 { lemma_enum_empty(map@.dom()); } }»

                for (key, value) in «it:» ⟦map⇒vx_entries(map)⟧
                    «invariant buff.wf(), buff.cap() == old(buff).cap() <= u32::MAX, *self == JsJson::Object(*map), wfj(*self), f == entf(map@),
                        iterates(it.seq(), map@), w1.len() + psum(keyseq(map@.dom()), f) <= buff.cap(),
                        kz == keys_of(it.seq()).take(it.index@ as int), it.index@ == it.seq().len() ==> enumerates(kz, map@.dom()),
                        ps.len() == it.index@, buff.written() == w1 + enc_obj(ps), enc_obj(ps).len() == psum(kz, f),
                        forall|i: int| 0 <= i < ps.len() ==> reppj(map@, #[trigger] ps[i]) && ps[i].key == kz[i]@,»
                {
                    «let ghost wi = buff.written();
                    let ghost ks = keys_of(it.seq());
                    proof {
                        lemma_psum_keyseq(ks, map@.dom(), f);
                        lemma_psum_take(ks, it.index@ as int, f);
                        assert(it.seq()[it.index@ as int] == (key, value));
                        assert(f(*key) == 4 + encode_utf8(key@).len() + sizej(*value));
                        assert(wfj(map@[*key]));
                        assert(st(key@) == *key);
                        assert(kz.push(*key) =~= ks.take(it.index@ + 1));
                        assert(it.index@ + 1 == ks.len() ==> kz.push(*key) =~= ks);
                    }
                    proof { kz = kz.push(*key); }»
                    write_string_to(key.as_str(), buff);
                    «let ghost wj = buff.written();»
                    value.write_to(buff);
                    «proof {
                        let t = choose|t: T| #[trigger] wroj(*value, wj, buff.written(), t);
                        let p = Pair { key: key@, val: t };
                        let ps2 = ps.push(p);
                        assert(ps2.drop_last() =~= ps);
                        assert(w1 + enc_obj(ps2) =~= wj + enc(t));
                        assert(reppj(map@, p));
                        ps = ps2;
                    }»
                }
                «proof {
                    let ks = kz;
                    lemma_distinct(map@, ps, ks);
                    lemma_psum_keyseq(ks, map@.dom(), f);
                    assert(ks.take(ks.len() as int) =~= ks);
                    let t = T { tag: 7, body: Body::Obj(ps) };
                    assert(w0 + enc(t) =~= buff.written());
                    assert(wroj(*self, w0, buff.written(), t));
                }»
            }
        }
    }
//@end
}
proof fn lemma_wfj_item(j: JsJson, i: int)
    requires wfj(j), j is List, 0 <= i < j->List_0@.len(),
    ensures wfj(j->List_0@[i]),
{
    let l = j->List_0;
    assert(j == JsJson::List(l));
    let x = l@[i];
    assert(wfj(l@[i]));
}
pub proof fn lemma_wroj_raw(j: JsJson, w: Seq<u8>, w2: Seq<u8>, tag: u8, b: Seq<u8>)
    requires w2 =~= w.push(tag) + b, repj(j, T { tag, body: Body::Raw(b) }), 1 + b.len() == sizej(j),
    ensures exists|t: T| #[trigger] wroj(j, w, w2, t),
{
    let t = T { tag, body: Body::Raw(b) };
    assert(w + enc(t) =~= w2);
    assert(wroj(j, w, w2, t));
}
proof fn lemma_enum_empty(d: Set<String>)
    requires d.len() == 0,
    ensures enumerates(Seq::<String>::empty(), d),
{
    assert(Seq::<String>::empty().to_set() =~= d);
}
proof fn lemma_distinct(m: Map<String, JsJson>, ps: Seq<Pair>, ks: Seq<String>)
    requires ks.len() == ps.len(), ks.no_duplicates(),
        forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).key == ks[i]@,
    ensures distinct_keys(ps),
{
    assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies (#[trigger] ps[i]).key != (#[trigger] ps[j]).key by {
        if ps[i].key == ps[j].key { assert(st(ks[i]@) == ks[i]); assert(st(ks[j]@) == ks[j]); assert(ks[i] == ks[j]); }
    }
}

//@item fn decode_js_json_inner
«#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(60)] pub»
pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> «(r:» Result<JsJson, String> «)
    requires old(buffer).wf(), readable(old(buffer).rest(), K::J),
    ensures r is Ok, repj(r->Ok_0, front(old(buffer).rest(), K::J)), final(buffer).adv(*old(buffer), frontn(old(buffer).rest(), K::J) as int),
        frontn(old(buffer).rest(), K::J) <= old(buffer).rest().len(),»
{
    «let ghost b = buffer.rest();
    let ghost t = front(b, K::J);
    proof { buffer.lemma_wf(); lemma_parse_len(b, K::J); }»
    let type_param = buffer.get_byte();

    let Some(type_param) = JsJsonConst::from_byte(type_param) else {
        return Err(⟦format!("JsJson: Unknown data type prefix {type_param}")⇒vx_string()⟧);
    };
    «proof { assert(jtag(type_param) == t.tag); if t.tag == 4 { assert(b.skip(1).take(4) =~= b.subrange(1, 5)); } }»

    let result = match type_param {
        JsJsonConst::True => JsJson::True,
        JsJsonConst::False => JsJson::False,
        JsJsonConst::Null => JsJson::Null,
        JsJsonConst::String => {
            let str_len = buffer.get_u32();
            «proof { assert(buffer.rest() =~= b.skip(5)); assert(b.skip(5).take(str_len as int) =~= b.subrange(5, 5 + str_len)); }»
            let param = buffer.get_string(str_len)?;
            «proof { lemma_unbe(b.subrange(1, 5)); assert(b.subrange(1, 5 + str_len) =~= b.subrange(1, 5) + b.subrange(5, 5 + str_len)); }»
            «proof { assert(t.body->Raw_0 == lp(encode_utf8(param@))); assert(repj(JsJson::String(param), t)); }»
            JsJson::String(param)
        }
        JsJsonConst::Number => {
            let value = buffer.get_f64();
            «proof { assert(b.skip(1).take(8) =~= b.subrange(1, 9)); }»
            «proof { assert(t.body->Raw_0 == f64b(value)); assert(repj(JsJson::Number(value), t)); }»
            JsJson::Number(value)
        }
        JsJsonConst::List => {
            let mut param_list = Vec::new();

            «proof { assert(b.skip(1).take(4) =~= b.subrange(1, 5)); }»
            let list_size = buffer.get_u32();
            «let ghost b5 = b.skip(5);
            let ghost l = t.body->List_0;
            let ghost mut m: nat = 0;
            proof { assert(buffer.rest() =~= b5); lemma_parse_list_prefix(b5, list_size as nat, 0, K::J); assert(b5.skip(0) =~= b5); }»

            for _ in «it:» 0..list_size
                «invariant buffer.wf(), it.seq().len() == list_size, l.len() == list_size, param_list@.len() == it.index@, it.index@ <= list_size,
                    parse_list(b5, list_size as nat, K::J) is Some, parse_list(b5, list_size as nat, K::J).unwrap().0 == l,
                    forall|i: int| 0 <= i < l.len() ==> okt(#[trigger] l[i], K::J),
                    parse_list(b5, it.index@ as nat, K::J) is Some, parse_list(b5, it.index@ as nat, K::J).unwrap().1 == m, m <= b5.len(),
                    buffer.rest() == b5.skip(m as int),
                    forall|i: int| 0 <= i < param_list@.len() ==> repj(param_list@[i], #[trigger] l[i]),»
            {
                «proof {
                    let i = it.index@;
                    lemma_parse_list_prefix(b5, list_size as nat, (i + 1) as nat, K::J);
                    lemma_parse_list_prefix(b5, list_size as nat, i as nat, K::J);
                    assert(l.take(i + 1).last() == l[i as int]);
                    assert(parse_list(b5, (i + 1) as nat, K::J).unwrap().0.last() == front(b5.skip(m as int), K::J));
                }
                let ghost q = frontn(b5.skip(m as int), K::J);»
                let param = decode_js_json_inner(buffer)?;
                param_list.push(param);
                «proof {
                    assert(b5.skip(m as int).skip(q as int) =~= b5.skip((m + q) as int));
                    m = m + q;
                }»
            }

            «proof { assert(m == frontn(b, K::J) - 5); assert(repj(JsJson::List(param_list), t)); }»
            JsJson::List(param_list)
        }
        JsJsonConst::Object => {
            let mut props = HashMap::new();
            «proof { assert(b.skip(1).take(2) =~= b.subrange(1, 3)); }»
            let object_size = buffer.get_u16();
            «let ghost b3 = b.skip(3);
            let ghost l = t.body->Obj_0;
            let ghost mut m: int = 0;
            proof { assert(buffer.rest() =~= b3); lemma_parse_obj_prefix(b3, object_size as nat, 0, K::J); assert(b3.skip(0) =~= b3); }»

            for _ in «it:» 0..object_size
                «invariant buffer.wf(), it.seq().len() == object_size, l.len() == object_size, props@.len() == it.index@, it.index@ <= object_size,
                    parse_obj(b3, object_size as nat, K::J) is Some, parse_obj(b3, object_size as nat, K::J).unwrap().0 == l,
                    distinct_keys(l), forall|i: int| 0 <= i < l.len() ==> okp(#[trigger] l[i], K::J),
                    parse_obj(b3, it.index@ as nat, K::J) is Some, parse_obj(b3, it.index@ as nat, K::J).unwrap().1 == m, 0 <= m <= b3.len(),
                    buffer.rest() == b3.skip(m),
                    forall|i: int| 0 <= i < it.index@ ==> reppj(props@, #[trigger] l[i]),
                    forall|k: String| props@.contains_key(k) ==> exists|i: int| 0 <= i < it.index@ && (#[trigger] l[i]).key == k@,»
            {
                «let ghost i = it.index@ as int;
                let ghost r0 = b3.skip(m);
                let ghost p0 = props@;
                proof {
                    lemma_parse_obj_prefix(b3, object_size as nat, (i + 1) as nat, K::J);
                    lemma_parse_obj_prefix(b3, object_size as nat, i as nat, K::J);
                    assert(l.take(i + 1).last() == l[i]);
                    assert(r0.take(4) =~= b3.subrange(m, m + 4));
                }»
                let str_len = buffer.get_u32();
                «let ghost n = str_len as int;
                proof {
                    assert(r0.skip(4).take(n) =~= b3.subrange(m + 4, m + 4 + n));
                }»
                let prop_name = buffer.get_string(str_len)?;
                «proof {
                    assert(r0.skip(4).skip(n) =~= b3.skip(m + 4 + n));
                    encode_utf8_decode_utf8(prop_name@);
                    assert(l[i].key == prop_name@);
                    assert(okp(l[i], K::J));
                }
                let ghost q = frontn(b3.skip(m + 4 + n), K::J) as int;»

                let prop_value = decode_js_json_inner(buffer)?;
                props.insert(prop_name, prop_value);
                «proof {
                    assert(b3.skip(m + 4 + n).skip(q) =~= b3.skip(m + 4 + n + q));
                    m = m + 4 + n + q;
                    assert(st(prop_name@) == prop_name);
                    assert(reppj(props@, l[i]));
                    assert(!p0.contains_key(prop_name));
                    assert forall|j: int| 0 <= j < i implies reppj(props@, #[trigger] l[j]) by {
                        assert(reppj(p0, l[j]));
                        assert(l[j].key != l[i].key);
                    }
                    assert forall|k: String| props@.contains_key(k) implies exists|j: int| 0 <= j < i + 1 && (#[trigger] l[j]).key == k@ by {
                        if k == prop_name { assert(l[i].key == k@); } else { assert(p0.contains_key(k)); }
                    }
                }»
            }

            «proof { assert(m == frontn(b, K::J) - 3); assert(repj(JsJson::Object(props), t)); }»
            JsJson::Object(props)
        }
    };

    «proof { assert(b.subrange(1, 1) =~= Seq::<u8>::empty()); assert(buffer.rest() =~= b.skip(frontn(b, K::J) as int)); assert(repj(result, t)); }»
    Ok(result)
}
//@end
}

//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
mod js_value {
use super::*;
use super::js_json::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::vec::group_vec_axioms, bel::lemma_be_len, ax::axiom_string_ext, ax::axiom_string_key, ax::axiom_f64_len};

//@item const PARAM_TYPE
const PARAM_TYPE: u32 = 1;
//@end
//@item const STRING_SIZE
const STRING_SIZE: u32 = 4;
//@end
//@item const VEC_SIZE
const VEC_SIZE: u32 = 4;
//@end
//@item const LIST_COUNT
const LIST_COUNT: u32 = 4;
//@end
//@item const OBJECT_COUNT
const OBJECT_COUNT: u32 = 2;
//@end

//@item enum JsValueConst
«pub» enum JsValueConst {
    U32 = 1,
    I32 = 2,
    U64 = 3,
    I64 = 4,
    F64 = 5,

    True = 6,
    False = 7,
    Null = 8,
    Undefined = 9,

    Vec = 10,
    String = 11,
    List = 12,
    Object = 13,
    Json = 14,
}
//@end
pub open spec fn vtag(c: JsValueConst) -> u8 {
    match c {
        JsValueConst::U32 => 1, JsValueConst::I32 => 2, JsValueConst::U64 => 3, JsValueConst::I64 => 4, JsValueConst::F64 => 5,
        JsValueConst::True => 6, JsValueConst::False => 7, JsValueConst::Null => 8, JsValueConst::Undefined => 9,
        JsValueConst::Vec => 10, JsValueConst::String => 11, JsValueConst::List => 12, JsValueConst::Object => 13, JsValueConst::Json => 14,
    }
}
impl JsValueConst {
//@item impl JsValueConst :: fn from_byte
    fn from_byte(byte: u8) -> «(r:» Option<JsValueConst> «)
        ensures match r { Some(c) => vtag(c) == byte, None => byte == 0 || byte > 14 },»
    {
        match byte {
            1 => Some(JsValueConst::U32),
            2 => Some(JsValueConst::I32),
            3 => Some(JsValueConst::U64),
            4 => Some(JsValueConst::I64),
            5 => Some(JsValueConst::F64),
            6 => Some(JsValueConst::True),
            7 => Some(JsValueConst::False),
            8 => Some(JsValueConst::Null),
            9 => Some(JsValueConst::Undefined),
            10 => Some(JsValueConst::Vec),
            11 => Some(JsValueConst::String),
            12 => Some(JsValueConst::List),
            13 => Some(JsValueConst::Object),
            14 => Some(JsValueConst::Json),
            _ => None,
        }
    }
//@end
}
impl FromSpecImpl<JsValueConst> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: JsValueConst) -> u8 { vtag(v) }
}
impl From<JsValueConst> for u8 {
//@item impl From for u8 :: fn from
    fn from(value: JsValueConst) -> Self {
        value as u8
    }
//@end
}

//@item enum JsValue
«pub» enum JsValue {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F64(f64),

    True,
    False,
    Null,
    Undefined,

    Vec(Vec<u8>),       // type, length, sequence of bytes
    String(String),     // type, length, sequence of chars
    List(Vec<JsValue>), // type, length
    Object(HashMap<String, JsValue>),

    Json(JsJson),
}
//@end

// the tree t is an encoding of the value j (objects list their entries in any order)
pub open spec fn repv(j: JsValue, t: T) -> bool
    decreases t,
{
    match j {
        JsValue::U32(x) => t == T { tag: 1, body: Body::Raw(be(x as nat, 4)) },
        JsValue::I32(x) => t == T { tag: 2, body: Body::Raw(be(x as u32 as nat, 4)) },
        JsValue::U64(x) => t == T { tag: 3, body: Body::Raw(be(x as nat, 8)) },
        JsValue::I64(x) => t == T { tag: 4, body: Body::Raw(be(x as u64 as nat, 8)) },
        JsValue::F64(f) => t == T { tag: 5, body: Body::Raw(f64b(f)) },
        JsValue::True => t == T { tag: 6, body: Body::Raw(Seq::empty()) },
        JsValue::False => t == T { tag: 7, body: Body::Raw(Seq::empty()) },
        JsValue::Null => t == T { tag: 8, body: Body::Raw(Seq::empty()) },
        JsValue::Undefined => t == T { tag: 9, body: Body::Raw(Seq::empty()) },
        JsValue::Vec(b) => t == T { tag: 10, body: Body::Raw(lp(b@)) } && b@.len() < 0x1_0000_0000,
        JsValue::String(s) => t == T { tag: 11, body: Body::Raw(lp(encode_utf8(s@))) } && encode_utf8(s@).len() < 0x1_0000_0000,
        JsValue::Json(x) => t.tag == 14 && match t.body { Body::Sub(u) => repj(x, *u), _ => false },
        JsValue::List(l) => t.tag == 12 && match t.body {
            Body::List(ts) => ts.len() == l@.len() && ts.len() < 0x1_0000_0000 && forall|i: int| 0 <= i < ts.len() ==> repv(l@[i], #[trigger] ts[i]),
            _ => false,
        },
        JsValue::Object(m) => t.tag == 13 && match t.body {
            Body::Obj(ps) => ps.len() == m@.len() && ps.len() <= 65535 && distinct_keys(ps)
                && forall|i: int| 0 <= i < ps.len() ==> reppv(m@, #[trigger] ps[i]),
            _ => false,
        },
    }
}
pub open spec fn reppv(m: Map<String, JsValue>, p: Pair) -> bool
    decreases p,
{
    &&& m.contains_key(st(p.key)) && st(p.key)@ == p.key
    &&& encode_utf8(p.key).len() < 0x1_0000_0000
    &&& repv(m[st(p.key)], p.val)
}
pub proof fn lemma_repv_ok(j: JsValue, t: T)
    requires repv(j, t),
    ensures okt(t, K::V),
    decreases t,
{
    match j {
        JsValue::String(s) => { encode_utf8_valid_utf8(s@); assert(exists|x: Seq<u8>| t.body->Raw_0 == #[trigger] lp(x) && x.len() < 0x1_0000_0000 && valid_utf8(x)); }
        JsValue::F64(f) => { axiom_f64_len(f); }
        JsValue::Vec(b) => { assert(exists|x: Seq<u8>| t.body->Raw_0 == #[trigger] lp(x) && x.len() < 0x1_0000_0000); }
        JsValue::Json(x) => { lemma_repj_ok(x, *t.body->Sub_0); }
        JsValue::List(l) => {
            let ts = t.body->List_0;
            assert forall|i: int| 0 <= i < ts.len() implies okt(#[trigger] ts[i], K::V) by { lemma_repv_ok(l@[i], ts[i]); }
            assert(okt(t, K::V));
        }
        JsValue::Object(m) => {
            let ps = t.body->Obj_0;
            assert forall|i: int| 0 <= i < ps.len() implies okp(#[trigger] ps[i], K::V) by {
                assert(reppv(m@, ps[i]));
                lemma_repv_ok(m@[st(ps[i].key)], ps[i].val);
            }
        }
        _ => {}
    }
}

// size of the encoding, in any order
pub open spec fn sizev(j: JsValue) -> nat
    decreases j, 0nat,
{
    match j {
        JsValue::True | JsValue::False | JsValue::Null | JsValue::Undefined => 1,
        JsValue::U32(_) | JsValue::I32(_) => 5,
        JsValue::U64(_) | JsValue::I64(_) | JsValue::F64(_) => 9,
        JsValue::Vec(b) => 5 + b@.len(),
        JsValue::Json(x) => 1 + sizej(x),
        JsValue::String(s) => 5 + encode_utf8(s@).len(),
        JsValue::List(l) => 5 + sumv(l@),
        JsValue::Object(m) => 3 + psum(keyseq(m@.dom()), entvf(m@)),
    }
}
pub open spec fn sumv(l: Seq<JsValue>) -> nat
    decreases l, 0nat,
{
    if l.len() == 0 { 0 } else { sumv(l.drop_last()) + sizev(l.last()) }
}
pub open spec fn entvf(m: Map<String, JsValue>) -> spec_fn(String) -> nat
    decreases m, 1nat,
{
    |k: String| entv(m, k)
}
pub open spec fn entv(m: Map<String, JsValue>, k: String) -> nat
    decreases m, 0nat,
{
    4 + encode_utf8(k@).len() + if m.contains_key(k) { sizev(m[k]) } else { 0 }
}
// encodable: object sizes fit the 16-bit count
pub open spec fn wfv(j: JsValue) -> bool
    decreases j,
{
    match j {
        JsValue::List(l) => forall|i: int| 0 <= i < l@.len() ==> wfv(#[trigger] l@[i]),
        JsValue::Object(m) => m@.len() <= 65535 && forall|k: String| #[trigger] m@.contains_key(k) ==> wfv(m@[k]),
        JsValue::Json(x) => wfj(x),
        _ => true,
    }
}
pub proof fn lemma_sumv_take(l: Seq<JsValue>, i: int)
    requires 0 <= i <= l.len(),
    ensures sumv(l.take(i)) <= sumv(l),
        i < l.len() ==> sumv(l.take(i + 1)) == sumv(l.take(i)) + sizev(l[i]) && sumv(l.take(i + 1)) <= sumv(l),
        l.len() <= sumv(l),
    decreases l.len() - i,
{
    if i < l.len() {
        lemma_sumv_take(l, i + 1);
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        assert(l.take(i + 1).last() == l[i]);
    } else {
        assert(l.take(i) =~= l);
        lemma_sumv_len(l);
    }
}
proof fn lemma_sumv_len(l: Seq<JsValue>)
    ensures l.len() <= sumv(l),
    decreases l.len(),
{
    if l.len() > 0 { lemma_sumv_len(l.drop_last()); lemma_sizev_pos(l.last()); }
}
proof fn lemma_sizev_pos(j: JsValue)
    ensures sizev(j) >= 1,
{}

impl JsValue {
//@item impl JsValue :: fn get_size
    «#[verifier::exec_allows_no_decreases_clause]»
    pub fn get_size(&self) -> «(r:» u32 «)
        requires sizev(*self) <= u32::MAX,
        ensures r == sizev(*self),»
    {
        match self {
            Self::U32(_) => PARAM_TYPE + 4,
            Self::I32(_) => PARAM_TYPE + 4,
            Self::U64(_) => PARAM_TYPE + 8,
            Self::I64(_) => PARAM_TYPE + 8,
            Self::F64(_) => PARAM_TYPE + 8,

            Self::True => PARAM_TYPE,
            Self::False => PARAM_TYPE,
            Self::Null => PARAM_TYPE,
            Self::Undefined => PARAM_TYPE,

            Self::Vec(value) => PARAM_TYPE + VEC_SIZE + value.len() as u32,
            Self::String(value) => PARAM_TYPE + STRING_SIZE + JsValue::get_string_size(value),
            Self::List(items) => {
                let mut sum = PARAM_TYPE + LIST_COUNT;

                for param in «it:» items
                    «invariant sizev(*self) <= u32::MAX, sizev(*self) == 5 + sumv(items@), it.seq().unref() == items@,
                        sum == 5 + sumv(items@.take(it.index@ as int)),»
                {
                    «proof { lemma_sumv_take(items@, it.index@ as int); assert(it.seq().unref()[it.index@ as int] == *param); }»
                    sum += param.get_size();
                }

                «proof { assert(items@.take(items@.len() as int) =~= items@); assert(sum == sizev(*self)); }»
                sum
            }
            Self::Object(map) => {
                let mut sum = PARAM_TYPE + OBJECT_COUNT;

                «let ghost f = entvf(map@);
                proof {
                    assert(psum(Seq::<String>::empty(), f) == 0);
                    if map@.dom().len() == 0 { lemma_enum_empty_v(map@.dom()); lemma_psum_keyseq(Seq::<String>::empty(), map@.dom(), f); }
                }»
                for (key, value) in «it:» ⟦map⇒vx_entries(map)⟧
                    «invariant sizev(*self) <= u32::MAX, *self == JsValue::Object(*map), f == entvf(map@),
                        sizev(*self) == 3 + psum(keyseq(map@.dom()), f), iterates(it.seq(), map@),
                        sum == 3 + psum(keys_of(it.seq()).take(it.index@ as int), f), it.index@ == it.seq().len() ==> sum == sizev(*self),»
                {
                    «proof {
                        let ks = keys_of(it.seq());
                        lemma_psum_keyseq(ks, map@.dom(), f);
                        lemma_psum_take(ks, it.index@ as int, f);
                        assert(it.seq()[it.index@ as int] == (key, value));
                        assert(f(*key) == 4 + encode_utf8(key@).len() + sizev(*value));
                        assert(ks.take(ks.len() as int) =~= ks);
                    }»
                    sum += STRING_SIZE + Self::get_string_size(key);
                    sum += value.get_size();
                }

                sum
            }
            Self::Json(json) => PARAM_TYPE + json.get_size(),
        }
    }
//@end
//@item impl JsValue :: fn get_string_size
    fn get_string_size(value: &str) -> «(r:» u32 «)
        requires encode_utf8(value@).len() <= u32::MAX,
        ensures r == encode_utf8(value@).len(),»
    {
        value.as_bytes().len() as u32
    }
//@end
}

// what writing j after w leaves: one encoding of j behind w
pub open spec fn wrov(j: JsValue, w: Seq<u8>, w2: Seq<u8>, t: T) -> bool {
    repv(j, t) && w2 == w + enc(t) && enc(t).len() == sizev(j)
}
//@item fn write_string_to
fn write_string_to(value: &str, buff: &mut MemoryBlockWrite)
    «requires old(buff).wf(), old(buff).written().len() + 4 + encode_utf8(value@).len() <= old(buff).cap(),
    ensures final(buff).wf(), final(buff).cap() == old(buff).cap(), final(buff).written() == old(buff).written() + lp(encode_utf8(value@)),»
{
    let data = value.as_bytes();
    «proof { old(buff).lemma_wf(); }»
    buff.write_u32(data.len() as u32);
    buff.write(data);
    «proof { assert(buff.written() =~= old(buff).written() + lp(encode_utf8(value@))); }»
}
//@end
impl JsValue {
//@item impl JsValue :: fn write_to
    «#[verifier::exec_allows_no_decreases_clause]
    #[verifier::rlimit(40)]»
    pub fn write_to(&self, buff: &mut MemoryBlockWrite)
        «requires old(buff).wf(), wfv(*self), old(buff).written().len() + sizev(*self) <= old(buff).cap(),
        ensures final(buff).wf(), final(buff).cap() == old(buff).cap(),
            exists|t: T| #[trigger] wrov(*self, old(buff).written(), final(buff).written(), t),»
    {
        «let ghost w0 = buff.written();
        proof { old(buff).lemma_wf(); }»
        match self {
            Self::U32(value) => {
                buff.write_u8(JsValueConst::U32);
                buff.write_u32(*value);
                «proof { lemma_be_len(0, 0); lemma_wrov_raw(*self, w0, buff.written(), 1, be(*value as nat, 4)); }»
            }
            Self::I32(value) => {
                buff.write_u8(JsValueConst::I32);
                buff.write_i32(*value);
                «proof { lemma_be_len(0, 0); lemma_wrov_raw(*self, w0, buff.written(), 2, be(*value as u32 as nat, 4)); }»
            }
            Self::U64(value) => {
                buff.write_u8(JsValueConst::U64);
                buff.write_u64(*value);
                «proof { lemma_be_len(0, 0); lemma_wrov_raw(*self, w0, buff.written(), 3, be(*value as nat, 8)); }»
            }
            Self::I64(value) => {
                buff.write_u8(JsValueConst::I64);
                buff.write_i64(*value);
                «proof { lemma_be_len(0, 0); lemma_wrov_raw(*self, w0, buff.written(), 4, be(*value as u64 as nat, 8)); }»
            }
            Self::F64(value) => {
                buff.write_u8(JsValueConst::F64);
                buff.write_f64(*value);
                «proof { axiom_f64_len(*value); lemma_wrov_raw(*self, w0, buff.written(), 5, f64b(*value)); }»
            }
            Self::True => {
                buff.write_u8(JsValueConst::True);
                «proof { lemma_wrov_raw(*self, w0, buff.written(), 6, Seq::empty()); }»
            }
            Self::False => {
                buff.write_u8(JsValueConst::False);
                «proof { lemma_wrov_raw(*self, w0, buff.written(), 7, Seq::empty()); }»
            }
            Self::Null => {
                buff.write_u8(JsValueConst::Null);
                «proof { lemma_wrov_raw(*self, w0, buff.written(), 8, Seq::empty()); }»
            }
            Self::Undefined => {
                buff.write_u8(JsValueConst::Undefined);
                «proof { lemma_wrov_raw(*self, w0, buff.written(), 9, Seq::empty()); }»
            }
            Self::Vec(inner_buff) => {
                buff.write_u8(JsValueConst::Vec);
                let data = inner_buff.as_slice();
                buff.write_u32(data.len() as u32);
                buff.write(inner_buff.as_slice());
                «proof { lemma_wrov_raw(*self, w0, buff.written(), 10, lp(inner_buff@)); }»
            }
            Self::String(value) => {
                buff.write_u8(JsValueConst::String);
                write_string_to(value.as_str(), buff);
                «proof { lemma_wrov_raw(*self, w0, buff.written(), 11, lp(encode_utf8(value@))); }»
            }
            Self::List(list) => {
                «proof { lemma_sumv_take(list@, 0); }»
                buff.write_u8(JsValueConst::List);
                buff.write_u32(list.len() as u32);
                «let ghost w1 = buff.written();
                let ghost mut ts: Seq<T> = Seq::empty();
                proof { assert(list@.take(0) =~= Seq::<JsValue>::empty()); }»

                for param in «it:» list
                    «invariant buff.wf(), buff.cap() == old(buff).cap() <= u32::MAX, it.seq().unref() == list@, *self == JsValue::List(*list), wfv(*self),
                        w1.len() + sumv(list@) <= buff.cap(),
                        ts.len() == it.index@, buff.written() == w1 + enc_list(ts), enc_list(ts).len() == sumv(list@.take(it.index@ as int)),
                        forall|i: int| 0 <= i < ts.len() ==> repv(list@[i], #[trigger] ts[i]),»
                {
                    «let ghost wi = buff.written();
                    proof { lemma_sumv_take(list@, it.index@ as int); assert(it.seq().unref()[it.index@ as int] == *param); assert(0 <= it.index@ < list@.len()); assert(list@[it.index@ as int] == *param); lemma_wfv_item(*self, it.index@ as int); }»
                    param.write_to(buff);
                    «proof {
                        let t = choose|t: T| #[trigger] wrov(*param, wi, buff.written(), t);
                        let ts2 = ts.push(t);
                        assert(ts2.drop_last() =~= ts);
                        assert(w1 + enc_list(ts2) =~= wi + enc(t));
                        ts = ts2;
                    }»
                }
                «proof {
                    assert(list@.take(list@.len() as int) =~= list@);
                    let t = T { tag: 12, body: Body::List(ts) };
                    assert(w0 + enc(t) =~= buff.written());
                    assert(wrov(*self, w0, buff.written(), t));
                }»
            }
            Self::Object(map) => {
                buff.write_u8(JsValueConst::Object);
                buff.write_u16(map.len() as u16);
                «let ghost w1 = buff.written();
                let ghost mut ps: Seq<Pair> = Seq::empty();
                let ghost f = entvf(map@);
                let ghost mut kz: Seq<String> = Seq::empty();
                proof { assert(psum(Seq::<String>::empty(), f) == 0); if map@.dom().len() == 0 { lemma_enum_empty_v(map@.dom()); } }»

                for (key, value) in «it:» ⟦map⇒vx_entries(map)⟧
                    «invariant buff.wf(), buff.cap() == old(buff).cap() <= u32::MAX, *self == JsValue::Object(*map), wfv(*self), f == entvf(map@),
                        iterates(it.seq(), map@), w1.len() + psum(keyseq(map@.dom()), f) <= buff.cap(),
                        kz == keys_of(it.seq()).take(it.index@ as int), it.index@ == it.seq().len() ==> enumerates(kz, map@.dom()),
                        ps.len() == it.index@, buff.written() == w1 + enc_obj(ps), enc_obj(ps).len() == psum(kz, f),
                        forall|i: int| 0 <= i < ps.len() ==> reppv(map@, #[trigger] ps[i]) && ps[i].key == kz[i]@,»
                {
                    «let ghost wi = buff.written();
                    let ghost ks = keys_of(it.seq());
                    proof {
                        lemma_psum_keyseq(ks, map@.dom(), f);
                        lemma_psum_take(ks, it.index@ as int, f);
                        assert(it.seq()[it.index@ as int] == (key, value));
                        assert(f(*key) == 4 + encode_utf8(key@).len() + sizev(*value));
                        assert(wfv(map@[*key]));
                        assert(st(key@) == *key);
                        assert(kz.push(*key) =~= ks.take(it.index@ + 1));
                        assert(it.index@ + 1 == ks.len() ==> kz.push(*key) =~= ks);
                    }
                    proof { kz = kz.push(*key); }»
                    write_string_to(key.as_str(), buff);
                    «let ghost wj = buff.written();»
                    value.write_to(buff);
                    «proof {
                        let t = choose|t: T| #[trigger] wrov(*value, wj, buff.written(), t);
                        let p = Pair { key: key@, val: t };
                        let ps2 = ps.push(p);
                        assert(ps2.drop_last() =~= ps);
                        assert(w1 + enc_obj(ps2) =~= wj + enc(t));
                        assert(reppv(map@, p));
                        ps = ps2;
                    }»
                }
                «proof {
                    let ks = kz;
                    lemma_distinct_v(map@, ps, ks);
                    lemma_psum_keyseq(ks, map@.dom(), f);
                    assert(ks.take(ks.len() as int) =~= ks);
                    let t = T { tag: 13, body: Body::Obj(ps) };
                    assert(w0 + enc(t) =~= buff.written());
                    assert(wrov(*self, w0, buff.written(), t));
                }»
            }
            Self::Json(json) => {
                buff.write_u8(JsValueConst::Json);
                «let ghost w1 = buff.written();»
                json.write_to(buff);
                «proof {
                    let u = choose|u: T| #[trigger] wroj(*json, w1, buff.written(), u);
                    let t = T { tag: 14, body: Body::Sub(Box::new(u)) };
                    assert(w0 + enc(t) =~= buff.written());
                    assert(wrov(*self, w0, buff.written(), t));
                }»
            }
        }
    }
//@end
}
proof fn lemma_wfv_item(j: JsValue, i: int)
    requires wfv(j), j is List, 0 <= i < j->List_0@.len(),
    ensures wfv(j->List_0@[i]),
{
    let l = j->List_0;
    assert(j == JsValue::List(l));
    let x = l@[i];
    assert(wfv(l@[i]));
}
pub proof fn lemma_wrov_raw(j: JsValue, w: Seq<u8>, w2: Seq<u8>, tag: u8, b: Seq<u8>)
    requires w2 =~= w.push(tag) + b, repv(j, T { tag, body: Body::Raw(b) }), 1 + b.len() == sizev(j),
    ensures exists|t: T| #[trigger] wrov(j, w, w2, t),
{
    let t = T { tag, body: Body::Raw(b) };
    assert(w + enc(t) =~= w2);
    assert(wrov(j, w, w2, t));
}
proof fn lemma_enum_empty_v(d: Set<String>)
    requires d.len() == 0,
    ensures enumerates(Seq::<String>::empty(), d),
{
    assert(Seq::<String>::empty().to_set() =~= d);
}
proof fn lemma_distinct_v(m: Map<String, JsValue>, ps: Seq<Pair>, ks: Seq<String>)
    requires ks.len() == ps.len(), ks.no_duplicates(),
        forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).key == ks[i]@,
    ensures distinct_keys(ps),
{
    assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies (#[trigger] ps[i]).key != (#[trigger] ps[j]).key by {
        if ps[i].key == ps[j].key { assert(st(ks[i]@) == ks[i]); assert(st(ks[j]@) == ks[j]); assert(ks[i] == ks[j]); }
    }
}

//@item fn decode_js_value_inner
«#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(60)]»
pub fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> «(r:» Result<JsValue, String> «)
    requires old(buffer).wf(), readable(old(buffer).rest(), K::V),
    ensures r is Ok, repv(r->Ok_0, front(old(buffer).rest(), K::V)), final(buffer).adv(*old(buffer), frontn(old(buffer).rest(), K::V) as int),
        frontn(old(buffer).rest(), K::V) <= old(buffer).rest().len(),»
{
    «let ghost b = buffer.rest();
    let ghost t = front(b, K::V);
    proof { buffer.lemma_wf(); lemma_parse_len(b, K::V); }»
    let type_param = buffer.get_byte();

    let Some(type_param) = JsValueConst::from_byte(type_param) else {
        return Err(⟦format!("JsValue: Unknown data type prefix {type_param}")⇒vx_string()⟧);
    };
    «proof { assert(vtag(type_param) == t.tag); 
        if t.tag == 1 || t.tag == 2 || t.tag == 10 || t.tag == 11 { assert(b.skip(1).take(4) =~= b.subrange(1, 5)); lemma_unbe(b.subrange(1, 5)); }
        if t.tag == 3 || t.tag == 4 || t.tag == 5 { assert(b.skip(1).take(8) =~= b.subrange(1, 9)); lemma_unbe(b.subrange(1, 9)); }
     }»

    let result = match type_param {
        JsValueConst::U32 => {
            let value = buffer.get_u32();
            «proof { assert(repv(JsValue::U32(value), t)); }»
            JsValue::U32(value)
        }
        JsValueConst::I32 => {
            let value = buffer.get_i32();
            «proof { assert(repv(JsValue::I32(value), t)); }»
            JsValue::I32(value)
        }
        JsValueConst::U64 => {
            let value = buffer.get_u64();
            «proof { assert(repv(JsValue::U64(value), t)); }»
            JsValue::U64(value)
        }
        JsValueConst::I64 => {
            let value = buffer.get_i64();
            «proof { assert(repv(JsValue::I64(value), t)); }»
            JsValue::I64(value)
        }
        JsValueConst::F64 => {
            let value = buffer.get_f64();
            «proof { assert(repv(JsValue::F64(value), t)); }»
            JsValue::F64(value)
        }
        JsValueConst::True => JsValue::True,
        JsValueConst::False => JsValue::False,
        JsValueConst::Null => JsValue::Null,
        JsValueConst::Undefined => JsValue::Undefined,
        JsValueConst::Vec => {
            let len = buffer.get_u32();
            «proof { assert(buffer.rest() =~= b.skip(5)); assert(b.skip(5).take(len as int) =~= b.subrange(5, 5 + len)); }»
            let param = buffer.get_vec(len);
            «proof { assert(t.body->Raw_0 =~= lp(param@)); assert(repv(JsValue::Vec(param), t)); }»
            JsValue::Vec(param)
        }
        JsValueConst::String => {
            let str_len = buffer.get_u32();
            «proof { assert(buffer.rest() =~= b.skip(5)); assert(b.skip(5).take(str_len as int) =~= b.subrange(5, 5 + str_len)); }»
            let param = buffer.get_string(str_len)?;
            «proof { lemma_unbe(b.subrange(1, 5)); assert(b.subrange(1, 5 + str_len) =~= b.subrange(1, 5) + b.subrange(5, 5 + str_len)); }»
            «proof { assert(t.body->Raw_0 == lp(encode_utf8(param@))); assert(repv(JsValue::String(param), t)); }»
            JsValue::String(param)
        }
        JsValueConst::List => {
            let mut param_list = Vec::new();

            «proof { assert(b.skip(1).take(4) =~= b.subrange(1, 5)); }»
            let list_size = buffer.get_u32();
            «let ghost b5 = b.skip(5);
            let ghost l = t.body->List_0;
            let ghost mut m: nat = 0;
            proof { assert(buffer.rest() =~= b5); lemma_parse_list_prefix(b5, list_size as nat, 0, K::V); assert(b5.skip(0) =~= b5); }»

            for _ in «it:» 0..list_size
                «invariant buffer.wf(), it.seq().len() == list_size, l.len() == list_size, param_list@.len() == it.index@, it.index@ <= list_size,
                    parse_list(b5, list_size as nat, K::V) is Some, parse_list(b5, list_size as nat, K::V).unwrap().0 == l,
                    forall|i: int| 0 <= i < l.len() ==> okt(#[trigger] l[i], K::V),
                    parse_list(b5, it.index@ as nat, K::V) is Some, parse_list(b5, it.index@ as nat, K::V).unwrap().1 == m, m <= b5.len(),
                    buffer.rest() == b5.skip(m as int),
                    forall|i: int| 0 <= i < param_list@.len() ==> repv(param_list@[i], #[trigger] l[i]),»
            {
                «proof {
                    let i = it.index@;
                    lemma_parse_list_prefix(b5, list_size as nat, (i + 1) as nat, K::V);
                    lemma_parse_list_prefix(b5, list_size as nat, i as nat, K::V);
                    assert(l.take(i + 1).last() == l[i as int]);
                    assert(parse_list(b5, (i + 1) as nat, K::V).unwrap().0.last() == front(b5.skip(m as int), K::V));
                }
                let ghost q = frontn(b5.skip(m as int), K::V);»
                let param = decode_js_value_inner(buffer)?;
                param_list.push(param);
                «proof {
                    assert(b5.skip(m as int).skip(q as int) =~= b5.skip((m + q) as int));
                    m = m + q;
                }»
            }

            «proof { assert(m == frontn(b, K::V) - 5); assert(repv(JsValue::List(param_list), t)); }»
            JsValue::List(param_list)
        }
        JsValueConst::Object => {
            let mut props = HashMap::new();
            «proof { assert(b.skip(1).take(2) =~= b.subrange(1, 3)); }»
            let object_size = buffer.get_u16();
            «let ghost b3 = b.skip(3);
            let ghost l = t.body->Obj_0;
            let ghost mut m: int = 0;
            proof { assert(buffer.rest() =~= b3); lemma_parse_obj_prefix(b3, object_size as nat, 0, K::V); assert(b3.skip(0) =~= b3); }»

            for _ in «it:» 0..object_size
                «invariant buffer.wf(), it.seq().len() == object_size, l.len() == object_size, props@.len() == it.index@, it.index@ <= object_size,
                    parse_obj(b3, object_size as nat, K::V) is Some, parse_obj(b3, object_size as nat, K::V).unwrap().0 == l,
                    distinct_keys(l), forall|i: int| 0 <= i < l.len() ==> okp(#[trigger] l[i], K::V),
                    parse_obj(b3, it.index@ as nat, K::V) is Some, parse_obj(b3, it.index@ as nat, K::V).unwrap().1 == m, 0 <= m <= b3.len(),
                    buffer.rest() == b3.skip(m),
                    forall|i: int| 0 <= i < it.index@ ==> reppv(props@, #[trigger] l[i]),
                    forall|k: String| props@.contains_key(k) ==> exists|i: int| 0 <= i < it.index@ && (#[trigger] l[i]).key == k@,»
            {
                «let ghost i = it.index@ as int;
                let ghost r0 = b3.skip(m);
                let ghost p0 = props@;
                proof {
                    lemma_parse_obj_prefix(b3, object_size as nat, (i + 1) as nat, K::V);
                    lemma_parse_obj_prefix(b3, object_size as nat, i as nat, K::V);
                    assert(l.take(i + 1).last() == l[i]);
                    assert(r0.take(4) =~= b3.subrange(m, m + 4));
                }»
                let str_len = buffer.get_u32();
                «let ghost n = str_len as int;
                proof {
                    assert(r0.skip(4).take(n) =~= b3.subrange(m + 4, m + 4 + n));
                }»
                let prop_name = buffer.get_string(str_len)?;
                «proof {
                    assert(r0.skip(4).skip(n) =~= b3.skip(m + 4 + n));
                    encode_utf8_decode_utf8(prop_name@);
                    assert(l[i].key == prop_name@);
                    assert(okp(l[i], K::V));
                }
                let ghost q = frontn(b3.skip(m + 4 + n), K::V) as int;»

                let prop_value = decode_js_value_inner(buffer)?;
                props.insert(prop_name, prop_value);
                «proof {
                    assert(b3.skip(m + 4 + n).skip(q) =~= b3.skip(m + 4 + n + q));
                    m = m + 4 + n + q;
                    assert(st(prop_name@) == prop_name);
                    assert(reppv(props@, l[i]));
                    assert(!p0.contains_key(prop_name));
                    assert forall|j: int| 0 <= j < i implies reppv(props@, #[trigger] l[j]) by {
                        assert(reppv(p0, l[j]));
                        assert(l[j].key != l[i].key);
                    }
                    assert forall|k: String| props@.contains_key(k) implies exists|j: int| 0 <= j < i + 1 && (#[trigger] l[j]).key == k@ by {
                        if k == prop_name { assert(l[i].key == k@); } else { assert(p0.contains_key(k)); }
                    }
                }»
            }

            «proof { assert(m == frontn(b, K::V) - 3); assert(repv(JsValue::Object(props), t)); }»
            JsValue::Object(props)
        }
        JsValueConst::Json => {
            «proof { assert(b.skip(1) == buffer.rest()); }»
            let json = decode_js_json_inner(buffer)?;
            «proof { assert(repv(JsValue::Json(json), t)); }»
            JsValue::Json(json)
        }
    };

    «proof { assert(b.subrange(1, 1) =~= Seq::<u8>::empty()); assert(buffer.rest() =~= b.skip(frontn(b, K::V) as int)); assert(repv(result, t)); }»
    Ok(result)
}
//@end

//@file crates/vertigo/src/driver_module/js_value/memory_block.rs
impl MemoryBlock {
//@item impl MemoryBlock :: fn from_slice
    pub fn from_slice(data: &[u8]) -> «(r:» MemoryBlock «)
        requires 0 < data@.len() <= u32::MAX,
        ensures r.wf(), r.full(), r@ == data@,»
    {
        let size = data.len() as u32;
        let block = MemoryBlock::new(size);
        let mut block = MemoryBlockWrite::new(block);
        block.write(data);
        «proof { assert(block.written() =~= data@); }
        let r =» block.get_block() «;
        proof { assert(r@.take(data@.len() as int) =~= r@); }
        r»
    }
//@end
}

//@file crates/vertigo/src/driver_module/js_value/js_value_struct.rs
impl JsValue {
//@item impl JsValue :: fn to_snapshot
    pub fn to_snapshot(&self) -> «(r:» MemoryBlock «)
        requires wfv(*self), sizev(*self) <= u32::MAX,
        ensures
            // C02: the block is exactly as long as the encoding, and all of it was written
            r.wf(), r.full(), r@.len() == sizev(*self),
            // C01: its bytes are an encoding of the value in the documented layout
            exists|t: T| #[trigger] encodes(*self, t, r@),»
    {
        let buff_size = self.get_size();
        let block = MemoryBlock::new(buff_size);

        let mut buff = MemoryBlockWrite::new(block);
        «let ghost w0 = buff.written();»
        self.write_to(&mut buff);
        «let ghost w1 = buff.written();
        proof {
            buff.lemma_wf();
            let t = choose|t: T| #[trigger] wrov(*self, w0, w1, t);
            assert(w1 =~= enc(t));
            assert(w1.len() == buff.cap());
        }
        let r =» buff.get_block() «;
        proof {
            let t = choose|t: T| #[trigger] wrov(*self, w0, w1, t);
            assert(r@.take(w1.len() as int) =~= r@);
            assert(encodes(*self, t, r@));
        }
        r»
    }
//@end
//@item impl JsValue :: fn from_block
    pub fn from_block(block: MemoryBlock) -> «(r:» Result<JsValue, ⟦std::string::String⇒String⟧> «)
        requires block.wf(), block.full(), readable(block@, K::V), block@.len() <= u32::MAX,
        ensures r is Ok, repv(r->Ok_0, front(block@, K::V)),»
    {
        let mut buffer = MemoryBlockRead::new(block);
        decode_js_value_inner(&mut buffer)
    }
//@end
}
pub open spec fn encodes(v: JsValue, t: T, b: Seq<u8>) -> bool { repv(v, t) && b == enc(t) }

// equality of values (object entries in any order, numbers bit for bit)
pub open spec fn eqj(a: JsJson, b: JsJson) -> bool
    decreases a,
{
    match (a, b) {
        (JsJson::True, JsJson::True) => true,
        (JsJson::False, JsJson::False) => true,
        (JsJson::Null, JsJson::Null) => true,
        (JsJson::String(x), JsJson::String(y)) => x@ == y@,
        (JsJson::Number(x), JsJson::Number(y)) => f64b(x) == f64b(y),
        (JsJson::List(x), JsJson::List(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> eqj(#[trigger] x@[i], y@[i]),
        (JsJson::Object(x), JsJson::Object(y)) => x@.dom() == y@.dom() && forall|k: String| #[trigger] x@.contains_key(k) ==> eqj(x@[k], y@[k]),
        _ => false,
    }
}
pub open spec fn eqv(a: JsValue, b: JsValue) -> bool
    decreases a,
{
    match (a, b) {
        (JsValue::U32(x), JsValue::U32(y)) => x == y,
        (JsValue::I32(x), JsValue::I32(y)) => x == y,
        (JsValue::U64(x), JsValue::U64(y)) => x == y,
        (JsValue::I64(x), JsValue::I64(y)) => x == y,
        (JsValue::F64(x), JsValue::F64(y)) => f64b(x) == f64b(y),
        (JsValue::True, JsValue::True) => true,
        (JsValue::False, JsValue::False) => true,
        (JsValue::Null, JsValue::Null) => true,
        (JsValue::Undefined, JsValue::Undefined) => true,
        (JsValue::Vec(x), JsValue::Vec(y)) => x@ == y@,
        (JsValue::String(x), JsValue::String(y)) => x@ == y@,
        (JsValue::List(x), JsValue::List(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> eqv(#[trigger] x@[i], y@[i]),
        (JsValue::Object(x), JsValue::Object(y)) => x@.dom() == y@.dom() && forall|k: String| #[trigger] x@.contains_key(k) ==> eqv(x@[k], y@[k]),
        (JsValue::Json(x), JsValue::Json(y)) => eqj(x, y),
        _ => false,
    }
}
proof fn lemma_lp_inj(x: Seq<u8>, y: Seq<u8>)
    requires lp(x) == lp(y), x.len() < 0x1_0000_0000, y.len() < 0x1_0000_0000,
    ensures x == y,
{
    lemma_p256();
    lemma_be(x.len(), 4);
    lemma_be(y.len(), 4);
    assert(lp(x).take(4) =~= be(x.len(), 4));
    assert(lp(y).take(4) =~= be(y.len(), 4));
    assert(x =~= lp(x).skip(4));
    assert(y =~= lp(y).skip(4));
}
proof fn lemma_text_inj(x: Seq<char>, y: Seq<char>)
    requires lp(encode_utf8(x)) == lp(encode_utf8(y)), encode_utf8(x).len() < 0x1_0000_0000, encode_utf8(y).len() < 0x1_0000_0000,
    ensures x == y,
{
    lemma_lp_inj(encode_utf8(x), encode_utf8(y));
    encode_utf8_decode_utf8(x);
    encode_utf8_decode_utf8(y);
}
proof fn lemma_be_inj(x: nat, y: nat, k: nat)
    requires be(x, k) == be(y, k), x < p256(k), y < p256(k),
    ensures x == y,
{
    lemma_be(x, k);
    lemma_be(y, k);
}
// the keys of an encoded object are exactly the domain of the map
proof fn lemma_keys(d: Set<String>, ps: Seq<Pair>)
    requires ps.len() == d.len(), distinct_keys(ps), forall|i: int| 0 <= i < ps.len() ==> d.contains(st((#[trigger] ps[i]).key)) && st(ps[i].key)@ == ps[i].key,
    ensures d == Seq::new(ps.len(), |i: int| st(ps[i].key)).to_set(),
{
    let ks = Seq::new(ps.len(), |i: int| st(ps[i].key));
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by {
        assert(ps[i].key != ps[j].key);
        assert(st(ps[i].key)@ == ps[i].key);
        assert(st(ps[j].key)@ == ps[j].key);
    }
    ks.unique_seq_to_set();
    assert(ks.to_set().subset_of(d)) by {
        assert forall|k: String| ks.to_set().contains(k) implies d.contains(k) by { let i = ks.index_of(k); assert(d.contains(st(ps[i].key))); }
    }
    vstd::set_lib::lemma_subset_equality(ks.to_set(), d);
}
pub proof fn lemma_same_j(a: JsJson, b: JsJson, t: T)
    requires repj(a, t), repj(b, t),
    ensures eqj(a, b),
    decreases t,
{
    match (a, b) {
        (JsJson::String(x), JsJson::String(y)) => { lemma_text_inj(x@, y@); }
        (JsJson::List(x), JsJson::List(y)) => {
            let l = t.body->List_0;
            assert forall|i: int| 0 <= i < x@.len() implies eqj(#[trigger] x@[i], y@[i]) by { assert(okt_i(l[i])); lemma_same_j(x@[i], y@[i], l[i]); }
        }
        (JsJson::Object(x), JsJson::Object(y)) => {
            let ps = t.body->Obj_0;
            let ks = Seq::new(ps.len(), |i: int| st(ps[i].key));
            assert forall|i: int| 0 <= i < ps.len() implies x@.dom().contains(st((#[trigger] ps[i]).key)) && y@.dom().contains(st(ps[i].key)) && st(ps[i].key)@ == ps[i].key by {
                assert(reppj(x@, ps[i])); assert(reppj(y@, ps[i]));
            }
            lemma_keys(x@.dom(), ps);
            lemma_keys(y@.dom(), ps);
            assert forall|k: String| #[trigger] x@.contains_key(k) implies eqj(x@[k], y@[k]) by {
                assert(ks.to_set().contains(k));
                let i = ks.index_of(k);
                assert(reppj(x@, ps[i])); assert(reppj(y@, ps[i]));
                lemma_same_j(x@[k], y@[k], ps[i].val);
            }
        }
        _ => {}
    }
}
spec fn okt_i(t: T) -> bool { true }
pub proof fn lemma_same_v(a: JsValue, b: JsValue, t: T)
    requires repv(a, t), repv(b, t),
    ensures eqv(a, b),
    decreases t,
{
    lemma_p256();
    match (a, b) {
        (JsValue::U32(x), JsValue::U32(y)) => { lemma_be_inj(x as nat, y as nat, 4); }
        (JsValue::I32(x), JsValue::I32(y)) => { lemma_be_inj(x as u32 as nat, y as u32 as nat, 4); assert(x as u32 == y as u32); assert(x == y) by (bit_vector) requires x as u32 == y as u32; }
        (JsValue::U64(x), JsValue::U64(y)) => { lemma_be_inj(x as nat, y as nat, 8); }
        (JsValue::I64(x), JsValue::I64(y)) => { lemma_be_inj(x as u64 as nat, y as u64 as nat, 8); assert(x as u64 == y as u64); assert(x == y) by (bit_vector) requires x as u64 == y as u64; }
        (JsValue::Vec(x), JsValue::Vec(y)) => { lemma_lp_inj(x@, y@); }
        (JsValue::String(x), JsValue::String(y)) => { lemma_text_inj(x@, y@); }
        (JsValue::Json(x), JsValue::Json(y)) => { lemma_same_j(x, y, *t.body->Sub_0); }
        (JsValue::List(x), JsValue::List(y)) => {
            let l = t.body->List_0;
            assert forall|i: int| 0 <= i < x@.len() implies eqv(#[trigger] x@[i], y@[i]) by { assert(okt_i(l[i])); lemma_same_v(x@[i], y@[i], l[i]); }
        }
        (JsValue::Object(x), JsValue::Object(y)) => {
            let ps = t.body->Obj_0;
            let ks = Seq::new(ps.len(), |i: int| st(ps[i].key));
            assert forall|i: int| 0 <= i < ps.len() implies x@.dom().contains(st((#[trigger] ps[i]).key)) && y@.dom().contains(st(ps[i].key)) && st(ps[i].key)@ == ps[i].key by {
                assert(reppv(x@, ps[i])); assert(reppv(y@, ps[i]));
            }
            lemma_keys(x@.dom(), ps);
            lemma_keys(y@.dom(), ps);
            assert forall|k: String| #[trigger] x@.contains_key(k) implies eqv(x@[k], y@[k]) by {
                assert(ks.to_set().contains(k));
                let i = ks.index_of(k);
                assert(reppv(x@, ps[i])); assert(reppv(y@, ps[i]));
                lemma_same_v(x@[k], y@[k], ps[i].val);
            }
        }
        _ => {}
    }
}
// C01: whatever value decoding a snapshot gives, it is the value that was encoded; and decoding it succeeds
pub proof fn theorem_round_trip(v: JsValue, t: T, b: Seq<u8>, w: JsValue)
    requires encodes(v, t, b), repv(w, front(b, K::V)),
    ensures readable(b, K::V), frontn(b, K::V) == b.len(), eqv(v, w),
{
    lemma_repv_ok(v, t);
    lemma_parse_enc(t, K::V, Seq::empty());
    assert(enc(t) + Seq::<u8>::empty() =~= enc(t));
    lemma_same_v(v, w, t);
}
// the whole round trip through the real functions
fn round_trip(v: &JsValue) -> (r: Result<JsValue, String>)
    requires wfv(*v), sizev(*v) <= u32::MAX,
    ensures r is Ok, eqv(*v, r->Ok_0),
{
    let block = v.to_snapshot();
    let ghost b = block@;
    proof {
        let t = choose|t: T| #[trigger] encodes(*v, t, b);
        theorem_readable(*v, t, b);
    }
    let r = JsValue::from_block(block);
    proof {
        let t = choose|t: T| #[trigger] encodes(*v, t, b);
        theorem_round_trip(*v, t, b, r->Ok_0);
    }
    r
}
pub proof fn theorem_readable(v: JsValue, t: T, b: Seq<u8>)
    requires encodes(v, t, b),
    ensures readable(b, K::V), front(b, K::V) == t,
{
    lemma_repv_ok(v, t);
    lemma_parse_enc(t, K::V, Seq::empty());
    assert(enc(t) + Seq::<u8>::empty() =~= enc(t));
}
}

}
fn main(){}
