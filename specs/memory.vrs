#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::raw_ptr::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use std::hash::Hash;
//@include std_extra.inc

verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms};

//@include memory_block.inc
//@include struct_mut.inc
//@include hash_map_mut.inc

// two blocks which exist at once are at different places: each owns its allocation
#[verifier::external_body]
fn vx_apart(m: &HashMapMut<u32, MemoryBlock>, b: &MemoryBlock)
    ensures forall|k: u32| #[trigger] m@.contains_key(k) && m@[k].wf() && b.wf() ==> m@[k].at() != b.at(),
{}

// ---- trusted: the encoding (C01) ------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct V { x: int }
pub uninterp spec fn undefined() -> V;
pub uninterp spec fn readable(b: Seq<u8>) -> bool;
pub uninterp spec fn decoded(b: Seq<u8>) -> V;
#[verifier::external_body]
pub struct JsValue { x: u8 }
pub uninterp spec fn v(j: JsValue) -> V;
#[verifier::external_body]
fn vx_undefined() -> (r: JsValue) ensures v(r) == undefined() { unimplemented!() }
#[verifier::external_body]
fn vx_is_undefined(j: &JsValue) -> (r: bool) ensures r == (v(*j) == undefined()) { unimplemented!() }
impl JsValue {
    #[verifier::external_body]
    fn from_block(block: MemoryBlock) -> (r: Result<JsValue, String>)
        requires block.wf(), block.full(), readable(block@),
        ensures r is Ok, v(r->Ok_0) == decoded(block@),
    { unimplemented!() }
    #[verifier::external_body]
    fn to_snapshot(&self) -> (r: MemoryBlock)
        ensures r.wf(), r.full(), readable(r@), decoded(r@) == v(*self),
    { unimplemented!() }
}

//@file crates/vertigo/src/driver_module/api/arguments.rs
//@item struct Arguments
pub struct Arguments {
    «pub» blocks: ⟦Rc<HashMapMut<u32, MemoryBlock>>⇒HashMapMut<u32, MemoryBlock>⟧,
}
//@end
impl Arguments {
    pub closed spec fn view(&self) -> Map<u32, MemoryBlock> { self.blocks@ }
    // what is handed over is found under the address it lies at
    pub closed spec fn wf(&self) -> bool {
        forall|k: u32| #[trigger] self.blocks@.contains_key(k) ==> self.blocks@[k].wf() && self.blocks@[k].at() == k
    }
    // what lies there can be read: the other side wrote all of it
    pub open spec fn written(&self, k: u32) -> bool { self@.contains_key(k) ==> self@[k].full() && readable(self@[k]@) }
    // what taking the value under a pointer gives: nothing for 0 and for what was not handed over
    pub open spec fn taken(&self, k: u32) -> V { if self@.contains_key(k) { decoded(self@[k]@) } else { undefined() } }
    proof fn lemma_zero(&self) requires self.wf(), ensures !self@.contains_key(0) {
        if self.blocks@.contains_key(0) { self.blocks@[0].lemma_wf(); }
    }
//@item impl Arguments :: fn alloc
    pub fn alloc(⟦&self⇒&mut self⟧, size: u32) -> «(r:» u32 «)
        requires old(self).wf(), size > 0,
        ensures
            final(self).wf(), r != 0,
            // it is nobody else's, nothing handed over before is lost, and there is room for what was asked
            !old(self)@.contains_key(r), final(self)@ == old(self)@.insert(r, final(self)@[r]), final(self)@[r]@.len() == size,»
    {
        let block = MemoryBlock::new(size);
        let ptr = block.get_ptr();
        «vx_apart(&self.blocks, &block);»
        self.blocks.insert(ptr, block);
        ptr
    }
//@end
//@item impl Arguments :: fn free
    pub fn free(⟦&self⇒&mut self⟧, pointer: u32)
        «requires old(self).wf(),
        ensures final(self).wf(), final(self)@ == old(self)@.remove(pointer),»
    {
        let block = self.blocks.remove(&pointer);

        if block.is_none() {
        }
    }
//@end
//@item impl Arguments :: fn get_by_ptr
    pub fn get_by_ptr(⟦&self⇒&mut self⟧, ptr: u32) -> «(r:» JsValue «)
        requires old(self).wf(), old(self).written(ptr),
        ensures
            // it is read whole, and once
            final(self).wf(), final(self)@ == old(self)@.remove(ptr), v(r) == old(self).taken(ptr),»
    {
        «proof { self.lemma_zero(); }»
        if ptr == 0 {
            «proof { assert(self@.remove(0) =~= self@); }»
            return ⟦JsValue::Undefined⇒vx_undefined()⟧;
        }

        let param = self.blocks.remove(&ptr);

        if let Some(param) = param {
            match JsValue::from_block(param) {
                Ok(value) => value,
                Err(err) => {
                    ⟦JsValue::Undefined⇒vx_undefined()⟧
                }
            }
        } else {
            ⟦JsValue::Undefined⇒vx_undefined()⟧
        }
    }
//@end
//@item impl Arguments :: fn set
    pub fn set(⟦&self⇒&mut self⟧, memory_block: MemoryBlock)
        «requires old(self).wf(), memory_block.wf(),
        ensures final(self).wf(), 0 < memory_block.at() <= u32::MAX, !old(self)@.contains_key(memory_block.at() as u32),
            final(self)@ == old(self)@.insert(memory_block.at() as u32, memory_block),»
    {
        let ptr = memory_block.get_ptr();
        «vx_apart(&self.blocks, &memory_block);»
        self.blocks.insert(ptr, memory_block);
    }
//@end
}

// ---- trusted: the driver, reduced to what the entry points use ---------------------------------------------------------
pub struct CallbackId { id: u64 }
impl CallbackId {
    pub closed spec fn of(self) -> u64 { self.id }
    #[verifier::external_body]
    fn from_u64(id: u64) -> (r: CallbackId) ensures r.of() == id { unimplemented!() }
}
pub struct Api { pub arguments: Arguments }
pub struct Inner { pub api: Api }
// calls: the numbers called with what they were told, reply: what the last one answered, open: transactions
pub struct Driver { pub inner: Inner, pub calls: Ghost<Seq<(u64, V)>>, pub reply: Ghost<V>, pub open: Ghost<nat> }
pub struct DriverConstruct { pub driver: Driver }
impl Driver {
    #[verifier::external_body]
    fn begin(&mut self)
        ensures final(self).inner == old(self).inner, final(self).calls == old(self).calls, final(self).open@ == old(self).open@ + 1,
    { unimplemented!() }
    // what the program computes when it ends may talk to the other side
    #[verifier::external_body]
    fn end(&mut self)
        requires old(self).open@ > 0, old(self).inner.api.arguments.wf(),
        ensures final(self).inner.api.arguments.wf(), final(self).calls == old(self).calls, final(self).reply == old(self).reply,
            final(self).open@ == old(self).open@ - 1,
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_call(d: &mut Driver, id: CallbackId, value: JsValue) -> (r: JsValue)
    requires old(d).open@ > 0, old(d).inner.api.arguments.wf(),
    ensures final(d).inner.api.arguments.wf(), final(d).calls@ == old(d).calls@.push((id.of(), v(value))), final(d).reply@ == v(r),
        final(d).open == old(d).open,
{ unimplemented!() }

proof fn lemma_pack(p: u64, s: u64)
    requires p <= u32::MAX, s <= u32::MAX,
    ensures (p << 32) + s <= u64::MAX, ((p << 32) + s) / 0x1_0000_0000 == p, ((p << 32) + s) % 0x1_0000_0000 == s, p > 0 ==> (p << 32) + s > 0,
{
    assert((p << 32) == p * 0x1_0000_0000) by (bit_vector) requires p <= 0xffff_ffff;
    assert((p * 0x1_0000_0000 + s) / 0x1_0000_0000 == p && (p * 0x1_0000_0000 + s) % 0x1_0000_0000 == s) by (nonlinear_arith) requires s <= 0xffff_ffff;
}

//@file crates/vertigo/src/lib.rs
//@item fn alloc
pub fn alloc(size: u32 «, state: &mut DriverConstruct») -> «(r:» u32 «)
    requires size > 0, old(state).driver.inner.api.arguments.wf(),
    ensures
        final(state).driver.inner.api.arguments.wf(), r != 0,
        !old(state).driver.inner.api.arguments@.contains_key(r),
        final(state).driver.inner.api.arguments@ == old(state).driver.inner.api.arguments@.insert(r, final(state).driver.inner.api.arguments@[r]),
        final(state).driver.inner.api.arguments@[r]@.len() == size,»
{
    ⟦get_driver_state("alloc", |state|⇒(⟧ {
        state.driver.inner.api.arguments.alloc(size)
    })
}
//@end
//@item fn free
pub fn free(pointer: u32 «, state: &mut DriverConstruct»)
    «requires old(state).driver.inner.api.arguments.wf(),
    ensures final(state).driver.inner.api.arguments.wf(), final(state).driver.inner.api.arguments@ == old(state).driver.inner.api.arguments@.remove(pointer),»
{
    ⟦get_driver_state("free", |state|⇒(⟧ {
        state.driver.inner.api.arguments.free(pointer);
    })
}
//@end
//@item fn wasm_callback
pub fn wasm_callback(callback_id: u64, value_ptr: u32 «, state: &mut DriverConstruct») -> «(r:» u64 «)
    requires old(state).driver.inner.api.arguments.wf(), old(state).driver.inner.api.arguments.written(value_ptr),
    ensures
        final(state).driver.inner.api.arguments.wf(), final(state).driver.open == old(state).driver.open,
        // the function of that number is told what was handed over, once
        final(state).driver.calls@ == old(state).driver.calls@.push((callback_id, old(state).driver.inner.api.arguments.taken(value_ptr))),
        // its answer is handed over where the result says: the pointer, then the size
        r == 0 <==> final(state).driver.reply@ == undefined(),
        r != 0 ==> ({
            let p = (r / 0x1_0000_0000) as u32;
            let m = final(state).driver.inner.api.arguments@;
            m.contains_key(p) && m[p].full() && m[p]@.len() == r % 0x1_0000_0000 && readable(m[p]@) && decoded(m[p]@) == final(state).driver.reply@
        }),»
{
    ⟦get_driver_state("export_dom_callback", |state|⇒(⟧ {
        let value = state.driver.inner.api.arguments.get_by_ptr(value_ptr);
        let callback_id = CallbackId::from_u64(callback_id);

        let mut result = ⟦JsValue::Undefined⇒vx_undefined()⟧;

        ⟦state.driver.transaction(|_|⇒state.driver.begin(); (⟧ {
            result = ⟦state
                .driver
                .inner
                .api
                .callback_store
                .call(⇒vx_call(&mut state.driver,⟧callback_id, value);
        });
        «state.driver.end();»

        if ⟦result == JsValue::Undefined⇒vx_is_undefined(&result)⟧ {
            return 0;
        }

        let memory_block = result.to_snapshot();
        «let ghost b = memory_block;
        proof { b.lemma_wf(); }»
        let (ptr, size) = memory_block.get_ptr_and_size();
        state.driver.inner.api.arguments.set(memory_block);

        let ptr = ptr as u64;
        let size = size as u64;

        «proof { lemma_pack(ptr, size); assert(state.driver.inner.api.arguments@[ptr as u32] == b); }»
        (ptr << 32) + size
    })
}
//@end

} // verus!
fn main() {}
