#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, non_snake_case, private_interfaces)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::*;

verus! {

// ---- trusted: the encoding and the blocks (C01, and the unit memory) --------------------------------------------------
#[verifier::external_body]
pub struct Opaque { x: u8 }
pub enum JsValue { U32(u32), I32(i32), U64(u64), I64(i64), True, False, Null, Undefined, String(String), Other(Opaque) }
pub uninterp spec fn readable(b: Seq<u8>) -> bool;
pub uninterp spec fn decoded(b: Seq<u8>) -> JsValue;
// some encoding of the value
pub open spec fn encodes(v: JsValue, b: Seq<u8>) -> bool { readable(b) && decoded(b) == v && 0 < b.len() <= u32::MAX }
#[verifier::external_body]
pub struct MemoryBlock { x: u8 }
impl MemoryBlock {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn full(&self) -> bool;
    #[verifier::external_body]
    fn from_slice(data: &[u8]) -> (r: MemoryBlock)
        requires 0 < data@.len() <= u32::MAX,
        ensures r.full(), r@ == data@,
    { unimplemented!() }
    #[verifier::external_body]
    fn convert_to_vec(self) -> (r: Vec<u8>)
        requires self.full(),
        ensures r@ == self@,
    { unimplemented!() }
}
impl JsValue {
    #[verifier::external_body]
    fn from_block(block: MemoryBlock) -> (r: Result<JsValue, String>)
        requires block.full(), readable(block@),
        ensures r is Ok, r->Ok_0 == decoded(block@),
    { unimplemented!() }
    #[verifier::external_body]
    fn to_snapshot(&self) -> (r: MemoryBlock)
        ensures r.full(), encodes(*self, r@),
    { unimplemented!() }
}
// ---- trusted: std ------------------------------------------------------------------------------------------------------
#[verifier::external_body]
fn vx_range(b: &[u8], from: usize, to: usize) -> (r: &[u8])
    requires from <= to <= b@.len(),
    ensures r@ == b@.subrange(from as int, to as int),
{ &b[from..to] }
#[verifier::external_body]
fn vx_put(b: &mut [u8], from: usize, to: usize, data: &[u8])
    requires from <= to <= old(b)@.len(), data@.len() == to - from,
    ensures final(b)@ == old(b)@.take(from as int) + data@ + old(b)@.skip(to as int),
{ b[from..to].clone_from_slice(data) }
#[verifier::external_body]
fn vx_vec_from(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { Vec::from(b) }
#[verifier::external_body]
fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, ()>)
    ensures match r { Ok(s) => encode_utf8(s@) == v@, Err(_) => !valid_utf8(v@) },
{ String::from_utf8(v).map_err(|_| ()) }
// ---- trusted: the WebAssembly engine: one memory, which the guest's own allocation can change and grow ---------------------
#[verifier::external_body]
pub struct Memory { x: u8 }
#[verifier::external_body]
pub struct Context { x: u8 }
#[verifier::external_body]
pub struct AllocFn { x: u8 }
#[verifier::external_body]
pub struct DataContext { x: u8 }
impl DataContext {
    pub uninterp spec fn mem(self) -> Seq<u8>;
    // what was asked of the guest's alloc, in order
    pub uninterp spec fn asked(self) -> Seq<(u32, u32)>;
    #[verifier::external_body]
    fn get_memory(&mut self) -> Memory ensures final(self).mem() == old(self).mem(), final(self).asked() == old(self).asked() { unimplemented!() }
    #[verifier::external_body]
    fn get_context(&mut self) -> Context ensures final(self).mem() == old(self).mem(), final(self).asked() == old(self).asked() { unimplemented!() }
    #[verifier::external_body]
    fn vx_data(&self, m: &Memory, c: &Context) -> (r: &[u8]) ensures r@ == self.mem(), r@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    fn vx_data_mut(&mut self, m: &Memory, c: Context) -> (r: &mut [u8])
        ensures r@ == old(self).mem(), r@.len() <= usize::MAX, final(self).mem() == final(r)@, final(self).asked() == old(self).asked(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_alloc_fn(&mut self) -> AllocFn ensures final(self).mem() == old(self).mem(), final(self).asked() == old(self).asked() { unimplemented!() }
    // the guest gives room for what it is asked (Arguments::alloc), anywhere but at 0
    #[verifier::external_body]
    fn vx_call(&mut self, f: &AllocFn, c: &mut Context, size: u32) -> (r: u32)
        requires size > 0,
        ensures 0 < r, r + size <= final(self).mem().len(), final(self).mem().len() >= old(self).mem().len(),
            final(self).asked() == old(self).asked().push((size, r)),
    { unimplemented!() }
}

//@file crates/vertigo-cli/src/serve/wasm/data_context.rs
impl DataContext {
//@item impl DataContext :: fn get_value
    pub fn get_value(&mut self, ptr: u32, offset: u32) -> «(r:» JsValue «)
        requires offset > 0, ptr + offset <= old(self).mem().len(),
            readable(old(self).mem().subrange(ptr as int, ptr + offset)),
        ensures r == decoded(old(self).mem().subrange(ptr as int, ptr + offset)),
            final(self).mem() == old(self).mem(), final(self).asked() == old(self).asked(),»
    {
        let memory = self.get_memory();
        let context = self.get_context();

        let buff = ⟦memory.data(&context)⇒self.vx_data(&memory, &context)⟧;

        let ptr = ptr as usize;
        let offset = offset as usize;

        let slice = ⟦&buff[⇒vx_range(buff,⟧ptr⟦..⇒,⟧(ptr + offset)⟦]⇒)⟧;

        let block = MemoryBlock::from_slice(slice);
        match JsValue::from_block(block) {
            Ok(value) => value,
            Err(error) => {
                JsValue::Undefined
            }
        }
    }
//@end
//@item impl DataContext :: fn get_string_from
    pub fn get_string_from(&mut self, ptr: u32, offset: u32) -> «(r:» Option<String> «)
        requires ptr + offset <= old(self).mem().len(),
        ensures
            r is Some <==> valid_utf8(old(self).mem().subrange(ptr as int, ptr + offset)),
            r is Some ==> encode_utf8(r->0@) == old(self).mem().subrange(ptr as int, ptr + offset),
            final(self).mem() == old(self).mem(), final(self).asked() == old(self).asked(),»
    {
        let memory = self.get_memory();
        let context = self.get_context();
        let buff = ⟦memory.data(&context)⇒self.vx_data(&memory, &context)⟧;

        let ptr = ptr as usize;
        let offset = offset as usize;

        let slice = ⟦&buff[⇒vx_range(buff,⟧ptr⟦..⇒,⟧(ptr + offset)⟦]⇒)⟧;

        let slice_vec = ⟦Vec::from⇒vx_vec_from⟧(slice);

        let Ok(result) = ⟦String::from_utf8⇒vx_from_utf8⟧(slice_vec) else {
            return None;
        };
        «proof { encode_utf8_valid_utf8(result@); }»

        Some(result)
    }
//@end
//@item impl DataContext :: fn alloc
    fn alloc(&mut self, size: usize) -> «(r:» usize «)
        requires 0 < size <= u32::MAX,
        ensures 0 < r <= u32::MAX, r + size <= final(self).mem().len(), final(self).mem().len() >= old(self).mem().len(),
            final(self).asked() == old(self).asked().push((size as u32, r as u32)),»
    {
        let alloc_inner = ⟦match self {
            Self::Caller { caller, .. } => {
                let Some(Extern::Func(alloc_inner)) = caller.get_export("alloc") else {
                    unreachable!();
                };
                alloc_inner
            }
            Self::Store {
                store, instance, ..
            } => {
                let Some(Extern::Func(alloc_inner)) = instance.get_export(store, "alloc") else {
                    unreachable!();
                };

                alloc_inner
            }
        }⇒self.vx_alloc_fn()⟧;

        let mut context = self.get_context();
        let alloc = ⟦alloc_inner.typed::<u32, u32>(&mut context).unwrap()⇒alloc_inner⟧;

        ⟦alloc.call(⇒self.vx_call(&alloc,⟧&mut context, size as u32)⟦.unwrap()⇒⟧ as usize
    }
//@end
//@item impl DataContext :: fn save_value
    pub fn save_value(&mut self, value: JsValue) -> «(r:» u32 «)
        ensures
            // nothing is 0, and is not stored
            value is Undefined ==> r == 0 && final(self).mem() == old(self).mem() && final(self).asked() == old(self).asked(),
            // anything else lies, whole, in room the guest gave for exactly that
            !(value is Undefined) ==> ({
                let (size, at) = final(self).asked().last();
                &&& final(self).asked() == old(self).asked().push((size, at)) && r == at && r != 0
                &&& r + size <= final(self).mem().len()
                &&& encodes(value, final(self).mem().subrange(r as int, r + size))
            }),»
    {
        if let JsValue::Undefined = value {
            return 0;
        }

        let block = value.to_snapshot();
        let block = block.convert_to_vec();
        let size = block.len();

        let ptr = self.alloc(size);

        let memory = self.get_memory();
        let context = self.get_context();
        «let ghost asked = self.asked();»
        let buff = ⟦memory.data_mut(context)⇒self.vx_data_mut(&memory, context)⟧;

        ⟦buff[⇒vx_put(buff,⟧ptr⟦..⇒,⟧(ptr + size)⟦].clone_from_slice(⇒,⟧block.as_slice());
        «proof { assert(self.mem().subrange(ptr as int, ptr + size) =~= block@); assert(asked.last() == (size as u32, ptr as u32)); }»

        ptr as u32
    }
//@end
}

} // verus!
fn main() {}
