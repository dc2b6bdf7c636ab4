// ---- trusted: the allocator and raw memory.  A Mem is the right to use one allocation: it is made by the allocator,
// owned by the block it belongs to, and ends when the allocation is given back or away.
pub struct Layout { size: usize, align: usize }
impl Clone for Layout { fn clone(&self) -> (r: Layout) ensures r == *self { Layout { size: self.size, align: self.align } } }
impl Copy for Layout {}
impl Layout {
    pub closed spec fn of(self) -> (nat, nat) { (self.size as nat, self.align as nat) }
    #[verifier::external_body]
    fn from_size_align(size: usize, align: usize) -> (r: Result<Layout, ()>)
        ensures
            r is Ok ==> r->Ok_0.of() == (size as nat, align as nat) && size <= isize::MAX,
            r is Err ==> no_room(size as nat),
    { unimplemented!() }
    #[verifier::external_body]
    fn size(&self) -> (r: usize) ensures r == self.of().0 { unimplemented!() }
}
// the allocator has no such block to give
pub uninterp spec fn no_room(size: nat) -> bool;
#[verifier::external_body]
pub tracked struct Mem { x: int }
impl Mem {
    pub uninterp spec fn addr(self) -> int;
    // what it was allocated as
    pub uninterp spec fn layout(self) -> (nat, nat);
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    // so many bytes from the start were written
    pub uninterp spec fn init(self) -> nat;
    pub uninterp spec fn gone(self) -> bool;
}
#[verifier::external_body]
fn vx_alloc(layout: Layout) -> (r: (*mut u8, Tracked<Mem>))
    requires layout.of().0 > 0,
    ensures
        r.0@.addr == 0 ==> no_room(layout.of().0),
        r.0@.addr != 0 ==> r.1@.addr() == r.0@.addr && r.1@.layout() == layout.of() && r.1@.bytes().len() == layout.of().0
            && r.1@.init() == 0 && !r.1@.gone(),
{ unimplemented!() }
// the layout has to be the one the memory was allocated with
#[verifier::external_body]
fn vx_dealloc(ptr: *mut u8, layout: Layout, Tracked(mem): Tracked<&mut Mem>)
    requires !old(mem).gone(), old(mem).addr() == ptr@.addr, old(mem).layout() == layout.of(),
    ensures final(mem).gone(),
{ unimplemented!() }
#[verifier::external_body]
fn vx_is_null(ptr: *mut u8) -> (r: bool) ensures r == (ptr@.addr == 0) { ptr.is_null() }
// pointers are 32 bits wide where this runs (WebAssembly)
#[verifier::external_body]
fn vx_addr(ptr: *mut u8) -> (r: u32) ensures r == ptr@.addr { ptr as u32 }
#[verifier::external_body]
fn vx_offset(ptr: *mut u8, n: isize, Tracked(mem): Tracked<&Mem>) -> (r: *mut u8)
    requires !mem.gone(), mem.addr() == ptr@.addr, 0 <= n <= mem.bytes().len(),
    ensures r@.addr == ptr@.addr + n,
{ unimplemented!() }
#[verifier::external_body]
fn vx_copy(data: &[u8], dest: *mut u8, n: usize, Tracked(mem): Tracked<&mut Mem>)
    requires
        !old(mem).gone(), n <= data@.len(),
        old(mem).addr() <= dest@.addr, dest@.addr + n <= old(mem).addr() + old(mem).bytes().len(),
    ensures
        !final(mem).gone(), final(mem).addr() == old(mem).addr(), final(mem).layout() == old(mem).layout(),
        ({
            let at = dest@.addr - old(mem).addr();
            &&& final(mem).bytes() == old(mem).bytes().take(at) + data@.take(n as int) + old(mem).bytes().skip(at + n)
            &&& final(mem).init() == if at <= old(mem).init() && old(mem).init() < at + n { (at + n) as nat } else { old(mem).init() }
        }),
{ unimplemented!() }
// a Vec takes memory which is written, and which was allocated as a Vec of that capacity is
#[verifier::external_body]
fn vx_from_raw_parts(ptr: *mut u8, len: usize, cap: usize, Tracked(mem): Tracked<Mem>) -> (r: Vec<u8>)
    requires
        !mem.gone(), mem.addr() == ptr@.addr, mem.layout() == (cap as nat, vstd::layout::align_of::<u8>()),
        len <= cap, len <= mem.init(),
    ensures r@ == mem.bytes().take(len as int),
{ unimplemented!() }
#[verifier::external_body]
fn vx_forget(b: MemoryBlock) -> (r: Tracked<Mem>) ensures r@ == b.mem@ { unimplemented!() }
#[verifier::external_body]
fn vx_out_of_memory(size: usize) -> (r: (*mut u8, Layout, Tracked<Mem>)) requires no_room(size as nat), ensures false { panic!() }
#[verifier::external_body]
fn vx_refuse(Ghost(why): Ghost<bool>) requires why, ensures false { panic!() }

//@file crates/vertigo/src/driver_module/js_value/memory_block.rs
//@item fn alloc_memory
fn alloc_memory(size: usize) -> «(r:» ⟦(*mut u8, Layout)⇒(*mut u8, Layout, Tracked<Mem>)⟧ «)
    requires size > 0,
    ensures
        r.0@.addr != 0, r.2@.addr() == r.0@.addr, r.2@.layout() == r.1.of(), r.1.of() == (size as nat, vstd::layout::align_of::<u8>()),
        r.2@.bytes().len() == size, r.2@.init() == 0, !r.2@.gone(), size <= isize::MAX,»
{
    let align = ⟦mem::align_of::<u8>()⇒core::mem::align_of::<u8>()⟧;

    if let Ok(layout) = Layout::from_size_align(size, align) {
        unsafe {
            if layout.size() > 0 {
                let ⟦ptr⇒(ptr, m)⟧ = ⟦alloc⇒vx_alloc⟧(layout);

                if ⟦!ptr.is_null()⇒!vx_is_null(ptr)⟧ {
                    return (ptr, layout «, m»);
                }
            } else {
            }
        }
    }

    ⟦panic!("Allocation error");⇒vx_out_of_memory(size)⟧
}
//@end
//@item struct MemoryBlock
pub struct MemoryBlock {
    «pub» ptr: *mut u8,
    «pub» layout: Layout,
    «pub» size: u32,
    «pub mem: Tracked<Mem>,»
}
//@end
impl MemoryBlock {
    pub closed spec fn view(&self) -> Seq<u8> { self.mem@.bytes() }
    pub closed spec fn at(&self) -> int { self.ptr@.addr as int }
    pub closed spec fn init(&self) -> nat { self.mem@.init() }
    // the block owns one allocation, of its size, in the form a Vec can take over
    pub closed spec fn wf(&self) -> bool {
        &&& self.ptr@.addr != 0 && self.mem@.addr() == self.ptr@.addr && !self.mem@.gone()
        &&& self.mem@.layout() == self.layout.of() && self.layout.of() == (self.size as nat, vstd::layout::align_of::<u8>())
        &&& self.mem@.bytes().len() == self.size <= isize::MAX
    }
    // every byte was written
    pub open spec fn full(&self) -> bool { self.init() >= self@.len() }
    proof fn lemma_wf(&self) requires self.wf(), ensures self@.len() <= u32::MAX, self.at() != 0 {}
//@item impl MemoryBlock :: fn new
    pub fn new(size: u32) -> «(r:» MemoryBlock «)
        requires size > 0,
        ensures r.wf(), r@.len() == size, r.init() == 0,»
    {
        let (ptr, layout «, mem») = alloc_memory(size as usize);

        MemoryBlock { ptr, layout, size «, mem» }
    }
//@end
//@item impl MemoryBlock :: fn get_ptr_and_size
    pub fn get_ptr_and_size(&self) -> «(r:» (u32, u32) «)
        requires self.wf(),
        ensures r.0 == self.at(), r.1 == self@.len(), r.0 != 0,»
    {
        (⟦self.ptr as u32⇒vx_addr(self.ptr)⟧, self.size)
    }
//@end
//@item impl MemoryBlock :: fn get_ptr
    pub fn get_ptr(&self) -> «(r:» u32 «)
        requires self.wf(),
        ensures r == self.at(), r != 0,»
    {
        ⟦self.ptr as u32⇒vx_addr(self.ptr)⟧
    }
//@end
//@item impl MemoryBlock :: fn write
    // its own bounds check is what keeps the copy inside the block, whatever it is asked to write
    pub fn write(⟦&self⇒&mut self⟧, offset: u32, data: &[u8])
        «requires old(self).wf(), data@.len() <= u32::MAX, offset + data@.len() <= u32::MAX,
        ensures
            final(self).wf(), final(self)@.len() == old(self)@.len(), final(self).at() == old(self).at(),
            offset + data@.len() <= old(self)@.len(),
            final(self)@ == old(self)@.take(offset as int) + data@ + old(self)@.skip(offset + data@.len()),
            final(self).init() == if offset <= old(self).init() && old(self).init() < offset + data@.len() { (offset + data@.len()) as nat } else { old(self).init() },»
    {
        «let ghost len = self@.len();»
        let data_len = data.len() as u32;

        if offset + data_len <= self.size {
            let dest = unsafe { ⟦self.ptr.offset(⇒vx_offset(self.ptr,⟧offset as isize «, Tracked(self.mem.borrow())») };

            unsafe {
                ⟦std::ptr::copy⇒vx_copy⟧(⟦data.as_ptr()⇒data⟧, dest, data_len as usize «, Tracked(self.mem.borrow_mut())»);
            }
            «proof { assert(data@.take(data@.len() as int) =~= data@); }»
        } else {
            ⟦panic!(
                "Buffer overflow size={} offset={offset} new_data={data_len}",
                self.size
            );⇒vx_refuse(Ghost(offset + data@.len() > len));⟧
        }
    }
//@end
//@item impl MemoryBlock :: fn convert_to_vec
    pub fn convert_to_vec(self) -> «(r:» Vec<u8> «)
        requires self.wf(), self.full(),
        ensures r@ == self@, r@.len() <= u32::MAX,»
    {
        «let ghost b = self;»
        let ptr = self.ptr;
        let size = self.size as usize;

        ⟦std::mem::forget⇒let m = vx_forget⟧(self);

        «let r =» unsafe { ⟦Vec::<u8>::from_raw_parts⇒vx_from_raw_parts⟧(ptr, size, size «, m») } «;
        proof { assert(r@ =~= b@); }
        r»
    }
//@end
//@item impl Drop for MemoryBlock :: fn drop
    // run for every block which is not converted: each contract here keeps wf(), which is what it needs
    fn drop(&mut self)
        «requires old(self).wf(),
        ensures final(self).mem@.gone(),»
    {
        ⟦use std::alloc::dealloc;⇒⟧

        unsafe {
            ⟦dealloc⇒vx_dealloc⟧(self.ptr, self.layout «, Tracked(self.mem.borrow_mut())»);
        }
    }
//@end
}
