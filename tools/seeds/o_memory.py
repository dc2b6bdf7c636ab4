import os, importlib.util
_s = importlib.util.spec_from_file_location("m_events", os.path.join(os.path.dirname(__file__), "m_events.py"))
E = importlib.util.module_from_spec(_s)
_s.loader.exec_module(E)
LIB = "crates/vertigo/src/lib.rs"
BLOCK = "crates/vertigo/src/driver_module/js_value/memory_block.rs"
ARGS = "crates/vertigo/src/driver_module/api/arguments.rs"
CTX = "crates/vertigo-cli/src/serve/wasm/data_context.rs"
KEY = E.EVENTS + '''
use vertigo::{JsValue, MemoryBlock};
fn key() -> Vec<u8> { l(&[s("Enter"), s("Enter"), vec![7], vec![7], vec![7], vec![7]]) }
'''
# the server's access to the guest's memory, over an engine of its own
GUEST = '''#![allow(dead_code, unused_imports)]
extern crate self as wasmtime;
use std::cell::{Cell, UnsafeCell};
use std::marker::PhantomData;
use std::rc::Rc;
pub mod serve { pub mod request_state { pub struct RequestState; } }
#[path = "@REPO@/crates/vertigo-cli/src/serve/wasm/data_context.rs"]
mod data_context;
use serve::request_state::RequestState;
use vertigo::{JsJson, JsValue};
#[derive(Default)]
pub struct Guest { mem: UnsafeCell<Vec<u8>>, top: Cell<usize>, gap: Cell<usize>, end: Cell<usize> }
pub struct Store<T> { g: Rc<Guest>, t: PhantomData<T> }
pub struct Caller<'a, T> { g: Rc<Guest>, t: PhantomData<&'a mut T> }
pub struct StoreContextMut<'a, T> { g: Rc<Guest>, t: PhantomData<&'a mut T> }
pub trait AsContextMut { type Data; fn as_context_mut(&mut self) -> StoreContextMut<'_, Self::Data>; }
impl<T> AsContextMut for Store<T> { type Data = T; fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut { g: self.g.clone(), t: PhantomData } } }
impl<T> AsContextMut for Caller<'_, T> { type Data = T; fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut { g: self.g.clone(), t: PhantomData } } }
impl<T> AsContextMut for StoreContextMut<'_, T> { type Data = T; fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut { g: self.g.clone(), t: PhantomData } } }
impl<C: AsContextMut> AsContextMut for &mut C { type Data = C::Data; fn as_context_mut(&mut self) -> StoreContextMut<'_, C::Data> { C::as_context_mut(self) } }
#[derive(Clone, Copy)] pub struct Memory;
#[derive(Clone, Copy)] pub struct Func;
#[derive(Clone, Copy)] pub struct Instance;
pub enum Extern { Func(Func), Memory(Memory) }
fn export(n: &str) -> Option<Extern> { match n { "memory" => Some(Extern::Memory(Memory)), "alloc" => Some(Extern::Func(Func)), _ => None } }
impl<T> Caller<'_, T> { pub fn get_export(&mut self, n: &str) -> Option<Extern> { export(n) } }
impl Instance { pub fn get_export(&self, _: impl AsContextMut, n: &str) -> Option<Extern> { export(n) } }
impl Memory {
    pub fn data<'a, T>(&self, c: &'a StoreContextMut<'_, T>) -> &'a [u8] { unsafe { &*c.g.mem.get() } }
    pub fn data_mut<'a, T>(&self, c: StoreContextMut<'a, T>) -> &'a mut [u8] { unsafe { &mut *c.g.mem.get() } }
    pub fn data_size<T>(&self, c: &StoreContextMut<'_, T>) -> usize { unsafe { (*c.g.mem.get()).len() } }
}
pub struct TypedFunc;
impl Func { pub fn typed<P, R>(&self, _: impl AsContextMut) -> Result<TypedFunc, String> { Ok(TypedFunc) } }
impl TypedFunc {
    // the guest gives exactly what it is asked for; behind it lies something of its own
    pub fn call<C: AsContextMut>(&self, mut c: C, n: u32) -> Result<u32, String> {
        let g = c.as_context_mut().g;
        let at = g.top.get().max(64);
        g.end.set(at + n as usize);
        g.top.set(at + n as usize + g.gap.get());
        let m = unsafe { &mut *g.mem.get() };
        let end = g.top.get() + 200_000;
        m.resize(end.max(m.len()), 0);
        for b in &mut m[at + n as usize..at + n as usize + g.gap.get()] { *b = 0xEE; }
        Ok(at as u32)
    }
}
fn guest(gap: usize) -> (Rc<Guest>, Store<RequestState>) {
    let g = Rc::new(Guest::default());
    g.gap.set(gap);
    (g.clone(), Store { g, t: PhantomData })
}
'''
DEPS = E.DEPS + '\nlog = "*"'
SEEDS = [
 dict(id="short-answer-freed-before-read", prop="C39",
  edits=[(LIB, """        let memory_block = result.to_snapshot();
        let (ptr, size) = memory_block.get_ptr_and_size();
        state.driver.inner.api.arguments.set(memory_block);
""", """        let memory_block = result.to_snapshot();
        let (ptr, size) = memory_block.get_ptr_and_size();

        // plain answers need not be tracked
        if size > 1 {
            state.driver.inner.api.arguments.set(memory_block);
        }
""")],
  needs="a handler that answers true or false", breaks="the memory of the answer is released before the other side has read it",
  deps=DEPS, main=KEY + '''fn main() {
    let e = el().hook_key_down(|_: KeyDownEvent| true);
    let id = listeners().0[0];
    let r = fire(id, key());
    let (ptr, size) = ((r >> 32) as u32, r as u32);
    assert_eq!(size, 1, "{r:#x}");
    // the other side asks for memory of its own before it reads the answer
    let own: Vec<u32> = (0..8).map(|_| h::alloc(1)).collect();
    assert!(!own.contains(&ptr), "the memory of the answer was given to somebody else");
    assert_eq!(h::handed_over(ptr), JsValue::True);
    drop(e);
}
'''),
 dict(id="block-last-part-not-written", prop="C39",
  edits=[(BLOCK, """            unsafe {
                std::ptr::copy(data.as_ptr(), dest, data_len as usize);
            }""", """            // large data are copied in parts
            const PART: usize = 1 << 16;

            for (index, part) in data.chunks(PART).enumerate() {
                if index > 0 && part.len() < 8 {
                    break;
                }

                unsafe {
                    std::ptr::copy(part.as_ptr(), dest.add(index * PART), part.len());
                }
            }""")],
  needs="data of a few bytes more than 64 KiB", breaks="the last bytes of the block are never written",
  deps=DEPS, main=KEY + '''fn main() {
    for n in [10, 65536, 65540, 65544, 131073] {
        let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8 + 1).collect();
        let b = MemoryBlock::from_slice(&data);
        assert!(b.convert_to_vec() == data, "{n} bytes");
    }
}
'''),
 dict(id="freed-memory-still-readable", prop="C39",
  edits=[(ARGS, """    blocks: Rc<HashMapMut<u32, MemoryBlock>>,
}""", """    blocks: Rc<HashMapMut<u32, MemoryBlock>>,
    released: Rc<HashMapMut<(), u32>>,
}"""), (ARGS, """        let block = self.blocks.remove(&pointer);

        if block.is_none() {""", """        // the memory released last is kept until the next release
        let Some(previous) = self.released.insert((), pointer) else {
            return;
        };

        let block = self.blocks.remove(&previous);

        if block.is_none() {""")],
  needs="a pointer used once more after it was released", breaks="the value is read although its memory was given back",
  deps=DEPS, main=KEY + '''fn main() {
    let _ = host();
    let ptrs: Vec<u32> = (0..3).map(|_| h::stash(&[6])).collect();
    for p in &ptrs {
        h::free(*p);
        assert_eq!(h::handed_over(*p), JsValue::Undefined);
    }
}
'''),
 dict(id="server-null-stored-as-nothing", prop="C39",
  edits=[(CTX, """        if let JsValue::Undefined = value {
            return 0;
        }
""", """        if let JsValue::Undefined | JsValue::Null = value {
            return 0;
        }
""")],
  needs="an answer of the server which is null", breaks="the guest gets no value at all instead of null",
  deps=DEPS, main=GUEST + '''fn main() {
    let (_, mut store) = guest(8);
    let mut d = data_context::DataContext::from_store(&mut store, Instance);
    assert_eq!(d.save_value(JsValue::Undefined), 0);
    let p = d.save_value(JsValue::Null);
    assert!(p != 0);
    assert_eq!(d.get_value(p, 1), JsValue::Null);
}
'''),
 dict(id="server-room-in-pages", prop="C39",
  edits=[(CTX, """        let ptr = self.alloc(size);
""", """        // large values take whole pages
        let room = if size < 1 << 16 {
            size
        } else {
            size / 4096 * 4096
        };
        let ptr = self.alloc(room);
""")],
  needs="a value of 64 KiB or more for the guest", breaks="it is written past the room the guest gave, over the guest's own data",
  deps=DEPS, main=GUEST + '''fn main() {
    for n in [1usize, 1000, 65530, 65537, 100_000] {
        let (g, mut store) = guest(8192);
        let mut d = data_context::DataContext::from_store(&mut store, Instance);
        let v = JsValue::String("x".repeat(n));
        let size = v.to_snapshot().convert_to_vec().len();
        let p = d.save_value(v.clone()) as usize;
        assert!(d.get_value(p as u32, size as u32) == v, "{n}");
        let m = unsafe { &*g.mem.get() };
        assert!(m[g.end.get()..g.end.get() + 8192].iter().all(|b| *b == 0xEE), "{n}: memory behind the value is overwritten");
    }
}
'''),
]
