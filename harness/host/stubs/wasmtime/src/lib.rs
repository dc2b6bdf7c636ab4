//! Stand-in for the WebAssembly engine: the guest is the client library itself, running in this process.  The guest's
//! memory is a buffer of its own; what the guest passes is copied in, what the host writes for it is copied out.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;

/// an exported function of the guest: its parameters, and the bytes each pointer parameter points to
pub trait Guest {
    fn call(&self, name: &str, params: &[u64], bytes: &dyn Fn(u64) -> Vec<u8>) -> u64;
}
thread_local! {
    static GUEST: RefCell<Option<Rc<dyn Guest>>> = const { RefCell::new(None) };
    static CURRENT: Cell<(*mut (), Option<unsafe fn(*mut (), usize, &[u8]) -> Option<Vec<u8>>>)> = const { Cell::new((std::ptr::null_mut(), None)) };
}
pub fn set_guest(g: Rc<dyn Guest>) { GUEST.with(|x| *x.borrow_mut() = Some(g)); }
/// called by the guest, while one of its exports runs: an imported function on these bytes
pub fn host_call(import: usize, bytes: &[u8]) -> Option<Vec<u8>> {
    let (p, f) = CURRENT.with(|c| c.get());
    f.and_then(|f| unsafe { f(p, import, bytes) })
}

pub struct Engine;
impl Default for Engine { fn default() -> Self { Engine } }
impl Clone for Engine { fn clone(&self) -> Self { Engine } }
#[derive(Clone)]
pub struct Module;
impl Module {
    pub fn from_binary(_: &Engine, _: &[u8]) -> Result<Module, String> { Ok(Module) }
}
type HostFn<T> = Rc<dyn Fn(Caller<'_, T>, u32, u32) -> u32>;
struct Inner<T> {
    data: T,
    mem: Vec<u8>,
    top: usize,
    sizes: BTreeMap<usize, usize>,
    funcs: Vec<HostFn<T>>,
    imports: Vec<usize>,
}
pub struct Store<T> { inner: Box<Inner<T>> }
impl<T> Store<T> {
    pub fn new(_: &Engine, data: T) -> Store<T> {
        Store { inner: Box::new(Inner { data, mem: Vec::new(), top: 16, sizes: BTreeMap::new(), funcs: Vec::new(), imports: Vec::new() }) }
    }
}
impl<T> Inner<T> {
    fn alloc(&mut self, n: usize) -> usize {
        let at = self.top;
        self.top += n.max(1).div_ceil(8) * 8;
        self.mem.resize(self.top, 0);
        self.sizes.insert(at, n);
        at
    }
    fn out(&self, ptr: usize) -> Vec<u8> {
        match self.sizes.get(&ptr) { Some(n) => self.mem[ptr..ptr + n].to_vec(), None => Vec::new() }
    }
}
unsafe fn enter<T>(p: *mut (), import: usize, bytes: &[u8]) -> Option<Vec<u8>> {
    let i = &mut *(p as *mut Inner<T>);
    let at = i.alloc(bytes.len());
    i.mem[at..at + bytes.len()].copy_from_slice(bytes);
    let f = i.funcs[i.imports[import]].clone();
    let r = f(Caller { p: p as *mut Inner<T>, l: PhantomData }, at as u32, bytes.len() as u32) as usize;
    let i = &mut *(p as *mut Inner<T>);
    if r == 0 { None } else { Some(i.out(r)) }
}
pub struct Caller<'a, T> { p: *mut Inner<T>, l: PhantomData<&'a mut T> }
pub struct StoreContextMut<'a, T> { p: *mut Inner<T>, l: PhantomData<&'a mut T> }
pub trait AsContextMut {
    type Data;
    fn as_context_mut(&mut self) -> StoreContextMut<'_, Self::Data>;
}
impl<T> AsContextMut for Store<T> {
    type Data = T;
    fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut { p: &mut *self.inner, l: PhantomData } }
}
impl<T> AsContextMut for Caller<'_, T> {
    type Data = T;
    fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut { p: self.p, l: PhantomData } }
}
impl<T> AsContextMut for StoreContextMut<'_, T> {
    type Data = T;
    fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut { p: self.p, l: PhantomData } }
}
impl<C: AsContextMut> AsContextMut for &mut C {
    type Data = C::Data;
    fn as_context_mut(&mut self) -> StoreContextMut<'_, C::Data> { C::as_context_mut(self) }
}
impl<T> Caller<'_, T> {
    pub fn get_export(&mut self, name: &str) -> Option<Extern> { export(name) }
    pub fn data(&self) -> &T { unsafe { &(*self.p).data } }
}
fn export(name: &str) -> Option<Extern> {
    match name { "memory" => Some(Extern::Memory(Memory)), "alloc" => Some(Extern::Func(Func(usize::MAX))), _ => None }
}
#[derive(Clone, Copy)]
pub struct Memory;
impl Memory {
    pub fn data<'a, T>(&self, c: &'a StoreContextMut<'_, T>) -> &'a [u8] { unsafe { &(*c.p).mem } }
    pub fn data_mut<'a, T>(&self, c: StoreContextMut<'a, T>) -> &'a mut [u8] { unsafe { &mut (*c.p).mem } }
}
#[derive(Clone, Copy)]
pub struct Func(usize);
pub enum Extern { Func(Func), Memory(Memory) }
impl From<Func> for Extern { fn from(f: Func) -> Extern { Extern::Func(f) } }
pub trait Ret { fn get(self) -> u32; }
impl Ret for () { fn get(self) -> u32 { 0 } }
impl Ret for u32 { fn get(self) -> u32 { self } }
impl Func {
    pub fn wrap<T, R: Ret>(store: &mut Store<T>, f: impl Fn(Caller<'_, T>, u32, u32) -> R + 'static) -> Func {
        store.inner.funcs.push(Rc::new(move |c: Caller<'_, T>, a: u32, b: u32| f(c, a, b).get()));
        Func(store.inner.funcs.len() - 1)
    }
    pub fn typed<P: WasmParams, R: WasmResults>(&self, _: impl AsContextMut) -> Result<TypedFunc<P, R>, String> { Ok(TypedFunc { name: "alloc".into(), l: PhantomData }) }
}
#[derive(Clone, Copy)]
pub struct Instance;
impl Instance {
    pub fn new<T>(store: &mut Store<T>, _: &Module, imports: &[Extern]) -> Result<Instance, String> {
        store.inner.imports = imports.iter().map(|e| match e { Extern::Func(f) => f.0, _ => usize::MAX }).collect();
        Ok(Instance)
    }
    pub fn get_export(&self, _: impl AsContextMut, name: &str) -> Option<Extern> { export(name) }
    pub fn get_typed_func<P: WasmParams, R: WasmResults>(&self, _: impl AsContextMut, name: &str) -> Result<TypedFunc<P, R>, String> {
        Ok(TypedFunc { name: name.into(), l: PhantomData })
    }
}
pub trait WasmParams { fn list(self) -> Vec<u64>; }
impl WasmParams for u32 { fn list(self) -> Vec<u64> { vec![self as u64] } }
impl WasmParams for (u32, u32) { fn list(self) -> Vec<u64> { vec![self.0 as u64, self.1 as u64] } }
impl WasmParams for (u64, u32) { fn list(self) -> Vec<u64> { vec![self.0, self.1 as u64] } }
pub trait WasmResults { fn from(x: u64) -> Self; }
impl WasmResults for () { fn from(_: u64) {} }
impl WasmResults for u32 { fn from(x: u64) -> u32 { x as u32 } }
impl WasmResults for u64 { fn from(x: u64) -> u64 { x } }
pub struct TypedFunc<P, R> { name: String, l: PhantomData<(P, R)> }
impl<P: WasmParams, R: WasmResults> TypedFunc<P, R> {
    pub fn call<C: AsContextMut>(&self, mut store: C, params: P) -> Result<R, String> {
        let p = store.as_context_mut().p;
        let params = params.list();
        if self.name == "alloc" {
            return Ok(R::from(unsafe { (*p).alloc(params[0] as usize) } as u64));
        }
        let Some(g) = GUEST.with(|g| g.borrow().clone()) else { return Err("no guest".into()) };
        let before = CURRENT.with(|c| c.replace((p as *mut (), Some(enter::<C::Data>))));
        let r = g.call(&self.name, &params, &|ptr| unsafe { (*p).out(ptr as usize) });
        CURRENT.with(|c| c.set(before));
        Ok(R::from(r))
    }
}
