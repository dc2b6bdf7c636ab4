//! Stand-in for the JavaScript side: an allocator below 4 GiB (the library passes pointers as u32), an independent
//! codec of the documented wire layout, and a scripted host.
pub mod dom_model;
pub mod host;
pub mod net;
pub mod wire;
use std::alloc::{GlobalAlloc, Layout};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const CLASSES: usize = 40;
/// power-of-two size classes, free lists under a spin lock, carved from one low mapping
pub struct LowAlloc {
    lock: AtomicBool,
    cur: AtomicUsize,
    end: AtomicUsize,
    free: [AtomicUsize; CLASSES],
}
impl LowAlloc {
    pub const fn new() -> LowAlloc {
        #[allow(clippy::declare_interior_mutable_const)]
        const Z: AtomicUsize = AtomicUsize::new(0);
        LowAlloc { lock: AtomicBool::new(false), cur: AtomicUsize::new(0), end: AtomicUsize::new(0), free: [Z; CLASSES] }
    }
    fn class(l: &Layout) -> usize {
        let n = l.size().max(l.align()).max(16);
        n.next_power_of_two().trailing_zeros() as usize
    }
}
impl Default for LowAlloc {
    fn default() -> Self {
        Self::new()
    }
}
unsafe impl GlobalAlloc for LowAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = Self::class(&l);
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let head = self.free[c].load(Ordering::Relaxed);
        let out = if head != 0 {
            self.free[c].store(*(head as *const usize), Ordering::Relaxed);
            head
        } else {
            let size = 1usize << c;
            let mut cur = self.cur.load(Ordering::Relaxed);
            if cur == 0 {
                // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
                let len = 0xe000_0000usize;
                let p = mmap(0x1000_0000usize as *mut u8, len, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0);
                if (p as isize) == -1 {
                    self.lock.store(false, Ordering::Release);
                    return std::ptr::null_mut();
                }
                cur = p as usize;
                self.end.store(cur + len, Ordering::Relaxed);
            }
            let align = l.align().max(16).max(size.min(4096));
            cur = (cur + align - 1) & !(align - 1);
            if cur + size > self.end.load(Ordering::Relaxed) {
                self.lock.store(false, Ordering::Release);
                return std::ptr::null_mut();
            }
            self.cur.store(cur + size, Ordering::Relaxed);
            cur
        };
        if watch::ON.load(Ordering::Relaxed) {
            watch::given(out, &l, 1usize << c);
        }
        self.lock.store(false, Ordering::Release);
        out as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = Self::class(&l);
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        if watch::ON.load(Ordering::Relaxed) && !watch::taken(p as usize, &l) {
            self.lock.store(false, Ordering::Release);
            return;
        }
        *(p as *mut usize) = self.free[c].load(Ordering::Relaxed);
        self.free[c].store(p as usize, Ordering::Relaxed);
        self.lock.store(false, Ordering::Release);
    }
}
/// Watches the memory handed out between start and stop: it has to come back once, as what it was asked for, and
/// untouched past its end.
pub mod watch {
    use super::*;
    pub static ON: AtomicBool = AtomicBool::new(false);
    const N: usize = 1 << 16;
    const FREED: usize = usize::MAX;
    // place, size, alignment, room; used under the allocator's lock
    static mut T: [(usize, usize, usize, usize); N] = [(0, 0, 0, 0); N];
    static mut LIVE: usize = 0;
    static mut FAULT: Option<(u8, usize, usize, usize, usize)> = None;

    unsafe fn slot(p: usize) -> Option<usize> {
        let mut i = (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48;
        for _ in 0..N {
            if T[i].0 == p || T[i].0 == 0 {
                return Some(i);
            }
            i = (i + 1) % N;
        }
        None
    }
    pub(crate) unsafe fn given(p: usize, l: &Layout, room: usize) {
        if room <= 1 << 20 {
            std::ptr::write_bytes(p as *mut u8, 0xCD, l.size());
            std::ptr::write_bytes((p + l.size()) as *mut u8, 0xA5, room - l.size());
        }
        if let Some(i) = slot(p) {
            T[i] = (p, l.size(), l.align(), room);
            LIVE += 1;
        }
    }
    /// whether to go on and give it back
    pub(crate) unsafe fn taken(p: usize, l: &Layout) -> bool {
        let Some(i) = slot(p) else { return true };
        let (q, size, align, room) = T[i];
        if q == 0 {
            return true;
        }
        let what = if size == FREED {
            1
        } else if size != l.size() || align != l.align() {
            2
        } else if room <= 1 << 20 && (size..room).any(|k| *((p + k) as *const u8) != 0xA5) {
            3
        } else {
            0
        };
        if what != 0 && FAULT.is_none() {
            FAULT = Some((what, size, align, l.size(), l.align()));
        }
        if size != FREED {
            LIVE -= 1;
            T[i].1 = FREED;
        }
        what == 0
    }
    pub fn start() {
        ON.store(false, Ordering::SeqCst);
        unsafe {
            for i in 0..N {
                T[i] = (0, 0, 0, 0);
            }
            LIVE = 0;
            FAULT = None;
        }
        ON.store(true, Ordering::SeqCst);
    }
    pub fn live() -> usize {
        unsafe { LIVE }
    }
    pub fn fault() -> Option<String> {
        let (what, size, align, s, a) = unsafe { FAULT }?;
        Some(match what {
            1 => format!("{s} bytes of memory are given back twice"),
            2 => format!("memory allocated as {size} bytes aligned to {align} is given back as {s} bytes aligned to {a}"),
            _ => format!("something is written past the end of {size} bytes of memory"),
        })
    }
    pub fn stop() {
        ON.store(false, Ordering::SeqCst);
    }
}
#[global_allocator]
static ALLOC: LowAlloc = LowAlloc::new();

/// A value of the wire format, written down from the documented layout and not from the library
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F64(u64),
    True,
    False,
    Null,
    Undef,
    Vec(Vec<u8>),
    Str(String),
    List(Vec<W>),
    Obj(BTreeMap<String, W>),
    Json(J),
}
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    True,
    False,
    Null,
    Str(String),
    Num(u64),
    List(Vec<J>),
    Obj(BTreeMap<String, J>),
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        let s = self.b.get(self.p..self.p + n)?;
        self.p += n;
        Some(s)
    }
    fn n(&mut self, n: usize) -> Option<u64> {
        Some(self.take(n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64))
    }
    fn s(&mut self) -> Option<String> {
        let n = self.n(4)? as usize;
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
    pub fn w(&mut self) -> Option<W> {
        Some(match self.n(1)? {
            1 => W::U32(self.n(4)? as u32),
            2 => W::I32(self.n(4)? as u32 as i32),
            3 => W::U64(self.n(8)?),
            4 => W::I64(self.n(8)? as i64),
            5 => W::F64(self.n(8)?),
            6 => W::True,
            7 => W::False,
            8 => W::Null,
            9 => W::Undef,
            10 => {
                let n = self.n(4)? as usize;
                W::Vec(self.take(n)?.to_vec())
            }
            11 => W::Str(self.s()?),
            12 => {
                let n = self.n(4)?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.w()?);
                }
                W::List(v)
            }
            13 => {
                let n = self.n(2)?;
                let mut v = BTreeMap::new();
                for _ in 0..n {
                    let k = self.s()?;
                    let x = self.w()?;
                    if v.insert(k, x).is_some() {
                        return None;
                    }
                }
                W::Obj(v)
            }
            14 => W::Json(self.j()?),
            _ => return None,
        })
    }
    pub fn j(&mut self) -> Option<J> {
        Some(match self.n(1)? {
            1 => J::True,
            2 => J::False,
            3 => J::Null,
            4 => J::Str(self.s()?),
            5 => J::Num(self.n(8)?),
            6 => {
                let n = self.n(4)?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.j()?);
                }
                J::List(v)
            }
            7 => {
                let n = self.n(2)?;
                let mut v = BTreeMap::new();
                for _ in 0..n {
                    let k = self.s()?;
                    let x = self.j()?;
                    if v.insert(k, x).is_some() {
                        return None;
                    }
                }
                J::Obj(v)
            }
            _ => return None,
        })
    }
}
