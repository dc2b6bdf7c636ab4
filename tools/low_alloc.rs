// the library passes pointers as u32: allocate below 4 GiB
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const CLASSES: usize = 40;
/// power-of-two size classes, free lists under a spin lock, carved from one low mapping
pub struct LowAlloc {
    lock: AtomicBool,
    cur: AtomicUsize,
    end: AtomicUsize,
    free: [AtomicUsize; CLASSES],
}
impl LowAlloc {
    pub const fn new() -> LowAlloc {
        #[allow(clippy::declare_interior_mutable_const)]
        const Z: AtomicUsize = AtomicUsize::new(0);
        LowAlloc { lock: AtomicBool::new(false), cur: AtomicUsize::new(0), end: AtomicUsize::new(0), free: [Z; CLASSES] }
    }
    fn class(l: &Layout) -> usize {
        let n = l.size().max(l.align()).max(16);
        n.next_power_of_two().trailing_zeros() as usize
    }
}
impl Default for LowAlloc {
    fn default() -> Self {
        Self::new()
    }
}
unsafe impl GlobalAlloc for LowAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = Self::class(&l);
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let head = self.free[c].load(Ordering::Relaxed);
        let out = if head != 0 {
            self.free[c].store(*(head as *const usize), Ordering::Relaxed);
            head
        } else {
            let size = 1usize << c;
            let mut cur = self.cur.load(Ordering::Relaxed);
            if cur == 0 {
                // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
                let len = 0xe000_0000usize;
                let p = mmap(0x1000_0000usize as *mut u8, len, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0);
                if (p as isize) == -1 {
                    self.lock.store(false, Ordering::Release);
                    return std::ptr::null_mut();
                }
                cur = p as usize;
                self.end.store(cur + len, Ordering::Relaxed);
            }
            let align = l.align().max(16).max(size.min(4096));
            cur = (cur + align - 1) & !(align - 1);
            if cur + size > self.end.load(Ordering::Relaxed) {
                self.lock.store(false, Ordering::Release);
                return std::ptr::null_mut();
            }
            self.cur.store(cur + size, Ordering::Relaxed);
            cur
        };
        self.lock.store(false, Ordering::Release);
        out as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = Self::class(&l);
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        *(p as *mut usize) = self.free[c].load(Ordering::Relaxed);
        self.free[c].store(p as usize, Ordering::Relaxed);
        self.lock.store(false, Ordering::Release);
    }
}
#[global_allocator]
static ALLOC: LowAlloc = LowAlloc::new();
