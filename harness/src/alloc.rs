//! Allocator that counts, per thread, the memory held since `start`, and refuses
//! absurd requests so that they end the process instead of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
pub struct Counting;
// While a thread has an arena, its memory comes from there and is never reused, so that
// allocating involves no memory shared between threads.
#[cfg(feature = "pure")]
pub mod arena {
    use std::cell::Cell;
    pub const BASE: usize = 0x6000_0000_0000;
    pub const SIZE: usize = 1 << 32;
    pub const COUNT: usize = 8;
    thread_local! {
        pub static NEXT: Cell<usize> = const { Cell::new(0) };
    }
    #[inline]
    pub fn alloc(l: std::alloc::Layout) -> Option<*mut u8> {
        let n = NEXT.try_with(|n| n.get()).unwrap_or(0);
        if n == 0 {
            return None;
        }
        let p = (n + l.align() - 1) & !(l.align() - 1);
        let _ = NEXT.try_with(|n| n.set(p + l.size()));
        Some(p as *mut u8)
    }
    /// Whether the block is left alone.
    #[inline]
    pub fn keeps(p: *mut u8) -> bool {
        (p as usize).wrapping_sub(BASE) < SIZE * COUNT || NEXT.try_with(|n| n.get()).unwrap_or(0) != 0
    }
}
const REFUSE: usize = if usize::BITS == 32 { 1 << 30 } else { 1 << 32 };

impl Counting {
    #[inline]
    fn add(n: isize) {
        let _ = CUR.try_with(|c| {
            let v = c.get() + n;
            c.set(v);
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            if n > 0 {
                let _ = BIGGEST.try_with(|b| {
                    if n as usize > b.get() {
                        b.set(n as usize)
                    }
                });
            }
        });
    }
}
unsafe impl GlobalAlloc for Counting {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        #[cfg(feature = "pure")]
        if let Some(p) = arena::alloc(l) {
            return p;
        }
        Self::add(l.size() as isize);
        System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        #[cfg(feature = "pure")]
        if arena::keeps(p) {
            return;
        }
        Self::add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        #[cfg(feature = "pure")]
        if let Some(p) = arena::alloc(l) {
            std::ptr::write_bytes(p, 0, l.size());
            return p;
        }
        Self::add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        #[cfg(feature = "pure")]
        if arena::keeps(p) {
            let m = Layout::from_size_align_unchecked(n, l.align());
            let q = match arena::alloc(m) {
                Some(q) => q,
                None => System.alloc(m),
            };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            }
            return q;
        }
        Self::add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Runs f and returns its result and the most memory it held at once beyond what
/// was held before.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let p = PEAK.with(|p| p.get());
    (r, (p - base).max(0) as usize)
}
