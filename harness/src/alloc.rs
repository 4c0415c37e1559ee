//! Global allocator: scheduling points at allocations, and guarded allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicU8, Ordering};

/// 0: normal, 1: every allocation ends at an inaccessible page, 2: starts after one
static MODE: AtomicU8 = AtomicU8::new(0);
/// byte new guarded memory is filled with (0: zero pages)
static FILL: AtomicU8 = AtomicU8::new(0);

/// bytes and blocks that are allocated and not released (guarded blocks are not counted)
static BYTES: AtomicIsize = AtomicIsize::new(0);
static BLOCKS: AtomicIsize = AtomicIsize::new(0);
pub fn live() -> (isize, isize) {
    (BYTES.load(Ordering::Relaxed), BLOCKS.load(Ordering::Relaxed))
}
fn count(bytes: isize, blocks: isize) {
    BYTES.fetch_add(bytes, Ordering::Relaxed);
    BLOCKS.fetch_add(blocks, Ordering::Relaxed);
}

pub struct A;

const PAGE: usize = 4096;
/// guarded blocks live in this range
const BASE: usize = 0x6000_0000_0000;
const SPAN: usize = 1 << 42;
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(BASE);

pub fn is_guarded(p: *const u8) -> bool {
    (p as usize) >= BASE && (p as usize) < BASE + SPAN
}

/// Guarded block: pages [guard | data | guard]; the data is pushed against the end or the start.
pub unsafe fn guarded_alloc(size: usize, align: usize, at_end: bool) -> *mut u8 {
    let data = (size + PAGE - 1) / PAGE * PAGE;
    let data = data.max(PAGE);
    let total = data + 2 * PAGE;
    let addr = NEXT.fetch_add(total, Ordering::SeqCst);
    if addr + total > BASE + SPAN {
        return std::ptr::null_mut();
    }
    let p = libc::mmap((addr + PAGE) as *mut _, data, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
    if p == libc::MAP_FAILED {
        return std::ptr::null_mut();
    }
    let p = p as *mut u8;
    let f = FILL.load(Ordering::Relaxed);
    if f != 0 {
        std::ptr::write_bytes(p, f, data);
    }
    let off = if at_end { (data - size) / align * align } else { 0 };
    p.add(off)
}
/// Memory is unmapped, so any later use faults.
pub unsafe fn guarded_free(p: *mut u8, size: usize) {
    let start = (p as usize) / PAGE * PAGE;
    let data = ((size + PAGE - 1) / PAGE * PAGE).max(PAGE);
    libc::munmap(start as *mut _, data);
}

pub fn set_mode(m: u8, fill: u8) {
    FILL.store(fill, Ordering::SeqCst);
    MODE.store(m, Ordering::SeqCst);
}
pub fn reset() {
    set_mode(0, 0);
}
/// Allocations of the calling code are guarded while `f` runs.
pub fn with_guards<R>(m: u8, fill: u8, f: impl FnOnce() -> R) -> R {
    set_mode(m, fill);
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            reset()
        }
    }
    let _d = D;
    f()
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        simrt::alloc_point();
        let m = MODE.load(Ordering::Relaxed);
        if m != 0 {
            return guarded_alloc(l.size(), l.align(), m == 1);
        }
        let p = System.alloc(l);
        count(l.size() as isize, 1);
        simrt::tsan::forget(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        simrt::alloc_point();
        let m = MODE.load(Ordering::Relaxed);
        if m != 0 {
            let p = guarded_alloc(l.size(), l.align(), m == 1);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        let p = System.alloc_zeroed(l);
        count(l.size() as isize, 1);
        simrt::tsan::forget(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if is_guarded(p) {
            guarded_free(p, l.size())
        } else {
            simrt::alloc_point();
            simrt::tsan::forget(p, l.size());
            count(-(l.size() as isize), -1);
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if is_guarded(p) || MODE.load(Ordering::Relaxed) != 0 {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        simrt::alloc_point();
        simrt::tsan::forget(p, l.size());
        let q = System.realloc(p, l, n);
        count(n as isize - l.size() as isize, 0);
        simrt::tsan::forget(q, n);
        q
    }
}
