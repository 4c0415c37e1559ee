//! Access-level instrumentation.
//!
//! The binary of C09/C10 is compiled with the compiler's thread-sanitizer pass, whose calls land
//! here instead of in the sanitizer's runtime.  While an execution is *recorded*, every memory
//! access of a controlled task is checked against the accesses of the other tasks with vector
//! clocks; the code addresses of conflicting accesses (same bytes, one of them a write, not ordered
//! by spawn, join or synchronisation; or atomic operations of two concurrent tasks on the same
//! word) are collected.  `explore_accesses` then enumerates the schedules in which those code
//! addresses are scheduling points.  A conflict is no verdict; only a wrong result is.

use crate::{active, point_slow, RtGuard, TID};
use std::cell::UnsafeCell;
use std::ffi::c_void;
use std::collections::{BTreeSet, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::*;

/// 1: record conflicts; 2: the conflicting addresses in `POINTS` are scheduling points
static MODE: AtomicU8 = AtomicU8::new(0);

#[derive(Default, Clone)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_usize(&mut self, x: usize) {
        let h = (x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = h ^ (h >> 29);
    }
}
type Map<V> = HashMap<usize, V, BuildHasherDefault<IdHash>>;

#[derive(Clone, Copy)]
struct Acc {
    tid: u32,
    clk: u32,
    sclk: u32,
    mask: u8,
    atomic: bool,
    pc: usize,
}
const NONE: Acc = Acc { tid: 0, clk: 0, sclk: 0, mask: 0, atomic: false, pc: 0 };
/// One entry per task, code address and bytes, so that every conflicting site is found.
struct List {
    n: usize,
    first: [Acc; 2],
    more: Vec<Acc>,
}
impl Default for List {
    fn default() -> Self {
        List { n: 0, first: [NONE; 2], more: Vec::new() }
    }
}
impl List {
    #[inline]
    fn iter(&self) -> impl Iterator<Item = &Acc> {
        self.first[..self.n].iter().chain(self.more.iter())
    }
    #[inline]
    fn put(&mut self, a: Acc) {
        for o in self.first[..self.n].iter_mut().chain(self.more.iter_mut()) {
            if o.tid == a.tid && o.pc == a.pc && o.mask == a.mask {
                *o = a;
                return;
            }
        }
        if self.n < 2 {
            self.first[self.n] = a;
            self.n += 1;
        } else {
            self.more.push(a);
        }
    }
}
#[derive(Default)]
struct Cell_ {
    w: List,
    r: List,
}
#[derive(Default, Clone)]
struct Clock {
    /// happens-before
    v: Vec<u32>,
    /// spawn and join edges only
    s: Vec<u32>,
    /// released to this task by relaxed loads, to be taken by an acquire fence
    pend: Vec<u32>,
    /// what a release fence publishes
    fence: Vec<u32>,
}
#[derive(Default)]
struct Shadow {
    mem: Map<Cell_>,
    sync: Map<Vec<u32>>,
    clocks: Vec<Clock>,
    found: BTreeSet<usize>,
    points: BTreeSet<usize>,
    accesses: u64,
}
struct Global(UnsafeCell<Option<Shadow>>);
// only the task that holds the baton (or the thread that waits for all of them) touches it
unsafe impl Sync for Global {}
static SH: Global = Global(UnsafeCell::new(None));
/// Bloom filter over `points`
static FILTER: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

/// The shadow's own allocations must not be reported back to it.
static BUSY: AtomicBool = AtomicBool::new(false);
fn with<R>(f: impl FnOnce(&mut Shadow) -> R) -> R {
    BUSY.store(true, Ordering::Relaxed);
    let r = f(unsafe { (*SH.0.get()).get_or_insert_with(Default::default) });
    BUSY.store(false, Ordering::Relaxed);
    r
}
fn get(v: &[u32], i: usize) -> u32 {
    v.get(i).copied().unwrap_or(0)
}
fn merge(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}
fn bump(v: &mut Vec<u32>, i: usize) {
    if v.len() <= i {
        v.resize(i + 1, 0);
    }
    v[i] += 1;
}
impl Shadow {
    fn clock(&mut self, t: usize) -> &mut Clock {
        while self.clocks.len() <= t {
            let i = self.clocks.len();
            let mut c = Clock::default();
            bump(&mut c.v, i);
            bump(&mut c.s, i);
            self.clocks.push(c);
        }
        &mut self.clocks[t]
    }
    fn access(&mut self, t: usize, addr: usize, len: usize, write: bool, atomic: bool, pc: usize) {
        self.accesses += 1;
        self.clock(t);
        let c = &self.clocks[t];
        let (clk, sclk) = (get(&c.v, t), get(&c.s, t));
        let mut a = addr;
        let end = addr + len;
        while a < end {
            let g = a >> 3;
            let lo = a & 7;
            let hi = (end - (g << 3)).min(8);
            let mask = (((1u16 << hi) - 1) & !((1u16 << lo) - 1)) as u8;
            let cell = self.mem.entry(g).or_default();
            let me = Acc { tid: t as u32, clk, sclk, mask, atomic, pc };
            for list in [Some(&cell.w), if write { Some(&cell.r) } else { None }].into_iter().flatten() {
                for o in list.iter() {
                    let ot = o.tid as usize;
                    if ot == t || o.mask & mask == 0 {
                        continue;
                    }
                    let unordered = if atomic && o.atomic { o.sclk > get(&c.s, ot) } else { o.clk > get(&c.v, ot) };
                    if unordered {
                        self.found.insert(o.pc);
                        self.found.insert(pc);
                    }
                }
            }
            if write { &mut cell.w } else { &mut cell.r }.put(me);
            a = (g + 1) << 3;
        }
    }
    fn acquire(&mut self, t: usize, addr: usize) {
        if let Some(v) = self.sync.get(&addr) {
            let v = v.clone();
            merge(&mut self.clock(t).v, &v);
        }
    }
}

fn is_point(pc: usize) -> bool {
    let h = (pc.wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> 52;
    FILTER[h >> 6].load(Ordering::Relaxed) >> (h & 63) & 1 == 1 && with(|s| s.points.contains(&pc))
}

#[inline]
fn hook(addr: usize, len: usize, write: bool, pc: usize) {
    let m = MODE.load(Ordering::Relaxed);
    if m != 0 && active() {
        slow(m, addr, len, write, false, pc)
    }
}
#[inline(never)]
fn slow(m: u8, addr: usize, len: usize, write: bool, atomic: bool, pc: usize) {
    let _g = RtGuard::new();
    if m & 2 != 0 && is_point(pc) {
        point_slow();
    }
    if m & 1 != 0 {
        let t = TID.with(|t| t.get());
        with(|s| s.access(t, addr, len, write, atomic, pc));
    }
}
/// memory orders as the pass encodes them
const ACQ: [i32; 4] = [1, 2, 4, 5];
const REL: [i32; 3] = [3, 4, 5];
fn hook_atomic(addr: usize, len: usize, load: bool, store: bool, mo: i32, pc: usize) {
    if !active() {
        return;
    }
    // a task that keeps asking the same word waits for another one
    let n = SPIN.with(|s| {
        let (p, a, n) = s.get();
        let n = if p == pc && a == addr { n + 1 } else { 0 };
        s.set((pc, addr, n));
        n
    });
    if n > 0 && n % 40 == 0 {
        crate::yield_now();
    }
    let m = MODE.load(Ordering::Relaxed);
    if m == 0 {
        return;
    }
    slow(m, addr, len, store, true, pc);
    if m & 1 != 0 {
        let _g = RtGuard::new();
        let t = TID.with(|t| t.get());
        with(|s| {
            s.clock(t);
            if load {
                if ACQ.contains(&mo) {
                    s.acquire(t, addr);
                } else if let Some(v) = s.sync.get(&addr) {
                    merge(&mut s.clocks[t].pend, v);
                }
            }
            if store {
                let out = if REL.contains(&mo) { s.clocks[t].v.clone() } else { s.clocks[t].fence.clone() };
                let e = s.sync.entry(addr).or_default();
                if !load {
                    e.clear();
                }
                merge(e, &out);
                if REL.contains(&mo) {
                    bump(&mut s.clocks[t].v, t);
                }
            }
        });
    }
}
thread_local! { static SPIN: std::cell::Cell<(usize, usize, u32)> = const { std::cell::Cell::new((0, 0, 0)) }; }

// ------------------------------------------------------------------------------------------
// edges known to the scheduler
// ------------------------------------------------------------------------------------------
pub(crate) fn spawned(parent: usize, child: usize) {
    if MODE.load(Ordering::Relaxed) & 1 != 0 {
        with(|s| {
            s.clock(child.max(parent));
            let p = s.clocks[parent].clone();
            merge(&mut s.clocks[child].v, &p.v);
            merge(&mut s.clocks[child].s, &p.s);
            bump(&mut s.clocks[parent].v, parent);
            bump(&mut s.clocks[parent].s, parent);
        })
    }
}
pub(crate) fn joined(parent: usize, child: usize) {
    if MODE.load(Ordering::Relaxed) & 1 != 0 {
        with(|s| {
            s.clock(child.max(parent));
            let c = s.clocks[child].clone();
            merge(&mut s.clocks[parent].v, &c.v);
            merge(&mut s.clocks[parent].s, &c.s);
        })
    }
}
pub(crate) fn futex_passed(t: usize, addr: usize) {
    if MODE.load(Ordering::Relaxed) & 1 != 0 {
        with(|s| s.acquire(t, addr));
    }
}
/// Memory is handed out or taken back: forget what was there.
#[inline]
pub fn forget(p: *const u8, size: usize) {
    if MODE.load(Ordering::Relaxed) & 1 != 0 && crate::CUR.try_with(|c| !c.get().is_null()).unwrap_or(false) {
        forget_slow(p as usize, size)
    }
}
#[inline(never)]
fn forget_slow(p: usize, size: usize) {
    if BUSY.load(Ordering::Relaxed) {
        return;
    }
    let _g = RtGuard::new();
    with(|s| {
        let (a, b) = (p >> 3, (p + size + 7) >> 3);
        if b - a > 4 * s.mem.len() + 64 {
            s.mem.retain(|g, _| *g < a || *g >= b);
        } else {
            for g in a..b {
                s.mem.remove(&g);
            }
        }
        if !s.sync.is_empty() {
            s.sync.retain(|g, _| *g < p || *g >= p + size);
        }
    })
}

// ------------------------------------------------------------------------------------------
// control
// ------------------------------------------------------------------------------------------
/// Is this binary instrumented?  (The pass calls `__tsan_init` before main.)
static INIT: AtomicBool = AtomicBool::new(false);
pub fn instrumented() -> bool {
    INIT.load(Ordering::Relaxed)
}
pub fn begin(mode: u8) {
    with(|s| {
        s.mem.clear();
        s.sync.clear();
        s.clocks.clear();
    });
    MODE.store(mode, Ordering::SeqCst);
}
pub fn end() {
    MODE.store(0, Ordering::SeqCst);
}
pub fn reset() {
    with(|s| {
        s.found.clear();
        s.points.clear();
        s.accesses = 0;
    });
    for f in &FILTER {
        f.store(0, Ordering::Relaxed);
    }
}
/// Conflicting code addresses found so far.
pub fn found() -> Vec<usize> {
    with(|s| s.found.iter().copied().collect())
}
pub fn add_found(pcs: &[usize]) {
    with(|s| s.found.extend(pcs))
}
pub fn accesses() -> u64 {
    with(|s| s.accesses)
}
/// Make everything found so far a scheduling point; false if nothing is new.
pub fn adopt() -> bool {
    with(|s| {
        let n = s.points.len();
        for pc in s.found.iter() {
            s.points.insert(*pc);
            let h = (pc.wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> 52;
            FILTER[h >> 6].fetch_or(1 << (h & 63), Ordering::Relaxed);
        }
        s.points.len() > n
    })
}
pub fn points() -> usize {
    with(|s| s.points.len())
}

// ------------------------------------------------------------------------------------------
// what the pass calls; the trampolines pass the return address along
// ------------------------------------------------------------------------------------------
macro_rules! trampolines {
    ($($n:literal $f:literal $reg:literal;)*) => {
        core::arch::global_asm!($(concat!(".globl ", $n, "\n.type ", $n, ",@function\n", $n, ":\n mov ", $reg, ", qword ptr [rsp]\n jmp ", $f, "\n")),*);
    };
}
macro_rules! plain {
    ($($r:ident $w:ident $len:literal;)*) => {$(
        #[no_mangle]
        extern "C" fn $r(a: usize, pc: usize) { hook(a, $len, false, pc) }
        #[no_mangle]
        extern "C" fn $w(a: usize, pc: usize) { hook(a, $len, true, pc) }
    )*};
}
plain! { fsts_r1 fsts_w1 1; fsts_r2 fsts_w2 2; fsts_r4 fsts_w4 4; fsts_r8 fsts_w8 8; fsts_r16 fsts_w16 16; }
trampolines! {
    "__tsan_read1" "fsts_r1" "rsi"; "__tsan_read2" "fsts_r2" "rsi"; "__tsan_read4" "fsts_r4" "rsi"; "__tsan_read8" "fsts_r8" "rsi"; "__tsan_read16" "fsts_r16" "rsi";
    "__tsan_write1" "fsts_w1" "rsi"; "__tsan_write2" "fsts_w2" "rsi"; "__tsan_write4" "fsts_w4" "rsi"; "__tsan_write8" "fsts_w8" "rsi"; "__tsan_write16" "fsts_w16" "rsi";
    "__tsan_unaligned_read1" "fsts_r1" "rsi"; "__tsan_unaligned_read2" "fsts_r2" "rsi"; "__tsan_unaligned_read4" "fsts_r4" "rsi"; "__tsan_unaligned_read8" "fsts_r8" "rsi"; "__tsan_unaligned_read16" "fsts_r16" "rsi";
    "__tsan_unaligned_write1" "fsts_w1" "rsi"; "__tsan_unaligned_write2" "fsts_w2" "rsi"; "__tsan_unaligned_write4" "fsts_w4" "rsi"; "__tsan_unaligned_write8" "fsts_w8" "rsi"; "__tsan_unaligned_write16" "fsts_w16" "rsi";
    "__tsan_volatile_read1" "fsts_r1" "rsi"; "__tsan_volatile_read2" "fsts_r2" "rsi"; "__tsan_volatile_read4" "fsts_r4" "rsi"; "__tsan_volatile_read8" "fsts_r8" "rsi"; "__tsan_volatile_read16" "fsts_r16" "rsi";
    "__tsan_volatile_write1" "fsts_w1" "rsi"; "__tsan_volatile_write2" "fsts_w2" "rsi"; "__tsan_volatile_write4" "fsts_w4" "rsi"; "__tsan_volatile_write8" "fsts_w8" "rsi"; "__tsan_volatile_write16" "fsts_w16" "rsi";
    "__tsan_read_write1" "fsts_w1" "rsi"; "__tsan_read_write2" "fsts_w2" "rsi"; "__tsan_read_write4" "fsts_w4" "rsi"; "__tsan_read_write8" "fsts_w8" "rsi"; "__tsan_read_write16" "fsts_w16" "rsi";
    "__tsan_unaligned_read_write2" "fsts_w2" "rsi"; "__tsan_unaligned_read_write4" "fsts_w4" "rsi"; "__tsan_unaligned_read_write8" "fsts_w8" "rsi"; "__tsan_unaligned_read_write16" "fsts_w16" "rsi";
    "__tsan_vptr_read" "fsts_r8" "rsi"; "__tsan_vptr_update" "fsts_vptr" "rdx";
    "__tsan_read_range" "fsts_rr" "rdx"; "__tsan_write_range" "fsts_wr" "rdx";
    "__tsan_memcpy" "fsts_memcpy" "rcx"; "__tsan_memmove" "fsts_memmove" "rcx"; "__tsan_memset" "fsts_memset" "rcx";
}
#[no_mangle]
extern "C" fn fsts_vptr(a: usize, _v: usize, pc: usize) {
    hook(a, 8, true, pc)
}
#[no_mangle]
extern "C" fn fsts_rr(a: usize, n: usize, pc: usize) {
    hook(a, n, false, pc)
}
#[no_mangle]
extern "C" fn fsts_wr(a: usize, n: usize, pc: usize) {
    hook(a, n, true, pc)
}
extern "C" {
    fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
    fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
    fn memset(d: *mut c_void, v: i32, n: usize) -> *mut c_void;
}
/// Piece sizes of a block operation: a conflicting one may be interrupted between pieces.
fn pieces(n: usize, pc: usize) -> usize {
    if MODE.load(Ordering::Relaxed) & 2 != 0 && active() && is_point(pc) {
        (n / 6 / 8 * 8).max(8)
    } else {
        n.max(1)
    }
}
#[no_mangle]
unsafe extern "C" fn fsts_memcpy(d: *mut u8, s: *const u8, n: usize, pc: usize) -> *mut u8 {
    if MODE.load(Ordering::Relaxed) == 0 {
        memcpy(d.cast(), s.cast(), n);
        return d;
    }
    let p = pieces(n, pc);
    let mut i = 0;
    while i < n {
        let k = p.min(n - i);
        hook(s as usize + i, k, false, pc);
        hook(d as usize + i, k, true, pc);
        memcpy(d.add(i).cast(), s.add(i).cast(), k);
        i += k;
    }
    d
}
#[no_mangle]
unsafe extern "C" fn fsts_memmove(d: *mut u8, s: *const u8, n: usize, pc: usize) -> *mut u8 {
    hook(s as usize, n, false, pc);
    hook(d as usize, n, true, pc);
    memmove(d.cast(), s.cast(), n);
    d
}
#[no_mangle]
unsafe extern "C" fn fsts_memset(d: *mut u8, v: i32, n: usize, pc: usize) -> *mut u8 {
    if MODE.load(Ordering::Relaxed) == 0 {
        memset(d.cast(), v, n);
        return d;
    }
    let p = pieces(n, pc);
    let mut i = 0;
    while i < n {
        let k = p.min(n - i);
        hook(d as usize + i, k, true, pc);
        memset(d.add(i).cast(), v, k);
        i += k;
    }
    d
}
#[no_mangle]
extern "C" fn __tsan_init() {
    INIT.store(true, Ordering::Relaxed)
}
#[no_mangle]
extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
extern "C" fn __tsan_func_exit() {}
#[no_mangle]
extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
#[no_mangle]
extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(Ordering::SeqCst);
    if MODE.load(Ordering::Relaxed) & 1 != 0 && active() {
        let _g = RtGuard::new();
        let t = TID.with(|t| t.get());
        with(|s| {
            let c = s.clock(t);
            if ACQ.contains(&mo) {
                let p = c.pend.clone();
                merge(&mut c.v, &p);
            }
            if REL.contains(&mo) {
                c.fence = c.v.clone();
                bump(&mut c.v, t);
            }
        })
    }
}
// the code address is the sixth argument
macro_rules! atomics {
    ($($at:ident $ty:ident $len:literal $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $casb:ident;)*) => {$(
        #[no_mangle]
        unsafe extern "C" fn $load(a: *mut $ty, mo: i32, _2: usize, _3: usize, _4: usize, pc: usize) -> $ty {
            hook_atomic(a as usize, $len, true, false, mo, pc);
            (*(a as *const $at)).load(Ordering::SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $store(a: *mut $ty, v: $ty, mo: i32, _3: usize, _4: usize, pc: usize) {
            hook_atomic(a as usize, $len, false, true, mo, pc);
            (*(a as *const $at)).store(v, Ordering::SeqCst)
        }
        atomics!(@rmw $at $ty $len $xchg swap);
        atomics!(@rmw $at $ty $len $add fetch_add);
        atomics!(@rmw $at $ty $len $sub fetch_sub);
        atomics!(@rmw $at $ty $len $and fetch_and);
        atomics!(@rmw $at $ty $len $or fetch_or);
        atomics!(@rmw $at $ty $len $xor fetch_xor);
        atomics!(@rmw $at $ty $len $nand fetch_nand);
        #[no_mangle]
        unsafe extern "C" fn $cas(a: *mut $ty, c: $ty, v: $ty, mo: i32, _fmo: i32, pc: usize) -> $ty {
            hook_atomic(a as usize, $len, true, true, mo, pc);
            match (*(a as *const $at)).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        unsafe extern "C" fn $casb(a: *mut $ty, c: *mut $ty, v: $ty, mo: i32, _fmo: i32, pc: usize) -> i32 {
            hook_atomic(a as usize, $len, true, true, mo, pc);
            match (*(a as *const $at)).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
    )*};
    (@rmw $at:ident $ty:ident $len:literal $n:ident $f:ident) => {
        #[no_mangle]
        unsafe extern "C" fn $n(a: *mut $ty, v: $ty, mo: i32, _3: usize, _4: usize, pc: usize) -> $ty {
            hook_atomic(a as usize, $len, true, true, mo, pc);
            (*(a as *const $at)).$f(v, Ordering::SeqCst)
        }
    };
}
atomics! {
    AtomicU8 u8 1 fsts_a8_load fsts_a8_store fsts_a8_xchg fsts_a8_add fsts_a8_sub fsts_a8_and fsts_a8_or fsts_a8_xor fsts_a8_nand fsts_a8_cas fsts_a8_casb;
    AtomicU16 u16 2 fsts_a16_load fsts_a16_store fsts_a16_xchg fsts_a16_add fsts_a16_sub fsts_a16_and fsts_a16_or fsts_a16_xor fsts_a16_nand fsts_a16_cas fsts_a16_casb;
    AtomicU32 u32 4 fsts_a32_load fsts_a32_store fsts_a32_xchg fsts_a32_add fsts_a32_sub fsts_a32_and fsts_a32_or fsts_a32_xor fsts_a32_nand fsts_a32_cas fsts_a32_casb;
    AtomicU64 u64 8 fsts_a64_load fsts_a64_store fsts_a64_xchg fsts_a64_add fsts_a64_sub fsts_a64_and fsts_a64_or fsts_a64_xor fsts_a64_nand fsts_a64_cas fsts_a64_casb;
}
macro_rules! atomic_trampolines {
    ($($w:literal)*) => {
        core::arch::global_asm!($(
            atomic_trampolines!(@t $w "_load" "_load"), atomic_trampolines!(@t $w "_store" "_store"), atomic_trampolines!(@t $w "_exchange" "_xchg"),
            atomic_trampolines!(@t $w "_fetch_add" "_add"), atomic_trampolines!(@t $w "_fetch_sub" "_sub"), atomic_trampolines!(@t $w "_fetch_and" "_and"),
            atomic_trampolines!(@t $w "_fetch_or" "_or"), atomic_trampolines!(@t $w "_fetch_xor" "_xor"), atomic_trampolines!(@t $w "_fetch_nand" "_nand"),
            atomic_trampolines!(@t $w "_compare_exchange_val" "_cas"), atomic_trampolines!(@t $w "_compare_exchange_strong" "_casb"), atomic_trampolines!(@t $w "_compare_exchange_weak" "_casb")
        ),*);
    };
    (@t $w:literal $n:literal $f:literal) => {
        concat!(".globl __tsan_atomic", $w, $n, "\n.type __tsan_atomic", $w, $n, ",@function\n__tsan_atomic", $w, $n, ":\n mov r9, qword ptr [rsp]\n jmp fsts_a", $w, $f, "\n")
    };
}
atomic_trampolines! { "8" "16" "32" "64" }
