//! A simulated MPI library: the part of the C interface the binding crate (all of `src` but this
//! folder is the unmodified crate) calls, implemented on top of the controlled scheduler `simrt`.
//!
//! Every rank is a `simrt` task.  The s-th collective of a rank is matched with the s-th collective
//! of every other rank; kinds, roots, operations, element types and pairwise counts must agree.
//! A collective returns as soon as the data a rank needs has arrived ("eager"), or only when all
//! ranks have arrived ("sync"); both are legal MPI behaviours, and the choice is the environment's.
#![allow(non_upper_case_globals, non_camel_case_types, non_snake_case, missing_docs, clippy::all)]
#![allow(unused_variables, dead_code, missing_copy_implementations)]
use std::cell::{Cell, UnsafeCell};
use std::os::raw::{c_char, c_double, c_int, c_uint, c_void};

mod stubs;
pub use stubs::*;

pub type MPI_Count = i64;
pub type MPI_Aint = isize;
pub type MPI_Fint = c_int;
macro_rules! handle {
    ($($n:ident),*) => { $(
        #[repr(transparent)]
        #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(pub usize);
    )* };
}
handle!(MPI_Comm, MPI_Datatype, MPI_Group, MPI_Op, MPI_Request, MPI_Message, MPI_Info, MPI_Errhandler, MPI_File, MPI_Win);
#[repr(C)]
#[derive(Copy, Clone, Debug)]
pub struct MPI_Status {
    pub MPI_SOURCE: c_int,
    pub MPI_TAG: c_int,
    pub MPI_ERROR: c_int,
    pub _cancelled: c_int,
    pub _ucount: usize,
}
pub type MPI_User_function = Option<unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_int, *mut MPI_Datatype)>;

pub const MPI_MAX_OBJECT_NAME: c_uint = 64;
pub const MPI_UNDEFINED: c_int = -32766;
#[repr(transparent)]
pub struct P<T>(pub *mut T);
unsafe impl<T> Sync for P<T> {}
macro_rules! consts { ($t:ty: $($n:ident = $v:expr),* $(,)?) => { $(pub const $n: $t = $v;)* } }
consts!(MPI_Datatype:
    RSMPI_DATATYPE_NULL = MPI_Datatype(0), RSMPI_C_BOOL = MPI_Datatype(1), RSMPI_FLOAT = MPI_Datatype(2),
    RSMPI_DOUBLE = MPI_Datatype(3), RSMPI_COMPLEX = MPI_Datatype(4), RSMPI_DOUBLE_COMPLEX = MPI_Datatype(5),
    RSMPI_INT8_T = MPI_Datatype(6), RSMPI_INT16_T = MPI_Datatype(7), RSMPI_INT32_T = MPI_Datatype(8),
    RSMPI_INT64_T = MPI_Datatype(9), RSMPI_UINT8_T = MPI_Datatype(10), RSMPI_UINT16_T = MPI_Datatype(11),
    RSMPI_UINT32_T = MPI_Datatype(12), RSMPI_UINT64_T = MPI_Datatype(13));
consts!(MPI_Comm: RSMPI_COMM_NULL = MPI_Comm(0), RSMPI_COMM_WORLD = MPI_Comm(1), RSMPI_COMM_SELF = MPI_Comm(2));
consts!(MPI_Group: RSMPI_GROUP_NULL = MPI_Group(0), RSMPI_GROUP_EMPTY = MPI_Group(1));
consts!(MPI_Message: RSMPI_MESSAGE_NULL = MPI_Message(0), RSMPI_MESSAGE_NO_PROC = MPI_Message(1));
consts!(MPI_Request: RSMPI_REQUEST_NULL = MPI_Request(0));
consts!(MPI_Info: RSMPI_INFO_NULL = MPI_Info(0));
consts!(MPI_Op:
    RSMPI_MAX = MPI_Op(1), RSMPI_MIN = MPI_Op(2), RSMPI_SUM = MPI_Op(3), RSMPI_PROD = MPI_Op(4), RSMPI_LAND = MPI_Op(5),
    RSMPI_BAND = MPI_Op(6), RSMPI_LOR = MPI_Op(7), RSMPI_BOR = MPI_Op(8), RSMPI_LXOR = MPI_Op(9), RSMPI_BXOR = MPI_Op(10));
consts!(c_int:
    RSMPI_COMM_TYPE_SHARED = 0, RSMPI_UNDEFINED = -32766, RSMPI_PROC_NULL = -2, RSMPI_ANY_SOURCE = -1, RSMPI_ANY_TAG = -1,
    RSMPI_IDENT = 0, RSMPI_CONGRUENT = 1, RSMPI_SIMILAR = 2, RSMPI_UNEQUAL = 3,
    RSMPI_THREAD_SINGLE = 0, RSMPI_THREAD_FUNNELED = 1, RSMPI_THREAD_SERIALIZED = 2, RSMPI_THREAD_MULTIPLE = 3,
    RSMPI_GRAPH = 1, RSMPI_CART = 2, RSMPI_DIST_GRAPH = 3,
    RSMPI_MAX_LIBRARY_VERSION_STRING = 256, RSMPI_MAX_PROCESSOR_NAME = 256);
pub const RSMPI_STATUS_IGNORE: *mut MPI_Status = std::ptr::null_mut();
pub const RSMPI_STATUSES_IGNORE: *mut MPI_Status = std::ptr::null_mut();

/// Called for MPI entry points (or uses of them) the simulation does not cover: no verdict.
pub fn unsupported(what: &str) -> ! {
    eprintln!("UNSUPPORTED: simulated MPI does not provide {what}");
    std::process::exit(2)
}

fn type_size(t: MPI_Datatype) -> usize {
    match t.0 {
        1 | 6 | 10 => 1,
        7 | 11 => 2,
        2 | 8 | 12 => 4,
        3 | 4 | 9 | 13 => 8,
        5 => 16,
        _ => unsupported("derived datatypes"),
    }
}

// ------------------------------------------------------------------------------------------
// the world
// ------------------------------------------------------------------------------------------
struct Contribution {
    dtype: MPI_Datatype,
    /// bytes for every destination (None: not a destination)
    send: Vec<Option<Vec<u8>>>,
    /// bytes expected from every source (None: not a source)
    recv: Vec<Option<usize>>,
}
struct Coll {
    kind: &'static str,
    root: c_int,
    op: usize,
    first: usize,
    arrived: Vec<Option<Contribution>>,
    n_arrived: usize,
    n_finished: usize,
}

/// Who may return when from a collective.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Completion {
    /// as early as MPI allows
    Eager,
    /// only when everybody has arrived
    Sync,
    /// both, chosen by the environment at every collective and rank where it makes a difference
    Choose,
}

struct World {
    size: usize,
    completion: Completion,
    colls: Vec<Coll>,
    next: Vec<usize>,
    errors: Vec<String>,
    messages: u64,
    msgs: Vec<Msg>,
    reqs: Vec<Req>,
}
pub struct WorldCell(UnsafeCell<World>);
unsafe impl Sync for WorldCell {}

thread_local! {
    static RANK: Cell<c_int> = const { Cell::new(0) };
    static SIZE: Cell<c_int> = const { Cell::new(1) };
    static WORLD: Cell<*const WorldCell> = const { Cell::new(std::ptr::null()) };
    static INIT: Cell<bool> = const { Cell::new(false) };
}

/// Interface for the model checker.
pub mod sim {
    use super::*;
    pub use super::Completion;

    #[derive(Default, Debug, Clone)]
    pub struct Report {
        /// (kind, root) of every collective issued, in order
        pub collectives: Vec<(&'static str, i32)>,
        pub messages: u64,
        pub errors: Vec<String>,
    }

    /// Run `f(rank)` as `size` concurrent ranks (inside a `simrt` execution).
    pub fn run_world(size: usize, completion: Completion, f: &(dyn Fn(usize) + Sync)) -> Report {
        // for checks that watch the heap
        let room = simrt::TRACE_CAPACITY.load(std::sync::atomic::Ordering::Relaxed) / 16;
        let cell = WorldCell(UnsafeCell::new(World {
            size,
            completion,
            colls: Vec::with_capacity(room),
            next: vec![0; size],
            errors: Vec::new(),
            messages: 0,
            msgs: Vec::with_capacity(room),
            reqs: Vec::with_capacity(room),
        }));
        let wp = &cell as *const WorldCell as usize;
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for r in 0..size {
            jobs.push(Box::new(move || {
                enter(r, size, wp as *const WorldCell);
                f(r);
                leave();
            }));
        }
        simrt::parallel(jobs);
        let w = cell.0.into_inner();
        let mut rep = Report { collectives: w.colls.iter().map(|c| (c.kind, c.root)).collect(), messages: w.messages, errors: w.errors };
        let n0 = w.next[0];
        for (r, n) in w.next.iter().enumerate() {
            if *n != n0 {
                rep.errors.push(format!("rank 0 issued {n0} collectives but rank {r} issued {n}"));
            }
        }
        for m in w.msgs.iter().filter(|m| !m.matched) {
            rep.errors.push(format!("a message of {} bytes from rank {} to rank {} is never received", m.len, m.from, m.to));
        }
        if w.reqs.iter().any(|r| !matches!(r, Req::Free)) {
            rep.errors.push("a nonblocking operation is never waited for".into());
        }
        rep
    }

    fn enter(rank: usize, size: usize, w: *const WorldCell) {
        RANK.with(|c| c.set(rank as c_int));
        SIZE.with(|c| c.set(size as c_int));
        WORLD.with(|c| c.set(w));
        INIT.with(|c| c.set(false));
    }
    fn leave() {
        WORLD.with(|c| c.set(std::ptr::null()));
        INIT.with(|c| c.set(false));
    }

    /// Run `f` as rank `rank` of `size` without peers: any communication is an error.
    pub fn as_rank<R>(size: usize, rank: usize, f: impl FnOnce() -> R) -> R {
        enter(rank, size, std::ptr::null());
        let r = f();
        leave();
        enter(0, 1, std::ptr::null());
        r
    }
}

fn me() -> usize {
    RANK.with(|c| c.get()) as usize
}
fn size() -> usize {
    SIZE.with(|c| c.get()) as usize
}
unsafe fn bytes(p: *const c_void, off: usize, n: usize) -> Vec<u8> {
    if n == 0 {
        return Vec::new();
    }
    std::slice::from_raw_parts((p as *const u8).add(off), n).to_vec()
}
fn fail(msg: String) -> ! {
    unsafe {
        let w = WORLD.with(|c| c.get());
        if !w.is_null() {
            (*(*w).0.get()).errors.push(msg.clone());
        }
    }
    panic!("MPI: {}", msg)
}

/// A collective this rank has entered.
struct Started {
    seq: usize,
    needs: Vec<usize>,
    barrier: bool,
    /// a world of one rank outside an execution
    local: Option<Vec<Option<Vec<u8>>>>,
}
/// The arguments of a collective, and what to do with the data that arrives.
struct Call {
    root: c_int,
    op: usize,
    dtype: MPI_Datatype,
    /// for every destination (None: not a destination)
    send: Vec<Option<Vec<u8>>>,
    /// bytes expected from every source (None: not a source)
    recv: Vec<Option<usize>>,
    done: Done,
}
type Done = Box<dyn FnOnce(Vec<Option<Vec<u8>>>)>;

/// Enter a collective: match it with what the other ranks called.
unsafe fn start(kind: &'static str, root: c_int, op: usize, dtype: MPI_Datatype, send: Vec<Option<Vec<u8>>>, recv: Vec<Option<usize>>) -> Started {
    let me = me();
    let barrier = kind.trim_start_matches('I') == "barrier" || kind == "Barrier";
    let wp = WORLD.with(|c| c.get());
    if wp.is_null() {
        if size() == 1 {
            if let (Some(s), Some(r)) = (&send[0], &recv[0]) {
                if s.len() != *r {
                    fail(format!("{kind}: sends {} bytes to itself but expects {r}", s.len()));
                }
            }
            return Started { seq: 0, needs: vec![], barrier, local: Some(send) };
        }
        panic!("MPI: {} called where no communication is expected", kind);
    }
    simrt::point();
    let w: &mut World = &mut *(*wp).0.get();
    let seq = w.next[me];
    w.next[me] += 1;
    if seq == w.colls.len() {
        let n = w.size;
        w.colls.push(Coll { kind, root, op, first: me, arrived: (0..n).map(|_| None).collect(), n_arrived: 0, n_finished: 0 });
    }
    let c = &mut w.colls[seq];
    if c.kind != kind || c.root != root || c.op != op {
        let m = format!(
            "collective {seq}: rank {} called {} (root {}, op {}) but rank {me} called {kind} (root {root}, op {op})",
            c.first, c.kind, c.root, c.op
        );
        fail(m);
    }
    for q in 0..w.size {
        if let Some(o) = &c.arrived[q] {
            let checks = [(me, q, send[q].as_ref().map(|v| v.len()), o.recv[me]), (q, me, o.send[me].as_ref().map(|v| v.len()), recv[q])];
            for (a, b, s, r) in checks {
                if s.unwrap_or(0) != r.unwrap_or(0) {
                    fail(format!("{kind} (collective {seq}): rank {a} sends {s:?} bytes to rank {b}, which expects {r:?}"));
                }
                if s.unwrap_or(0) > 0 && o.dtype != dtype {
                    fail(format!("{kind} (collective {seq}): ranks {a} and {b} disagree on the element type"));
                }
            }
        } else if q == me {
            let (s, r) = (send[q].as_ref().map(|v| v.len()), recv[q]);
            if s.unwrap_or(0) != r.unwrap_or(0) {
                fail(format!("{kind} (collective {seq}): rank {me} sends {s:?} bytes to itself but expects {r:?}"));
            }
        }
    }
    w.messages += send.iter().filter(|s| s.as_ref().map_or(false, |v| !v.is_empty())).count() as u64;
    let needs: Vec<usize> = (0..w.size).filter(|&s| recv[s].map_or(false, |b| b > 0)).collect();
    c.arrived[me] = Some(Contribution { dtype, send, recv });
    c.n_arrived += 1;
    simrt::wake(seq + 1);
    Started { seq, needs, barrier, local: None }
}
/// Could the collective return now? (Some(true): it must)
unsafe fn ready(s: &Started) -> Option<bool> {
    if s.local.is_some() {
        return Some(true);
    }
    let w: &World = &*(*WORLD.with(|c| c.get())).0.get();
    let c = &w.colls[s.seq];
    if c.n_arrived == w.size {
        Some(true)
    } else if !s.barrier && s.needs.iter().all(|&q| c.arrived[q].is_some()) {
        Some(false)
    } else {
        None
    }
}
/// Wait for the collective; returns what every source sent.
unsafe fn finish(s: Started) -> Vec<Option<Vec<u8>>> {
    let (me, wp) = (me(), WORLD.with(|c| c.get()));
    if let Some(d) = s.local {
        return d;
    }
    loop {
        match ready(&s) {
            Some(true) => break,
            Some(false) => {
                if early() {
                    break;
                }
                // decided to wait for everybody
                while ready(&s) != Some(true) {
                    simrt::block_on(s.seq + 1);
                }
                break;
            }
            None => simrt::block_on(s.seq + 1),
        }
    }
    let w: &mut World = &mut *(*wp).0.get();
    let c = &mut w.colls[s.seq];
    let got = (0..w.size).map(|q| c.arrived[q].as_ref().and_then(|o| if s.needs.contains(&q) { o.send[me].clone() } else { None })).collect();
    c.n_finished += 1;
    if c.n_finished == w.size {
        // nobody needs the data any more
        c.arrived = Vec::new();
    }
    got
}
/// Does the environment let the caller return as early as MPI allows?
unsafe fn early() -> bool {
    match (*(*WORLD.with(|c| c.get())).0.get()).completion {
        Completion::Eager => true,
        Completion::Sync => false,
        Completion::Choose => simrt::choose(2) == 0,
    }
}

unsafe fn put(dst: *mut c_void, off: usize, data: &Option<Vec<u8>>) {
    if let Some(d) = data {
        if !d.is_empty() {
            std::ptr::copy_nonoverlapping(d.as_ptr(), (dst as *mut u8).add(off), d.len());
        }
    }
}
fn cnt(n: c_int) -> usize {
    if n < 0 {
        fail(format!("negative count {n}"));
    }
    n as usize
}
fn world_only(c: MPI_Comm) {
    if c != RSMPI_COMM_WORLD {
        unsupported("communicators other than the world");
    }
}
fn root_ok(r: c_int) -> usize {
    if r < 0 || r as usize >= size() {
        fail(format!("root {r} is not a rank"));
    }
    r as usize
}
unsafe fn ints(p: *const c_int) -> Vec<usize> {
    (0..size()).map(|i| cnt(*p.add(i))).collect()
}
fn nothing() -> Done {
    Box::new(|_| ())
}

// ---- collectives, blocking and nonblocking -------------------------------------------------
macro_rules! collective {
    ($name:ident, $iname:ident, ($($a:ident: $t:ty),*), $body:expr) => {
        pub unsafe fn $name($($a: $t,)* comm: MPI_Comm) -> c_int {
            world_only(comm);
            let c: Call = $body;
            let s = start(&stringify!($name)[4..], c.root, c.op, c.dtype, c.send, c.recv);
            (c.done)(finish(s));
            0
        }
        pub unsafe fn $iname($($a: $t,)* comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
            world_only(comm);
            let c: Call = $body;
            let s = start(&stringify!($iname)[4..], c.root, c.op, c.dtype, c.send, c.recv);
            *request = if s.local.is_some() {
                (c.done)(finish(s));
                RSMPI_REQUEST_NULL
            } else {
                new_request(Req::Coll(s, c.done))
            };
            0
        }
    };
}
collective!(MPI_Barrier, MPI_Ibarrier, (), {
    let n = size();
    Call { root: -1, op: 0, dtype: RSMPI_UINT8_T, send: vec![None; n], recv: vec![None; n], done: nothing() }
});
collective!(MPI_Bcast, MPI_Ibcast, (buf: *mut c_void, count: c_int, t: MPI_Datatype, root: c_int), {
    let (n, m, r) = (size(), me(), root_ok(root));
    let b = cnt(count) * type_size(t);
    let mut send = vec![None; n];
    let mut recv = vec![None; n];
    if m == r {
        let d = bytes(buf, 0, b);
        for q in 0..n {
            if q != m {
                send[q] = Some(d.clone());
            }
        }
    } else {
        recv[r] = Some(b);
    }
    let done: Done = Box::new(move |got| {
        if m != r {
            put(buf, 0, &got[r]);
        }
    });
    Call { root, op: 0, dtype: t, send, recv, done }
});
collective!(MPI_Gather, MPI_Igather, (sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, root: c_int), {
    let (n, m, r) = (size(), me(), root_ok(root));
    let mut send = vec![None; n];
    send[r] = Some(bytes(sb, 0, cnt(sc) * type_size(st)));
    let recv = if m == r { vec![Some(cnt(rc) * type_size(rt)); n] } else { vec![None; n] };
    let done: Done = Box::new(move |got| {
        if m == r {
            for s in 0..n {
                put(rb, s * cnt(rc) * type_size(rt), &got[s]);
            }
        }
    });
    Call { root, op: 0, dtype: st, send, recv, done }
});
collective!(MPI_Gatherv, MPI_Igatherv, (sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rcs: *const c_int, ds: *const c_int, rt: MPI_Datatype, root: c_int), {
    let (n, m, r) = (size(), me(), root_ok(root));
    let mut send = vec![None; n];
    send[r] = Some(bytes(sb, 0, cnt(sc) * type_size(st)));
    let (recv, displs) = if m == r {
        (ints(rcs).into_iter().map(|c| Some(c * type_size(rt))).collect(), ints(ds))
    } else {
        (vec![None; n], vec![])
    };
    let done: Done = Box::new(move |got| {
        if m == r {
            for s in 0..n {
                put(rb, displs[s] * type_size(rt), &got[s]);
            }
        }
    });
    Call { root, op: 0, dtype: st, send, recv, done }
});
collective!(MPI_Scatter, MPI_Iscatter, (sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, root: c_int), {
    let (n, m, r) = (size(), me(), root_ok(root));
    let mut recv = vec![None; n];
    recv[r] = Some(cnt(rc) * type_size(rt));
    let b = if m == r { cnt(sc) * type_size(st) } else { 0 };
    let send = (0..n).map(|q| if m == r { Some(bytes(sb, q * b, b)) } else { None }).collect();
    Call { root, op: 0, dtype: rt, send, recv, done: Box::new(move |got| put(rb, 0, &got[r])) }
});
collective!(MPI_Scatterv, MPI_Iscatterv, (sb: *const c_void, scs: *const c_int, ds: *const c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, root: c_int), {
    let (n, m, r) = (size(), me(), root_ok(root));
    let mut recv = vec![None; n];
    recv[r] = Some(cnt(rc) * type_size(rt));
    let send = if m == r {
        let (cs, dis) = (ints(scs), ints(ds));
        (0..n).map(|q| Some(bytes(sb, dis[q] * type_size(st), cs[q] * type_size(st)))).collect()
    } else {
        vec![None; n]
    };
    Call { root, op: 0, dtype: rt, send, recv, done: Box::new(move |got| put(rb, 0, &got[r])) }
});
collective!(MPI_Allgather, MPI_Iallgather, (sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype), {
    let n = size();
    let d = bytes(sb, 0, cnt(sc) * type_size(st));
    let b = cnt(rc) * type_size(rt);
    let done: Done = Box::new(move |got| {
        for s in 0..n {
            put(rb, s * b, &got[s]);
        }
    });
    Call { root: -1, op: 0, dtype: st, send: vec![Some(d); n], recv: vec![Some(b); n], done }
});
collective!(MPI_Allgatherv, MPI_Iallgatherv, (sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rcs: *const c_int, ds: *const c_int, rt: MPI_Datatype), {
    let n = size();
    let d = bytes(sb, 0, cnt(sc) * type_size(st));
    let (cs, dis) = (ints(rcs), ints(ds));
    let done: Done = Box::new(move |got| {
        for s in 0..n {
            put(rb, dis[s] * type_size(rt), &got[s]);
        }
    });
    Call { root: -1, op: 0, dtype: st, send: vec![Some(d); n], recv: cs.iter().map(|c| Some(c * type_size(rt))).collect(), done }
});
collective!(MPI_Alltoall, MPI_Ialltoall, (sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype), {
    let n = size();
    let (a, b) = (cnt(sc) * type_size(st), cnt(rc) * type_size(rt));
    let send = (0..n).map(|q| Some(bytes(sb, q * a, a))).collect();
    let done: Done = Box::new(move |got| {
        for s in 0..n {
            put(rb, s * b, &got[s]);
        }
    });
    Call { root: -1, op: 0, dtype: st, send, recv: vec![Some(b); n], done }
});
collective!(MPI_Alltoallv, MPI_Ialltoallv, (sb: *const c_void, scs: *const c_int, sds: *const c_int, st: MPI_Datatype, rb: *mut c_void, rcs: *const c_int, rds: *const c_int, rt: MPI_Datatype), {
    let n = size();
    let (sc, sd, rc, rd) = (ints(scs), ints(sds), ints(rcs), ints(rds));
    let send = (0..n).map(|q| Some(bytes(sb, sd[q] * type_size(st), sc[q] * type_size(st)))).collect();
    let recv = rc.iter().map(|c| Some(c * type_size(rt))).collect();
    let done: Done = Box::new(move |got| {
        for s in 0..n {
            put(rb, rd[s] * type_size(rt), &got[s]);
        }
    });
    Call { root: -1, op: 0, dtype: st, send, recv, done }
});

// ---- reductions ---------------------------------------------------------------------------
macro_rules! red {
    ($t:ty, $op:expr, $acc:expr, $x:expr) => {{
        let n = $acc.len() / std::mem::size_of::<$t>();
        for i in 0..n {
            let a: $t = std::ptr::read_unaligned(($acc.as_ptr() as *const $t).add(i));
            let b: $t = std::ptr::read_unaligned(($x.as_ptr() as *const $t).add(i));
            let r: $t = match $op.0 {
                1 => if a > b { a } else { b },
                2 => if a < b { a } else { b },
                3 => a + b,
                4 => a * b,
                _ => unsupported("logical reductions"),
            };
            std::ptr::write_unaligned(($acc.as_mut_ptr() as *mut $t).add(i), r);
        }
    }};
}
macro_rules! redc {
    ($t:ty, $op:expr, $acc:expr, $x:expr) => {{
        type C = num_complex::Complex<$t>;
        let n = $acc.len() / std::mem::size_of::<C>();
        for i in 0..n {
            let a: C = std::ptr::read_unaligned(($acc.as_ptr() as *const C).add(i));
            let b: C = std::ptr::read_unaligned(($x.as_ptr() as *const C).add(i));
            let r: C = match $op.0 {
                3 => a + b,
                4 => a * b,
                _ => fail(format!("reduction {:?} of complex numbers", $op)),
            };
            std::ptr::write_unaligned(($acc.as_mut_ptr() as *mut C).add(i), r);
        }
    }};
}
unsafe fn combine(op: MPI_Op, t: MPI_Datatype, acc: &mut [u8], x: &[u8]) {
    match t.0 {
        2 => red!(f32, op, acc, x),
        3 => red!(f64, op, acc, x),
        4 => redc!(f32, op, acc, x),
        5 => redc!(f64, op, acc, x),
        6 => red!(i8, op, acc, x),
        7 => red!(i16, op, acc, x),
        8 => red!(i32, op, acc, x),
        9 => red!(i64, op, acc, x),
        10 => red!(u8, op, acc, x),
        11 => red!(u16, op, acc, x),
        12 => red!(u32, op, acc, x),
        13 => red!(u64, op, acc, x),
        _ => unsupported("this reduction type"),
    }
}
unsafe fn fold(op: MPI_Op, t: MPI_Datatype, got: Vec<Option<Vec<u8>>>) -> Option<Vec<u8>> {
    let mut it = got.into_iter().flatten();
    let mut acc = it.next()?;
    for x in it {
        combine(op, t, &mut acc, &x);
    }
    Some(acc)
}
collective!(MPI_Allreduce, MPI_Iallreduce, (sb: *const c_void, rb: *mut c_void, c: c_int, t: MPI_Datatype, op: MPI_Op), {
    let n = size();
    let b = cnt(c) * type_size(t);
    let d = bytes(sb, 0, b);
    let done: Done = Box::new(move |got| put(rb, 0, &fold(op, t, got)));
    Call { root: -1, op: op.0, dtype: t, send: vec![Some(d); n], recv: vec![Some(b); n], done }
});
collective!(MPI_Reduce, MPI_Ireduce, (sb: *const c_void, rb: *mut c_void, c: c_int, t: MPI_Datatype, op: MPI_Op, root: c_int), {
    let (n, m, r) = (size(), me(), root_ok(root));
    let b = cnt(c) * type_size(t);
    let mut send = vec![None; n];
    send[r] = Some(bytes(sb, 0, b));
    let recv = if m == r { vec![Some(b); n] } else { vec![None; n] };
    let done: Done = Box::new(move |got| {
        if m == r {
            put(rb, 0, &fold(op, t, got));
        }
    });
    Call { root, op: op.0, dtype: t, send, recv, done }
});
collective!(MPI_Reduce_scatter_block, MPI_Ireduce_scatter_block, (sb: *const c_void, rb: *mut c_void, c: c_int, t: MPI_Datatype, op: MPI_Op), {
    let n = size();
    let b = cnt(c) * type_size(t);
    let send = (0..n).map(|q| Some(bytes(sb, q * b, b))).collect();
    let done: Done = Box::new(move |got| put(rb, 0, &fold(op, t, got)));
    Call { root: -1, op: op.0, dtype: t, send, recv: vec![Some(b); n], done }
});
collective!(MPI_Scan, MPI_Iscan, (sb: *const c_void, rb: *mut c_void, c: c_int, t: MPI_Datatype, op: MPI_Op), prefix(sb, rb, c, t, op, true));
collective!(MPI_Exscan, MPI_Iexscan, (sb: *const c_void, rb: *mut c_void, c: c_int, t: MPI_Datatype, op: MPI_Op), prefix(sb, rb, c, t, op, false));
unsafe fn prefix(sb: *const c_void, rb: *mut c_void, c: c_int, t: MPI_Datatype, op: MPI_Op, own: bool) -> Call {
    let (n, m) = (size(), me());
    let b = cnt(c) * type_size(t);
    let d = bytes(sb, 0, b);
    let send = (0..n).map(|q| if q > m || (own && q == m) { Some(d.clone()) } else { None }).collect();
    let recv = (0..n).map(|q| if q < m || (own && q == m) { Some(b) } else { None }).collect();
    Call { root: -1, op: op.0, dtype: t, send, recv, done: Box::new(move |got| put(rb, 0, &fold(op, t, got))) }
}

// ---- point to point -----------------------------------------------------------------------
//
// Messages between a pair of ranks are matched in the order they were sent; a receive from any
// source may take any of the sources' first matching messages (chosen by the environment). A
// standard send returns at once or when it is matched (the environment's choice, as for
// collectives), a synchronous one when it is matched, a buffered one at once.
struct Msg {
    from: usize,
    to: usize,
    tag: c_int,
    dtype: MPI_Datatype,
    data: Vec<u8>,
    len: usize,
    /// taken by a receive
    matched: bool,
    /// taken by a matched probe
    probed: bool,
}
#[derive(Clone, Copy)]
struct Recv {
    rank: usize,
    from: c_int,
    tag: c_int,
    dtype: MPI_Datatype,
    cap: usize,
    buf: *mut c_void,
    msg: Option<usize>,
}
enum Req {
    Free,
    /// message, and whether completion needs the match
    Send(usize, bool),
    Recv(Recv),
    Coll(Started, Done),
}
const KEY_RECV: usize = 1 << 40;
const KEY_SEND: usize = 1 << 41;
const KEY_PROBE: usize = 1 << 42;

unsafe fn world(what: &str) -> *mut World {
    let wp = WORLD.with(|c| c.get());
    if wp.is_null() {
        panic!("MPI: {} called where no communication is expected", what);
    }
    (*wp).0.get()
}
unsafe fn new_request(r: Req) -> MPI_Request {
    let w = &mut *world("a nonblocking operation");
    w.reqs.push(r);
    MPI_Request(w.reqs.len())
}
fn fits(m: &Msg, to: usize, from: c_int, tag: c_int) -> bool {
    !m.matched && !m.probed && m.to == to && (from == RSMPI_ANY_SOURCE || m.from as c_int == from) && (tag == RSMPI_ANY_TAG || m.tag == tag)
}
unsafe fn pair(req: usize, msg: usize) {
    let w = &mut *world("a receive");
    let Req::Recv(r) = &mut w.reqs[req] else { unreachable!() };
    let m = &mut w.msgs[msg];
    if m.data.len() > r.cap {
        let t = format!("message of {} bytes from rank {} to rank {} is received into {} bytes", m.data.len(), m.from, m.to, r.cap);
        fail(t);
    }
    if !m.data.is_empty() && m.dtype != r.dtype {
        let t = format!("ranks {} and {} disagree on the element type of a message", m.from, m.to);
        fail(t);
    }
    m.matched = true;
    r.msg = Some(msg);
    let (d, b) = (Some(std::mem::take(&mut m.data)), r.buf);
    put(b, 0, &d);
    simrt::wake(KEY_RECV | req);
    simrt::wake(KEY_SEND | msg);
}
unsafe fn post_send(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int) -> Option<usize> {
    if dest == RSMPI_PROC_NULL {
        return None;
    }
    let (to, from) = (root_ok(dest), me());
    world("a send");
    simrt::point();
    let w = &mut *world("a send");
    let data = bytes(buf, 0, cnt(count) * type_size(t));
    w.messages += 1;
    let i = w.msgs.len();
    w.msgs.push(Msg { from, to, tag, dtype: t, len: data.len(), data, matched: false, probed: false });
    let r = (0..w.reqs.len()).find(|&q| match &w.reqs[q] {
        Req::Recv(r) => r.msg.is_none() && fits(&w.msgs[i], r.rank, r.from, r.tag),
        _ => false,
    });
    match r {
        Some(q) => pair(q, i),
        None => simrt::wake(KEY_PROBE | to),
    }
    Some(i)
}
/// the message a receive or probe of this rank would take now
unsafe fn pick(from: c_int, tag: c_int) -> Option<usize> {
    let (w, me) = (&*world("a receive"), me());
    let mut first: Vec<usize> = vec![];
    for (i, m) in w.msgs.iter().enumerate() {
        if fits(m, me, from, tag) && !first.iter().any(|&j| w.msgs[j].from == m.from) {
            first.push(i);
        }
    }
    match first.len() {
        0 => None,
        1 => Some(first[0]),
        n => Some(first[simrt::choose(n)]),
    }
}
unsafe fn post_recv(buf: *mut c_void, count: c_int, t: MPI_Datatype, src: c_int, tag: c_int) -> Option<usize> {
    if src == RSMPI_PROC_NULL {
        return None;
    }
    if src != RSMPI_ANY_SOURCE {
        root_ok(src);
    }
    world("a receive");
    simrt::point();
    let w = &mut *world("a receive");
    let q = w.reqs.len();
    w.reqs.push(Req::Recv(Recv { rank: me(), from: src, tag, dtype: t, cap: cnt(count) * type_size(t), buf, msg: None }));
    if let Some(i) = pick(src, tag) {
        pair(q, i);
    }
    Some(q)
}
unsafe fn matched(msg: usize) -> bool {
    (&(*world("a send")).msgs)[msg].matched
}
unsafe fn wait_send(msg: Option<usize>, sync: bool) {
    let Some(i) = msg else { return };
    if matched(i) || (!sync && early()) {
        return;
    }
    while !matched(i) {
        simrt::block_on(KEY_SEND | i);
    }
}
unsafe fn set_status(st: *mut MPI_Status, source: c_int, tag: c_int, n: usize) {
    if !st.is_null() {
        *st = MPI_Status { MPI_SOURCE: source, MPI_TAG: tag, MPI_ERROR: 0, _cancelled: 0, _ucount: n };
    }
}
unsafe fn msg_status(st: *mut MPI_Status, msg: usize) {
    let m = &(&(*world("a receive")).msgs)[msg];
    set_status(st, m.from as c_int, m.tag, m.len);
}
unsafe fn wait_recv(req: Option<usize>, st: *mut MPI_Status) {
    let Some(q) = req else {
        set_status(st, RSMPI_PROC_NULL, RSMPI_ANY_TAG, 0);
        return;
    };
    loop {
        let w = &mut *world("a receive");
        let Req::Recv(r) = &w.reqs[q] else { unreachable!() };
        if let Some(m) = r.msg {
            w.reqs[q] = Req::Free;
            msg_status(st, m);
            return;
        }
        simrt::block_on(KEY_RECV | q);
    }
}
pub unsafe fn MPI_Send(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm) -> c_int {
    world_only(comm);
    wait_send(post_send(buf, count, t, dest, tag), false);
    0
}
pub unsafe fn MPI_Ssend(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm) -> c_int {
    world_only(comm);
    wait_send(post_send(buf, count, t, dest, tag), true);
    0
}
pub unsafe fn MPI_Bsend(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm) -> c_int {
    world_only(comm);
    post_send(buf, count, t, dest, tag);
    0
}
pub unsafe fn MPI_Rsend(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm) -> c_int {
    world_only(comm);
    if let Some(i) = post_send(buf, count, t, dest, tag) {
        if !matched(i) {
            fail(format!("ready send from rank {} to rank {dest} without a posted receive", me()));
        }
    }
    0
}
pub unsafe fn MPI_Recv(buf: *mut c_void, count: c_int, t: MPI_Datatype, src: c_int, tag: c_int, comm: MPI_Comm, st: *mut MPI_Status) -> c_int {
    world_only(comm);
    wait_recv(post_recv(buf, count, t, src, tag), st);
    0
}
pub unsafe fn MPI_Sendrecv(sb: *const c_void, sc: c_int, stt: MPI_Datatype, dest: c_int, stag: c_int, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, src: c_int, rtag: c_int, comm: MPI_Comm, st: *mut MPI_Status) -> c_int {
    world_only(comm);
    let r = post_recv(rb, rc, rt, src, rtag);
    let s = post_send(sb, sc, stt, dest, stag);
    wait_recv(r, st);
    wait_send(s, false);
    0
}
pub unsafe fn MPI_Sendrecv_replace(buf: *mut c_void, c: c_int, t: MPI_Datatype, dest: c_int, stag: c_int, src: c_int, rtag: c_int, comm: MPI_Comm, st: *mut MPI_Status) -> c_int {
    let copy = bytes(buf, 0, cnt(c) * type_size(t));
    MPI_Sendrecv(copy.as_ptr() as *const c_void, c, t, dest, stag, buf, c, t, src, rtag, comm, st)
}
unsafe fn isend(m: Option<usize>, sync: bool, request: *mut MPI_Request) -> c_int {
    *request = match m {
        Some(i) => new_request(Req::Send(i, sync)),
        None => RSMPI_REQUEST_NULL,
    };
    0
}
pub unsafe fn MPI_Isend(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    world_only(comm);
    isend(post_send(buf, count, t, dest, tag), false, request)
}
pub unsafe fn MPI_Ibsend(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    world_only(comm);
    isend(post_send(buf, count, t, dest, tag), false, request)
}
pub unsafe fn MPI_Issend(buf: *const c_void, count: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    world_only(comm);
    isend(post_send(buf, count, t, dest, tag), true, request)
}
pub unsafe fn MPI_Irecv(buf: *mut c_void, count: c_int, t: MPI_Datatype, src: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    world_only(comm);
    *request = match post_recv(buf, count, t, src, tag) {
        Some(q) => MPI_Request(q + 1),
        None => RSMPI_REQUEST_NULL,
    };
    0
}
pub unsafe fn MPI_Wait(request: *mut MPI_Request, st: *mut MPI_Status) -> c_int {
    let r = *request;
    *request = RSMPI_REQUEST_NULL;
    if r == RSMPI_REQUEST_NULL {
        set_status(st, RSMPI_ANY_SOURCE, RSMPI_ANY_TAG, 0);
        return 0;
    }
    let (q, w) = (r.0 - 1, &mut *world("a wait"));
    if let Req::Recv(_) = w.reqs[q] {
        wait_recv(Some(q), st);
        return 0;
    }
    match std::mem::replace(&mut w.reqs[q], Req::Free) {
        Req::Send(m, sync) => wait_send(Some(m), sync),
        Req::Coll(s, done) => done(finish(s)),
        _ => fail("wait for a request that does not exist".into()),
    }
    set_status(st, RSMPI_ANY_SOURCE, RSMPI_ANY_TAG, 0);
    0
}
unsafe fn completed(r: MPI_Request) -> bool {
    if r == RSMPI_REQUEST_NULL {
        return true;
    }
    let w = &*world("a test");
    let lazy = w.completion == Completion::Sync;
    match &w.reqs[r.0 - 1] {
        Req::Send(m, sync) => w.msgs[*m].matched || !(*sync || lazy),
        Req::Recv(r) => r.msg.is_some(),
        Req::Coll(s, _) => ready(s).map_or(false, |must| must || !lazy),
        Req::Free => true,
    }
}
pub unsafe fn MPI_Test(request: *mut MPI_Request, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    simrt::point();
    if completed(*request) {
        MPI_Wait(request, st);
        *flag = 1;
    } else {
        *flag = 0;
        simrt::yield_now();
    }
    0
}
pub unsafe fn MPI_Waitany(n: c_int, rs: *mut MPI_Request, index: *mut c_int, st: *mut MPI_Status) -> c_int {
    let live: Vec<usize> = (0..cnt(n)).filter(|&i| *rs.add(i) != RSMPI_REQUEST_NULL).collect();
    if live.is_empty() {
        *index = MPI_UNDEFINED;
        set_status(st, RSMPI_ANY_SOURCE, RSMPI_ANY_TAG, 0);
        return 0;
    }
    let mut spins = 0;
    loop {
        let ok: Vec<usize> = live.iter().copied().filter(|&i| completed(*rs.add(i))).collect();
        if !ok.is_empty() {
            let i = if ok.len() == 1 { ok[0] } else { ok[simrt::choose(ok.len())] };
            *index = i as c_int;
            return MPI_Wait(rs.add(i), st);
        }
        spins += 1;
        if spins > 10_000 {
            fail("no request of a wait for any request ever completes".into());
        }
        simrt::yield_now();
    }
}
pub unsafe fn MPI_Probe(src: c_int, tag: c_int, comm: MPI_Comm, st: *mut MPI_Status) -> c_int {
    let i = probe(src, tag, comm);
    msg_status(st, i);
    0
}
unsafe fn probe(src: c_int, tag: c_int, comm: MPI_Comm) -> usize {
    world_only(comm);
    world("a probe");
    simrt::point();
    loop {
        if let Some(i) = pick(src, tag) {
            return i;
        }
        simrt::block_on(KEY_PROBE | me());
    }
}
pub unsafe fn MPI_Iprobe(src: c_int, tag: c_int, comm: MPI_Comm, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    world_only(comm);
    world("a probe");
    simrt::point();
    match pick(src, tag) {
        Some(i) => {
            *flag = 1;
            msg_status(st, i);
        }
        None => {
            *flag = 0;
            simrt::yield_now();
        }
    }
    0
}
pub unsafe fn MPI_Mprobe(src: c_int, tag: c_int, comm: MPI_Comm, message: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    let i = probe(src, tag, comm);
    (&mut (*world("a probe")).msgs)[i].probed = true;
    *message = MPI_Message(i + 2);
    msg_status(st, i);
    0
}
pub unsafe fn MPI_Mrecv(buf: *mut c_void, count: c_int, t: MPI_Datatype, message: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    let i = (*message).0 - 2;
    *message = RSMPI_MESSAGE_NULL;
    let w = &mut *world("a receive");
    let q = w.reqs.len();
    w.reqs.push(Req::Recv(Recv { rank: me(), from: w.msgs[i].from as c_int, tag: w.msgs[i].tag, dtype: t, cap: cnt(count) * type_size(t), buf, msg: None }));
    pair(q, i);
    wait_recv(Some(q), st);
    0
}
pub unsafe fn MPI_Get_count(st: *const MPI_Status, t: MPI_Datatype, count: *mut c_int) -> c_int {
    let (n, s) = ((*st)._ucount, type_size(t));
    *count = if n % s == 0 { (n / s) as c_int } else { MPI_UNDEFINED };
    0
}
pub unsafe fn MPI_Buffer_attach(_buf: *mut c_void, _n: c_int) -> c_int {
    0
}
pub unsafe fn MPI_Buffer_detach(_buf: *mut c_void, _n: *mut c_int) -> c_int {
    0
}

// ---- environment --------------------------------------------------------------------------
pub unsafe fn MPI_Comm_rank(comm: MPI_Comm, rank: *mut c_int) -> c_int {
    world_only(comm);
    *rank = RANK.with(|c| c.get());
    0
}
pub unsafe fn MPI_Comm_size(comm: MPI_Comm, n: *mut c_int) -> c_int {
    world_only(comm);
    *n = SIZE.with(|c| c.get());
    0
}
pub unsafe fn MPI_Comm_compare(a: MPI_Comm, b: MPI_Comm, r: *mut c_int) -> c_int {
    *r = if a == b { RSMPI_IDENT } else { RSMPI_UNEQUAL };
    0
}
pub unsafe fn MPI_Init_thread(argc: *mut c_int, argv: *mut *mut *mut c_char, required: c_int, provided: *mut c_int) -> c_int {
    INIT.with(|c| c.set(true));
    *provided = required;
    0
}
pub unsafe fn MPI_Initialized(flag: *mut c_int) -> c_int {
    *flag = INIT.with(|c| c.get()) as c_int;
    0
}
pub unsafe fn MPI_Finalized(flag: *mut c_int) -> c_int {
    *flag = 0;
    0
}
pub unsafe fn MPI_Finalize() -> c_int {
    INIT.with(|c| c.set(false));
    0
}
pub unsafe fn MPI_Query_thread(p: *mut c_int) -> c_int {
    *p = RSMPI_THREAD_SINGLE;
    0
}
pub unsafe fn MPI_Abort(comm: MPI_Comm, code: c_int) -> c_int {
    fail(format!("MPI_Abort({code})"))
}
pub unsafe fn MPI_Get_version(a: *mut c_int, b: *mut c_int) -> c_int {
    *a = 3;
    *b = 1;
    0
}
pub unsafe fn RSMPI_Wtime() -> c_double {
    0.0
}
pub unsafe fn RSMPI_Wtick() -> c_double {
    1e-9
}
