//! Controlled scheduler used by the model checker.
//!
//! One *execution* is a set of tasks, each on its own OS thread, of which exactly one runs at any
//! time (baton passing).  The running task hands the baton over only at *points*: explicit calls to
//! `point()`, memory allocations (if enabled), futex waits, joins and task ends.  Which task goes
//! on is a recorded choice; `explore` enumerates all choice sequences depth first, within a bound on
//! the number of preemptions (switching away from a task that could have gone on).
//!
//! Everything the runtime itself does is excluded from control by the RT depth counter.

use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

pub mod tsan;

// ------------------------------------------------------------------------------------------
// raw system calls (never intercepted)
// ------------------------------------------------------------------------------------------
#[inline]
unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b,
        in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
        options(nostack));
    ret
}
const SYS_FUTEX: usize = 202;
const FUTEX_PRIVATE: usize = 128;

struct Gate(AtomicU32);
impl Gate {
    const fn new() -> Self {
        Gate(AtomicU32::new(0))
    }
    fn open(&self) {
        self.0.store(1, Ordering::Release);
        unsafe { raw6(SYS_FUTEX, self.0.as_ptr() as usize, 1 | FUTEX_PRIVATE, 1, 0, 0, 0) };
    }
    fn pass(&self) {
        loop {
            if self.0.swap(0, Ordering::Acquire) == 1 {
                return;
            }
            unsafe { raw6(SYS_FUTEX, self.0.as_ptr() as usize, FUTEX_PRIVATE, 0, 0, 0, 0) };
        }
    }
}

// ------------------------------------------------------------------------------------------
// execution state
// ------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TaskState {
    Runnable,
    /// waiting for `wake(key)`
    Blocked(usize),
    /// waiting on a futex word (address, expected value)
    Futex(usize, u32),
    Done,
}

struct Task {
    state: TaskState,
    gate: Box<Gate>,
    /// inside the simulated rayon pool
    in_pool: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Choice {
    pub chosen: u32,
    pub n: u32,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// maximal number of preemptions per execution
    pub bound: usize,
    /// allocations are scheduling points
    pub alloc_points: bool,
    /// virtual rayon workers that may run at the same time
    pub workers: usize,
    /// maximal number of stolen jobs per execution
    pub max_steals: u64,
    /// what rayon::current_num_threads reports
    pub num_threads: usize,
    /// stop (and report as capped) after this many executions
    pub max_execs: u64,
    /// restrict the positions at which a preemption may happen to one in `stride` points (1 = all)
    pub stride: u64,
    /// offset used with stride
    pub phase: u64,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { bound: 1, alloc_points: false, workers: 2, max_steals: u64::MAX, num_threads: 2, max_execs: 1_000_000, stride: 1, phase: 0 }
    }
}

struct St {
    cfg: Cfg,
    tasks: Vec<Task>,
    prefix: Vec<u32>,
    trace: Vec<Choice>,
    preempts: usize,
    points: u64,
    steals: u64,
    switches: u64,
    diverged: bool,
    active_workers: usize,
    handles: Vec<std::thread::JoinHandle<()>>,
    done: Gate,
    failure: Option<String>,
}

/// Room for so many choices is reserved in advance (for checks that watch the heap).
pub static TRACE_CAPACITY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub struct Exec {
    st: UnsafeCell<St>,
}
unsafe impl Sync for Exec {}

thread_local! {
    static CUR: Cell<*const Exec> = const { Cell::new(std::ptr::null()) };
    static TID: Cell<usize> = const { Cell::new(0) };
    static RT: Cell<u32> = const { Cell::new(0) };
}

/// Called when an execution cannot go on (deadlock); must not return.
static FATAL: std::sync::OnceLock<fn(&str) -> !> = std::sync::OnceLock::new();
pub fn set_fatal(f: fn(&str) -> !) {
    let _ = FATAL.set(f);
}
/// Called after every execution with the seconds this exploration has taken; answers whether the
/// exploration must stop here (and report itself as capped).
static PACER: std::sync::OnceLock<fn(f64) -> bool> = std::sync::OnceLock::new();
pub fn set_pacer(f: fn(f64) -> bool) {
    let _ = PACER.set(f);
}
pub fn out_of_time(t0: std::time::Instant) -> bool {
    PACER.get().map_or(false, |f| f(t0.elapsed().as_secs_f64()))
}
fn fatal(msg: &str) -> ! {
    if let Some(f) = FATAL.get() {
        f(msg)
    } else {
        eprintln!("simrt fatal: {msg}");
        std::process::abort()
    }
}

struct RtGuard;
impl RtGuard {
    #[inline]
    fn new() -> Self {
        let _ = RT.try_with(|r| r.set(r.get() + 1));
        RtGuard
    }
}
impl Drop for RtGuard {
    #[inline]
    fn drop(&mut self) {
        let _ = RT.try_with(|r| r.set(r.get() - 1));
    }
}

/// Is the calling code running in a controlled task (and not inside the runtime)?
#[inline]
pub fn active() -> bool {
    CUR.try_with(|c| !c.get().is_null()).unwrap_or(false) && RT.try_with(|r| r.get() == 0).unwrap_or(false)
}

#[inline]
#[allow(clippy::mut_from_ref)]
unsafe fn st() -> &'static mut St {
    let p = CUR.with(|c| c.get());
    &mut *(*p).st.get()
}

/// Index of the running task (0 = root).
pub fn task_id() -> usize {
    TID.with(|t| t.get())
}

/// Run `f` without any scheduling point (harness bookkeeping inside a task).
pub fn uncontrolled<R>(f: impl FnOnce() -> R) -> R {
    let _g = RtGuard::new();
    f()
}

impl St {
    fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n >= 1);
        if n == 1 {
            return 0;
        }
        let pos = self.trace.len();
        let c = if pos < self.prefix.len() {
            let c = self.prefix[pos] as usize;
            if c >= n {
                self.diverged = true;
                0
            } else {
                c
            }
        } else {
            0
        };
        self.trace.push(Choice { chosen: c as u32, n: n as u32 });
        c
    }
    fn others(&self, me: usize) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| i != me && self.tasks[i].state == TaskState::Runnable).collect()
    }
}

fn hand_over(s: &mut St, me: usize, to: usize) {
    s.switches += 1;
    let mine: *const Gate = &*s.tasks[me].gate;
    s.tasks[to].gate.open();
    // `s` must not be used after this line: another task owns the state until our gate opens
    unsafe { (*mine).pass() };
}

/// A point at which the scheduler may preempt the running task.
#[inline]
pub fn point() {
    if active() {
        point_slow()
    }
}

#[inline(never)]
pub(crate) fn point_slow() {
    let _g = RtGuard::new();
    let s = unsafe { st() };
    s.points += 1;
    if s.preempts >= s.cfg.bound || s.tasks.len() == 1 {
        return;
    }
    if s.cfg.stride > 1 && s.points % s.cfg.stride != s.cfg.phase {
        return;
    }
    let me = TID.with(|t| t.get());
    let others = s.others(me);
    if others.is_empty() {
        return;
    }
    let c = s.choose(1 + others.len());
    if c > 0 {
        s.preempts += 1;
        hand_over(s, me, others[c - 1]);
    }
}

/// Let another task go on if there is one (not a preemption: the running task waits for others).
pub fn yield_now() {
    if active() {
        let _g = RtGuard::new();
        let s = unsafe { st() };
        let me = TID.with(|t| t.get());
        let others = s.others(me);
        if !others.is_empty() {
            let c = s.choose(others.len());
            hand_over(s, me, others[c]);
        }
    }
}

/// Allocation hook.
#[inline]
pub fn alloc_point() {
    if active() {
        let on = unsafe { st().cfg.alloc_points };
        if on {
            point_slow()
        }
    }
}

/// Environment choice among `n` alternatives (0 = default), free of preemption cost.
pub fn choose(n: usize) -> usize {
    if !active() {
        return 0;
    }
    let _g = RtGuard::new();
    unsafe { st() }.choose(n)
}

/// Block the running task until the state set by the caller changes; picks the next task.
fn block_and_switch(me: usize) {
    let s = unsafe { st() };
    let mut waited = 0u32;
    loop {
        let others = s.others(me);
        if !others.is_empty() {
            let c = s.choose(others.len());
            hand_over(s, me, others[c]);
            return;
        }
        if s.tasks[me].state == TaskState::Runnable {
            return;
        }
        // No controlled task can run.  A futex word may still be changed by a thread that is not
        // under our control (for instance one the code under test spawned itself): poll a while.
        let mut any = false;
        for t in s.tasks.iter_mut() {
            if let TaskState::Futex(a, v) = t.state {
                any = true;
                if unsafe { (*(a as *const AtomicU32)).load(Ordering::SeqCst) } != v {
                    t.state = TaskState::Runnable;
                }
            }
        }
        if any && waited < 100_000 {
            waited += 1;
            let ts: [i64; 2] = [0, 200_000];
            unsafe { raw6(35, ts.as_ptr() as usize, 0, 0, 0, 0, 0) };
            continue;
        }
        let states: Vec<String> = s.tasks.iter().map(|t| format!("{:?}", t.state)).collect();
        fatal(&format!("deadlock: no task can run; task states {}", states.join(", ")));
    }
}

/// Wait until another task calls `wake(key)`.
pub fn block_on(key: usize) {
    assert!(active(), "block_on outside a controlled task");
    let _g = RtGuard::new();
    let me = TID.with(|t| t.get());
    unsafe { st() }.tasks[me].state = TaskState::Blocked(key);
    block_and_switch(me);
}

/// Make every task waiting for `key` runnable.
pub fn wake(key: usize) {
    let _g = RtGuard::new();
    let s = unsafe { st() };
    for t in s.tasks.iter_mut() {
        if t.state == TaskState::Blocked(key) {
            t.state = TaskState::Runnable;
        }
    }
}

fn task_key(id: usize) -> usize {
    usize::MAX - id
}

type TaskFn = Box<dyn FnOnce() + Send>;

fn start_task(ex: *const Exec, id: usize, f: TaskFn) {
    let exp = ex as usize;
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let ex = exp as *const Exec;
            CUR.with(|c| c.set(ex));
            TID.with(|t| t.set(id));
            RT.with(|r| r.set(1));
            let gate: *const Gate = unsafe { &*(&(*(*ex).st.get()).tasks)[id].gate };
            unsafe { (*gate).pass() };
            RT.with(|r| r.set(0));
            let r = catch_unwind(AssertUnwindSafe(f));
            RT.with(|r| r.set(1));
            let s = unsafe { st() };
            if let Err(e) = r {
                if s.failure.is_none() {
                    s.failure = Some(format!("task {id} panicked: {}", panic_msg(&*e)));
                }
            }
            s.tasks[id].state = TaskState::Done;
            let key = task_key(id);
            for t in s.tasks.iter_mut() {
                if t.state == TaskState::Blocked(key) {
                    t.state = TaskState::Runnable;
                }
            }
            let others = s.others(id);
            CUR.with(|c| c.set(std::ptr::null()));
            if others.is_empty() {
                if s.tasks.iter().all(|t| t.state == TaskState::Done) {
                    s.done.open();
                } else {
                    // remaining tasks are blocked; let the polling logic decide
                    CUR.with(|c| c.set(ex));
                    finish_blocked(id);
                }
            } else {
                let c = s.choose(others.len());
                s.switches += 1;
                s.tasks[others[c]].gate.open();
            }
        })
        .expect("spawn task thread");
    unsafe { (&mut *(*ex).st.get()).handles.push(h) };
}

/// The last runnable task ended while others are blocked: wait for external futex changes or report
/// a deadlock.
fn finish_blocked(_me: usize) {
    let s = unsafe { st() };
    let mut waited = 0u32;
    loop {
        let mut any = false;
        for t in s.tasks.iter_mut() {
            if let TaskState::Futex(a, v) = t.state {
                any = true;
                if unsafe { (*(a as *const AtomicU32)).load(Ordering::SeqCst) } != v {
                    t.state = TaskState::Runnable;
                }
            }
        }
        let run: Vec<usize> = (0..s.tasks.len()).filter(|&i| s.tasks[i].state == TaskState::Runnable).collect();
        if !run.is_empty() {
            let c = s.choose(run.len());
            s.tasks[run[c]].gate.open();
            return;
        }
        if any && waited < 100_000 {
            waited += 1;
            let ts: [i64; 2] = [0, 200_000];
            unsafe { raw6(35, ts.as_ptr() as usize, 0, 0, 0, 0, 0) };
            continue;
        }
        let states: Vec<String> = s.tasks.iter().map(|t| format!("{:?}", t.state)).collect();
        fatal(&format!(
            "deadlock: {}no task can run; task states {}",
            s.failure.as_ref().map(|f| format!("after \"{f}\" ")).unwrap_or_default(),
            states.join(", ")
        ));
    }
}

pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    }
}

/// Spawn a controlled task.  `f` may borrow: the caller must join it before the borrows end.
unsafe fn spawn_unchecked<'a>(f: Box<dyn FnOnce() + Send + 'a>, in_pool: bool) -> usize {
    let _g = RtGuard::new();
    let s = st();
    let id = s.tasks.len();
    s.tasks.push(Task { state: TaskState::Runnable, gate: Box::new(Gate::new()), in_pool });
    tsan::spawned(TID.with(|t| t.get()), id);
    let f: TaskFn = std::mem::transmute(f);
    start_task(CUR.with(|c| c.get()), id, f);
    id
}

fn join_task(id: usize) {
    let _g = RtGuard::new();
    let me = TID.with(|t| t.get());
    loop {
        let s = unsafe { st() };
        if s.tasks[id].state == TaskState::Done {
            tsan::joined(me, id);
            return;
        }
        s.tasks[me].state = TaskState::Blocked(task_key(id));
        block_and_switch(me);
    }
}

/// Run all closures as concurrent tasks and wait for them.
pub fn parallel<'a>(fs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    assert!(active());
    let ids: Vec<usize> = fs.into_iter().map(|f| unsafe { spawn_unchecked(f, false) }).collect();
    for id in ids {
        join_task(id);
    }
}

pub fn num_threads() -> usize {
    unsafe { st() }.cfg.num_threads
}

/// Simulated `rayon::join_context`: `b` runs inline after `a`, or is stolen by another worker.
pub fn sim_join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(bool) -> RA + Send,
    B: FnOnce(bool) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (injected, steal) = {
        let _g = RtGuard::new();
        let me = TID.with(|t| t.get());
        let s = unsafe { st() };
        let injected = !s.tasks[me].in_pool;
        if injected {
            s.tasks[me].in_pool = true;
            s.active_workers += 1;
        }
        let steal = if s.active_workers < s.cfg.workers && s.steals < s.cfg.max_steals { s.choose(2) == 1 } else { false };
        if steal {
            s.active_workers += 1;
            s.steals += 1;
        }
        (injected, steal)
    };
    let leave = || {
        if injected {
            let _g = RtGuard::new();
            let me = TID.with(|t| t.get());
            let s = unsafe { st() };
            s.tasks[me].in_pool = false;
            s.active_workers -= 1;
        }
    };
    if !steal {
        let ra = catch_unwind(AssertUnwindSafe(|| a(injected)));
        let rb = catch_unwind(AssertUnwindSafe(|| b(injected)));
        leave();
        match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) => std::panic::resume_unwind(e),
            (_, Err(e)) => std::panic::resume_unwind(e),
        }
    } else {
        let mut rb: Option<std::thread::Result<RB>> = None;
        struct SendPtr<T>(*mut T);
        unsafe impl<T> Send for SendPtr<T> {}
        let p = SendPtr(&mut rb as *mut _);
        let task: Box<dyn FnOnce() + Send> = Box::new(move || {
            let p = p;
            let r = catch_unwind(AssertUnwindSafe(|| b(true)));
            let _g = RtGuard::new();
            unsafe { *p.0 = Some(r) };
            unsafe { st() }.active_workers -= 1;
        });
        let id = unsafe { spawn_unchecked(task, true) };
        point();
        let ra = catch_unwind(AssertUnwindSafe(|| a(injected)));
        join_task(id);
        leave();
        match (ra, rb.expect("stolen job result")) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) => std::panic::resume_unwind(e),
            (_, Err(e)) => std::panic::resume_unwind(e),
        }
    }
}

// ------------------------------------------------------------------------------------------
// exploration
// ------------------------------------------------------------------------------------------
#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub execs: u64,
    pub points: u64,
    pub choices: u64,
    pub switches: u64,
    pub steals: u64,
    pub max_choices: u64,
    pub max_tasks: u64,
    pub diverged: u64,
    pub capped: bool,
    /// memory accesses examined for conflicts
    pub accesses: u64,
    /// conflicting code addresses
    pub racy_sites: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.execs += o.execs;
        self.points += o.points;
        self.choices += o.choices;
        self.switches += o.switches;
        self.steals += o.steals;
        self.max_choices = self.max_choices.max(o.max_choices);
        self.max_tasks = self.max_tasks.max(o.max_tasks);
        self.diverged += o.diverged;
        self.capped |= o.capped;
        self.accesses += o.accesses;
        self.racy_sites = self.racy_sites.max(o.racy_sites);
    }
}

static CURRENT_TRACE: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new());
/// Schedule of the execution in progress (or last finished), for replay files.
pub fn current_trace() -> Vec<u32> {
    let _g = RtGuard::new();
    let in_exec = CUR.with(|c| !c.get().is_null());
    if in_exec {
        unsafe { st() }.trace.iter().map(|c| c.chosen).collect()
    } else {
        CURRENT_TRACE.lock().map(|g| g.clone()).unwrap_or_default()
    }
}

/// Run one execution following `prefix`, then default choices.
pub fn run_one(cfg: &Cfg, prefix: &[u32], body: &(dyn Fn() + Sync), stats: &mut Stats) -> (Vec<Choice>, Option<String>) {
    let _g = RtGuard::new();
    let ex = Box::new(Exec {
        st: UnsafeCell::new(St {
            cfg: cfg.clone(),
            tasks: vec![Task { state: TaskState::Runnable, gate: Box::new(Gate::new()), in_pool: false }],
            prefix: prefix.to_vec(),
            trace: Vec::with_capacity(TRACE_CAPACITY.load(std::sync::atomic::Ordering::Relaxed)),
            preempts: 0,
            points: 0,
            steals: 0,
            switches: 0,
            diverged: false,
            active_workers: 0,
            handles: Vec::new(),
            done: Gate::new(),
            failure: None,
        }),
    });
    let exp: *const Exec = &*ex;
    let body: &'static (dyn Fn() + Sync) = unsafe { std::mem::transmute(body) };
    start_task(exp, 0, Box::new(move || body()));
    let stp = ex.st.get();
    unsafe {
        let gate: *const Gate = &(*stp).done;
        (&(*stp).tasks)[0].gate.open();
        (*gate).pass();
    }
    let s = unsafe { &mut *stp };
    for h in s.handles.drain(..) {
        let _ = h.join();
    }
    stats.execs += 1;
    stats.points += s.points;
    stats.choices += s.trace.len() as u64;
    stats.switches += s.switches;
    stats.steals += s.steals;
    stats.max_choices = stats.max_choices.max(s.trace.len() as u64);
    stats.max_tasks = stats.max_tasks.max(s.tasks.len() as u64);
    if s.diverged {
        stats.diverged += 1;
    }
    if let Ok(mut t) = CURRENT_TRACE.lock() {
        *t = s.trace.iter().map(|c| c.chosen).collect();
    }
    (std::mem::take(&mut s.trace), s.failure.take())
}

/// Enumerate every schedule of `body` within the configuration's bounds.
/// Stops at the first failing execution and returns its schedule.
pub fn explore(cfg: &Cfg, body: &(dyn Fn() + Sync)) -> (Stats, Option<(String, Vec<u32>)>) {
    explore_mode(cfg, 0, body)
}
fn explore_mode(cfg: &Cfg, mode: u8, body: &(dyn Fn() + Sync)) -> (Stats, Option<(String, Vec<u32>)>) {
    let mut stats = Stats::default();
    let mut prefix: Vec<u32> = Vec::new();
    let t0 = std::time::Instant::now();
    loop {
        if mode != 0 {
            tsan::begin(mode);
        }
        let (trace, failure) = run_one(cfg, &prefix, body, &mut stats);
        if mode != 0 {
            tsan::end();
        }
        if let Some(f) = failure {
            return (stats, Some((f, trace.iter().map(|c| c.chosen).collect())));
        }
        let mut i = trace.len();
        loop {
            if i == 0 {
                return (stats, None);
            }
            i -= 1;
            if trace[i].chosen + 1 < trace[i].n {
                break;
            }
        }
        if stats.execs >= cfg.max_execs || out_of_time(t0) {
            stats.capped = true;
            return (stats, None);
        }
        prefix = trace[..i].iter().map(|c| c.chosen).collect();
        prefix.push(trace[i].chosen + 1);
    }
}

/// Find conflicting accesses, then enumerate the schedules in which they are scheduling points.
///
/// Recording runs: the default schedule and, per recorded bound, the first `record` schedules of the
/// plain exploration.  Rounds: as long as an exploration finds further conflicts, it is repeated
/// with them.
pub fn explore_accesses(cfg: &Cfg, record: u64, body: &(dyn Fn() + Sync)) -> (Stats, Option<(String, Vec<u32>)>) {
    let mut total = Stats::default();
    if !tsan::instrumented() {
        return (total, None);
    }
    tsan::reset();
    let rec = Cfg { max_execs: record, ..cfg.clone() };
    let (st, f) = explore_mode(&rec, 1, body);
    total.add(&st);
    total.capped = false;
    if f.is_some() {
        return (total, f);
    }
    let mut round = 0;
    while tsan::adopt() {
        round += 1;
        let (st, f) = explore_mode(&Cfg { alloc_points: false, stride: 1, ..cfg.clone() }, 3, body);
        total.add(&st);
        total.racy_sites = tsan::points() as u64;
        if f.is_some() {
            return (total, f);
        }
        if round == 4 {
            total.capped |= tsan::adopt();
            break;
        }
    }
    total.accesses = tsan::accesses();
    (total, None)
}

// ------------------------------------------------------------------------------------------
// libc interposition: futex waits of controlled tasks become scheduling points
// ------------------------------------------------------------------------------------------
extern "C" {
    fn __errno_location() -> *mut i32;
}

/// Replaces libc's `syscall` in this binary (std's futex-based primitives go through it).
///
/// # Safety
/// Same contract as libc's `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX && active() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            let _g = RtGuard::new();
            let word = &*(a as *const AtomicU32);
            let me = TID.with(|t| t.get());
            if word.load(Ordering::SeqCst) != c as u32 {
                tsan::futex_passed(me, a);
                *__errno_location() = 11;
                return -1;
            }
            let s = st();
            if d != 0 {
                // timed wait: let the others run, then time out
                let others = s.others(me);
                if !others.is_empty() {
                    let k = s.choose(others.len());
                    hand_over(s, me, others[k]);
                    return 0;
                }
                *__errno_location() = 110;
                return -1;
            }
            s.tasks[me].state = TaskState::Futex(a, c as u32);
            block_and_switch(me);
            tsan::futex_passed(me, a);
            return 0;
        }
        if op == 1 || op == 10 {
            let _g = RtGuard::new();
            let s = st();
            let mut woken = 0;
            for t in s.tasks.iter_mut() {
                if let TaskState::Futex(x, _) = t.state {
                    if x == a && woken < c {
                        t.state = TaskState::Runnable;
                        woken += 1;
                    }
                }
            }
            if woken == 0 {
                return raw6(n, a, b, c, d, e, f);
            }
            return woken as isize;
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

/// Replaces libc's `sched_yield` in this binary.
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if active() {
        yield_now();
    } else {
        unsafe { raw6(24, 0, 0, 0, 0, 0, 0) };
    }
    0
}
