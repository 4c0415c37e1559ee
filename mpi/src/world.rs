//! Running a program on every rank of a simulated MPI world under the controlled scheduler.
use crate::fw::Case;
use funspace::space_mpi::{initialize, Universe};
use mpi_crate::mpi_sys::sim;
pub use mpi_crate::mpi_sys::sim::Completion;
use simrt::Cfg;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// scheduler bounds: `bound` preemptions (blocked ranks switch freely)
pub fn cfg(bound: usize, max_execs: u64) -> Cfg {
    Cfg { bound, max_execs, workers: 1, num_threads: 1, max_steals: 0, ..Cfg::default() }
}
/// only the default schedule
pub fn one() -> Cfg {
    cfg(0, 1)
}

pub type Res = Result<(), String>;

/// Run `f` on `p` ranks under every schedule within `cfg`. A rank's error, a panic, a mismatch of
/// collectives or a deadlock is a violation.
pub fn world(c: &mut Case, cfg: &Cfg, p: usize, compl: Completion, what: &str, f: &(dyn Fn(&Universe, usize) -> Res + Sync)) -> bool {
    let body = || {
        let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
        let rep = sim::run_world(p, compl, &|r| {
            let u = initialize().expect("MPI universe");
            if let Err(m) = f(&u, r) {
                simrt::uncontrolled(|| errs.lock().unwrap().push(format!("rank {r} of {p}: {m}")));
            }
        });
        if let Some(e) = rep.errors.first() {
            panic!("{e}");
        }
        let e = errs.lock().unwrap();
        if let Some(e) = e.first() {
            panic!("{e}");
        }
        drop(e);
        simrt::uncontrolled(|| *LAST.lock().unwrap() = (rep.collectives.len() as u64, rep.messages));
    };
    let one_only = cfg.max_execs == 1;
    let (mut s, fail) = simrt::explore(cfg, &body);
    if one_only {
        s.capped = false;
    }
    c.sched(&s);
    let (k, m) = *LAST.lock().unwrap();
    c.add("collectives_in_last_schedules", k);
    c.add("messages_in_last_schedules", m);
    c.max("most_schedules_of_one_program", s.execs as f64);
    match fail {
        Some((m, t)) => {
            c.fail(format!("{what}: {m} [ranks {p}, completion {compl:?}, schedule {t:?}]"));
            false
        }
        None => true,
    }
}
static LAST: Mutex<(u64, u64)> = Mutex::new((0, 0));

/// Run `f` as one rank without peers; any communication panics with a message starting with "MPI:".
pub fn alone<R: Send>(p: usize, r: usize, f: &(dyn Fn(&Universe) -> R + Sync)) -> Result<R, String> {
    let out: Mutex<Option<Result<R, String>>> = Mutex::new(None);
    let body = || {
        let x = sim::as_rank(p, r, || {
            let u = initialize().expect("MPI universe");
            catch_unwind(AssertUnwindSafe(|| f(&u))).map_err(|e| simrt::panic_msg(&*e))
        });
        simrt::uncontrolled(|| *out.lock().unwrap() = Some(x));
    };
    let mut s = simrt::Stats::default();
    let (_, fail) = simrt::run_one(&one(), &[], &body, &mut s);
    if let Some(m) = fail {
        return Err(m);
    }
    let r = out.lock().unwrap().take();
    r.expect("a result")
}
/// several ranks at once without threads per rank: `f(universe, rank)` one rank after the other
pub fn each_alone(p: usize, f: &(dyn Fn(&Universe, usize) -> Res + Sync)) -> Res {
    let out: Mutex<Res> = Mutex::new(Ok(()));
    let body = || {
        for r in 0..p {
            let x = sim::as_rank(p, r, || {
                let u = initialize().expect("MPI universe");
                catch_unwind(AssertUnwindSafe(|| f(&u, r))).unwrap_or_else(|e| Err(format!("panicked: {}", simrt::panic_msg(&*e))))
            });
            if let Err(m) = x {
                simrt::uncontrolled(|| *out.lock().unwrap() = Err(format!("rank {r} of {p}: {m}")));
                return;
            }
        }
    };
    let mut s = simrt::Stats::default();
    let (_, fail) = simrt::run_one(&one(), &[], &body, &mut s);
    if let Some(m) = fail {
        return Err(m);
    }
    out.into_inner().unwrap()
}
/// did the code refuse by itself, before any communication?
pub fn refused<R>(r: &Result<R, String>) -> Option<bool> {
    match r {
        Ok(_) => Some(false),
        Err(m) if m.starts_with("MPI:") => None,
        Err(_) => Some(true),
    }
}
