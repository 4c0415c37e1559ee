//! Run a closure in a forked process: every process-wide piece of state the code under test may
//! keep starts from what the parent has (which must not have called it).
use crate::num::C64;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn in_child(f: impl FnOnce() -> Result<Vec<f64>, String>) -> Result<Vec<f64>, String> {
    unsafe {
        let mut fd = [0i32; 2];
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return Err("MACHINERY: pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("MACHINERY: fork".into());
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fd[0]);
            let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| Err(format!("panicked: {}", simrt::panic_msg(&*e))));
            let mut b = vec![];
            match r {
                Ok(v) => {
                    b.push(1u8);
                    for x in v {
                        b.extend(x.to_le_bytes());
                    }
                }
                Err(m) => {
                    b.push(2);
                    b.extend(m.bytes());
                }
            }
            let mut off = 0;
            while off < b.len() {
                let n = libc::write(fd[1], b[off..].as_ptr() as *const _, b.len() - off);
                if n <= 0 {
                    libc::_exit(5);
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut b = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            b.extend(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return Err(format!("the process was ended by signal {}", libc::WTERMSIG(st)));
        }
        let code = libc::WEXITSTATUS(st);
        if code == 101 {
            return Err(crate::fw::fatal_message());
        }
        if code != 0 || b.is_empty() {
            return Err(format!("MACHINERY: child process exited with {code}"));
        }
        if b[0] == 1 {
            Ok(b[1..].chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect())
        } else {
            Err(String::from_utf8_lossy(&b[1..]).into_owned())
        }
    }
}
pub fn pack(v: &[C64]) -> Vec<f64> {
    v.iter().flat_map(|z| [z.re, z.im]).collect()
}
pub fn unpack(v: &[f64]) -> Vec<C64> {
    v.chunks_exact(2).map(|p| C64::new(p[0], p[1])).collect()
}

/// `simrt::explore`, but every execution runs in its own process.
pub fn explore_forked(cfg: &simrt::Cfg, body: &(dyn Fn() + Sync)) -> (simrt::Stats, Option<(String, Vec<u32>)>) {
    forked_mode(cfg, 0, body)
}
fn forked_mode(cfg: &simrt::Cfg, mode: u8, body: &(dyn Fn() + Sync)) -> (simrt::Stats, Option<(String, Vec<u32>)>) {
    let mut total = simrt::Stats::default();
    let mut prefix: Vec<u32> = vec![];
    let t0 = std::time::Instant::now();
    loop {
        let r = in_child(|| {
            let mut s = simrt::Stats::default();
            if mode != 0 {
                simrt::tsan::begin(mode);
            }
            let (trace, failure) = simrt::run_one(cfg, &prefix, body, &mut s);
            if mode != 0 {
                simrt::tsan::end();
            }
            if let Some(f) = failure {
                return Err(format!("{f} [schedule {:?}]", trace.iter().map(|c| c.chosen).collect::<Vec<_>>()));
            }
            let found = if mode != 0 { simrt::tsan::found() } else { vec![] };
            let mut v = vec![s.points as f64, s.choices as f64, s.switches as f64, s.steals as f64, s.max_tasks as f64, s.diverged as f64, simrt::tsan::accesses() as f64, found.len() as f64];
            v.extend(found.iter().map(|x| *x as f64));
            v.extend(trace.iter().flat_map(|c| [c.chosen as f64, c.n as f64]));
            Ok(v)
        });
        let v = match r {
            Ok(v) => v,
            Err(m) => return (total, Some((m, prefix))),
        };
        total.add(&simrt::Stats { execs: 1, points: v[0] as u64, choices: v[1] as u64, switches: v[2] as u64, steals: v[3] as u64, max_choices: v[1] as u64, max_tasks: v[4] as u64, diverged: v[5] as u64, accesses: v[6] as u64, ..Default::default() });
        let nf = v[7] as usize;
        simrt::tsan::add_found(&v[8..8 + nf].iter().map(|x| *x as usize).collect::<Vec<_>>());
        let t: Vec<(u32, u32)> = v[8 + nf..].chunks_exact(2).map(|p| (p[0] as u32, p[1] as u32)).collect();
        let mut i = t.len();
        loop {
            if i == 0 {
                return (total, None);
            }
            i -= 1;
            if t[i].0 + 1 < t[i].1 {
                break;
            }
        }
        if total.execs >= cfg.max_execs || simrt::out_of_time(t0) {
            total.capped = true;
            return (total, None);
        }
        prefix = t[..i].iter().map(|c| c.0).collect();
        prefix.push(t[i].0 + 1);
    }
}
/// `simrt::explore_accesses`, but every execution runs in its own process.
pub fn explore_accesses_forked(cfg: &simrt::Cfg, record: u64, body: &(dyn Fn() + Sync)) -> (simrt::Stats, Option<(String, Vec<u32>)>) {
    simrt::tsan::reset();
    let (mut total, f) = forked_mode(&simrt::Cfg { max_execs: record, ..cfg.clone() }, 1, body);
    total.capped = false;
    if f.is_some() {
        return (total, f);
    }
    let mut round = 0;
    while simrt::tsan::adopt() {
        round += 1;
        let (st, f) = forked_mode(&simrt::Cfg { alloc_points: false, stride: 1, ..cfg.clone() }, 3, body);
        total.add(&st);
        total.racy_sites = simrt::tsan::points() as u64;
        if f.is_some() || round == 4 {
            total.capped |= f.is_none() && simrt::tsan::adopt();
            return (total, f);
        }
    }
    (total, None)
}
