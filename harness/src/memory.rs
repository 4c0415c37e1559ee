//! C21: repeating a history retains nothing.
use crate::alloc::live;
use crate::bases::bail;
use crate::child::in_child;
use crate::erased::*;
use crate::fw::*;
use crate::arrays::*;
use crate::sched::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Repetitions after which the process is looked at.
const AT: [usize; 4] = [64, 128, 256, 512];
/// The same for larger objects.
const AT_LARGE: [usize; 4] = [24, 48, 96, 192];

/// Threads and open files of this process.
fn handles() -> (f64, f64) {
    let n = |d: &str| std::fs::read_dir(d).map(|d| d.count()).unwrap_or(0) as f64;
    (n("/proc/self/task"), n("/proc/self/fd"))
}
/// Repeat `f`; its growth per interval (bytes, blocks, threads, files).
fn repeat(at: [usize; 4], mut f: impl FnMut() -> Result<(), String>) -> Result<Vec<f64>, String> {
    let mut out = Vec::with_capacity(64);
    let mut done = 0;
    for at in at {
        while done < at {
            // other contents every time
            SALT.store(done as u32 + 1, std::sync::atomic::Ordering::Relaxed);
            f()?;
            done += 1;
        }
        let (by, bl) = live();
        let (th, fd) = handles();
        out.extend([by as f64, bl as f64, th, fd]);
    }
    Ok(out)
}
/// A history retains something if every doubling of its repetitions leaves more behind. Tables that
/// are filled once, or caches up to a fixed number of entries, come to an end before that.
fn judge(n: [usize; 4], v: &[f64], slack: [f64; 4]) -> Result<(), String> {
    for (i, what) in ["bytes of memory", "blocks of memory", "threads", "open files"].iter().enumerate() {
        let at: Vec<f64> = v.iter().skip(i).step_by(4).copied().collect();
        if at.windows(2).zip(n.windows(2)).all(|(w, n)| w[1] - w[0] > slack[i] * (n[1] - n[0]) as f64) {
            return Err(format!("{what} held after {} repetitions: {}", n.map(|n| n.to_string()).join(", "), at.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")));
        }
    }
    Ok(())
}
fn history(c: &mut Case, specs: &[Spec], seq: &[&Act], pool: bool) {
    history_at(c, AT, specs, seq, pool)
}
fn history_at(c: &mut Case, times: [usize; 4], specs: &[Spec], seq: &[&Act], pool: bool) {
    let r = in_child(|| {
        let mut objs: Vec<Obj> = specs.iter().map(|s| s.make()).collect();
        repeat(times, || {
            for a in seq {
                match catch_unwind(AssertUnwindSafe(|| a.apply(specs, &mut objs))) {
                    Ok(Ok(_)) => {}
                    Ok(Err(m)) => return Err(m),
                    Err(e) => return Err(format!("panicked: {}", simrt::panic_msg(&*e))),
                }
            }
            Ok(())
        })
    });
    c.state(1);
    c.step((seq.len() * times[3]) as u64);
    c.trace(1);
    // the pool of threads keeps queues of its own, whose blocks come and go
    if let Err(m) = r.and_then(|v| judge(times, &v, if pool { [if times == AT { 100. } else { 400. }, 0.9, 0., 0.] } else { [0.; 4] })) {
        c.fail(format!("repeating [{}]: {m}", seq.iter().map(|a| a.show(specs)).collect::<Vec<_>>().join("; ")));
    }
}
fn all_up_to_two(c: &mut Case, specs: &[Spec], acts: &[Act]) {
    for a in acts {
        history(c, specs, &[a], false);
        bail!(c);
    }
    for a in acts {
        for b in acts {
            history(c, specs, &[a, b], false);
            bail!(c);
        }
    }
}
pub fn c21(ctx: &mut Ctx) {
    let th = ctx.thorough();
    ctx.group("bases");
    for k in KINDS {
        for &sc in scalars(k) {
            let mut ns = vec![k.min_n().max(7)];
            if th {
                ns.extend([9, 33]);
            }
            for n in ns {
                ctx.case(
                    || format!("histories of {} {} n={n}", k.name(), sc.name()),
                    |c| {
                        let specs = [Spec::B(k, sc, n), Spec::B(k, sc, n + 3)];
                        let mut acts = base_acts(0, k, sc, true);
                        acts.extend(base_acts(1, k, sc, false).into_iter().take(3));
                        all_up_to_two(c, &specs, &acts);
                    },
                );
            }
            for n in [k.min_n().max(5), 33, 100] {
                ctx.case(
                    || format!("refusals, orders and many lanes of {} {} n={n}", k.name(), sc.name()),
                    |c| refusals_and_lanes(c, k, sc, n),
                );
                ctx.case(
                    || format!("single calls of {} {} n={n}", k.name(), sc.name()),
                    |c| {
                        let specs = [Spec::B(k, sc, n)];
                        for a in one_kind(k, sc).into_iter().chain([Act::Clone(0), Act::Renew(0)]) {
                            history(c, &specs, &[&a], false);
                            bail!(c);
                        }
                        for (i, o) in ops_for(k, sc).into_iter().enumerate() {
                            for v in [Var::Par, Var::InplacePar] {
                                history(c, &specs, &[&Act::Arr(0, o, v, i % 2)], true);
                                bail!(c);
                            }
                        }
                    },
                );
            }
        }
    }
    ctx.group("spaces");
    for kinds in kind_combos() {
        ctx.case(|| format!("histories of space {kinds:?}"), |c| spaces(c, &kinds));
    }
}
/// Refused calls of every kind, derivatives of many orders, arrays of many lanes.
fn refusals_and_lanes(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let specs = [Spec::B(k, sc, n)];
    let ops = ops_for(k, sc);
    let mut acts = vec![];
    for &o in &ops {
        acts.extend([Act::Bad(0, o, false), Act::Bad(0, o, true)]);
    }
    acts.extend([0, 3, 4, 5, 7, n - 1, n, n + 1, 40].map(|m| Act::Slice(0, Op::Grad(m), m % 3)));
    for m in 0..=if k.fourier() { 6 } else { 4 } {
        acts.push(Act::Mat(0, Mat::Diff(m.max(1))));
    }
    if n < 50 || c.tier == Tier::Thorough {
        for a in &acts {
            history(c, &specs, &[a], false);
            bail!(c);
        }
    }
    history(c, &specs, &acts.iter().collect::<Vec<_>>(), false);
    bail!(c);
    // as an application would: everything once, on new objects, with arrays of more and more lanes
    for (i, &o) in ops.iter().enumerate() {
        for lanes in [1, 70, 300] {
            if c.tier == Tier::Quick && (lanes * n > 12_000 || (lanes == 1 && n > 20)) {
                continue;
            }
            for (v, pool) in [(Var::Alloc, false), (Var::Inplace, false), (Var::Par, true), (Var::InplacePar, true)] {
                if pool && (lanes / 50 + i + (v == Var::Par) as usize) % 2 == 0 {
                    continue;
                }
                history_at(c, AT_LARGE, &specs, &[&Act::Lanes(0, o, v, (i + lanes / 50) % 2, lanes)], pool);
                bail!(c);
            }
        }
    }
}
fn spaces(c: &mut Case, kinds: &[Kind]) {
    let d = kinds.len();
    let a: Vec<(Kind, usize)> = kinds.iter().enumerate().map(|(i, k)| (*k, k.min_n() + i)).collect();
    let specs = [Spec::S(a, Sc::F64)];
    let ops = [SOp::Fwd, SOp::Bwd, SOp::To, SOp::From, SOp::Grad(vec![1; d], None), SOp::Grad(vec![2; d], Some(vec![2.; d]))];
    let mut acts = vec![];
    for op in &ops {
        for v in sop_variants(op) {
            let pool = matches!(v, Var::Par | Var::InplacePar);
            if matches!((op, v), (SOp::To, Var::Alloc)) && cfg!(feature = "no_space_to_ortho") {
                continue;
            }
            let act = Act::Space(0, op.clone(), *v);
            if pool && d < 3 {
                history(c, &specs, &[&act], true);
                bail!(c);
            } else if !pool {
                acts.push(act);
            }
        }
    }
    acts.extend(ops.iter().filter(|o| **o != SOp::To || !cfg!(feature = "no_space_to_ortho")).map(|o| Act::SpaceBad(0, o.clone())));
    acts.extend([Act::Meta(0), Act::Clone(0), Act::Renew(0)]);
    if d == 3 && c.tier == Tier::Quick {
        for a in &acts {
            history(c, &specs, &[a], false);
            bail!(c);
        }
        history(c, &specs, &acts.iter().collect::<Vec<_>>(), false);
    } else {
        all_up_to_two(c, &specs, &acts);
    }
}
