//! C09, C10: parallel variants under every schedule; independence of history and sharing.
use crate::arrays::*;
use crate::bases::*;
use crate::child::*;
use crate::erased::*;
use crate::fw::*;
use crate::model::*;
use crate::num::*;
use ndarray::ArrayD;
use simrt::Cfg;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// base over the instrumented scalar type (arithmetic operations are scheduling points)
pub type MkBase = fn(Kind, usize) -> Box<dyn Bs>;
static MK: std::sync::OnceLock<MkBase> = std::sync::OnceLock::new();
pub fn instrumented(b: MkBase) {
    let _ = MK.set(b);
}
fn sf_base(k: Kind, n: usize) -> Box<dyn Bs> {
    (MK.get().expect("instrumented scalar"))(k, n)
}

/// Entry-wise comparison; every lane along `axis` relative to its own magnitude.
fn near(got: &ArrayD<C64>, want: &ArrayD<C64>, x: &ArrayD<C64>, axis: usize, eps_tol: f64, gain: f64) -> Result<(), String> {
    if got.shape() != want.shape() {
        return Err(format!("result has shape {:?}, expected {:?}", got.shape(), want.shape()));
    }
    let ax = ndarray::Axis(axis);
    for (l, ((g, w), xi)) in got.lanes(ax).into_iter().zip(want.lanes(ax)).zip(x.lanes(ax)).enumerate() {
        let s = w.iter().map(|z| l1(*z)).chain(xi.iter().map(|z| l1(*z) * gain)).fold(0., f64::max);
        for (i, (a, b)) in g.iter().zip(w.iter()).enumerate() {
            let e = l1(a - b);
            if !(e <= eps_tol * s) {
                return Err(format!("lane {l}, entry {i} is {a} instead of {b}"));
            }
        }
    }
    Ok(())
}
fn near_all(got: &[C64], want: &[C64], scale: f64, eps_tol: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("result has {} entries, expected {}", got.len(), want.len()));
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        let e = l1(a - b);
        if !(e <= eps_tol * scale) && !(a.re.is_nan() && b.re.is_nan()) {
            return Err(format!("entry {i} is {a} instead of {b}"));
        }
    }
    Ok(())
}

/// Enumerate the schedules of `body`; a schedule on which it fails is a violation.
fn explore(c: &mut Case, cfg: &Cfg, what: &str, body: &(dyn Fn() -> Result<(), String> + Sync)) {
    let (st, f) = simrt::explore(cfg, &|| {
        if let Err(e) = body() {
            panic!("{e}")
        }
    });
    c.sched(&st);
    c.max("most_schedules_of_one_body", st.execs as f64);
    if let Some((m, s)) = f {
        c.fail(format!("{what}: {m} under schedule {s:?} of {cfg:?}"));
    }
}

// ---------------------------------------------------------------------------------------------
// C09
// ---------------------------------------------------------------------------------------------
/// one parallel call to be compared with the serial one
struct Job {
    name: String,
    x: ArrayD<C64>,
    g: ArrayD<C64>,
    want: ArrayD<C64>,
    axis: usize,
    tol: f64,
    gain: f64,
    op: Op,
    v: Var,
    dynamic: bool,
}
fn jobs(b: &dyn Bs, k: Kind, sc: Sc, n: usize, others: &[usize], axis: usize, ops: &[Op], vars: &[Var], with_spread: bool) -> Vec<Job> {
    let (cs, cp) = b.cplx();
    let mut out = vec![];
    for (oi, &op) in ops.iter().enumerate() {
        let (il, ol) = op.lens(k, n);
        let (cin, cout) = if op.in_phys() { (cp, cs) } else if op.out_phys() { (cs, cp) } else { (cs, cs) };
        let mut shape = others.to_vec();
        shape.insert(axis, il);
        let mut oshape = others.to_vec();
        oshape.insert(axis, ol);
        let mut x = field(&shape, oi, cin, sc);
        if with_spread {
            let sh = x.shape().to_vec();
            for (idx, v) in x.indexed_iter_mut() {
                let l: usize = (0..sh.len()).filter(|d| *d != axis).fold(0, |a, d| a * sh[d] + idx[d]);
                *v = q(sc, *v * 10f64.powi([0, -7, 5, 3, -4][l % 5]));
            }
        }
        if oi % 2 == 0 {
            mixed(&mut x, axis, oi / 2 + others.len(), sc);
        }
        let g = field(&oshape, oi + 1, cout, sc).mapv(|z| z * 1e3 + C64::new(7e5, if cout { -3e5 } else { 0. }));
        let want = b.arr(op, Var::Alloc, &x, Lay::C, None, axis, false).0;
        let gain = if let Op::Grad(d) = op { (n as f64).powi(d as i32) } else { 1. };
        for &v in vars {
            out.push(Job { name: format!("{} {v:?} of shape {shape:?} along axis {axis}", op.name()), x: x.clone(), g: g.clone(), want: want.clone(), axis, tol: 64. * kappa(op, k, n) * sc.eps(), gain, op, v, dynamic: (oi + axis + shape.len()) % 2 == 0 });
        }
    }
    out
}
impl Job {
    fn run(&self, b: &dyn Bs) -> Result<(), String> {
        let out = if self.v.inplace() { Some((&self.g, Lay::C)) } else { None };
        let (y, xa) = b.arr(self.op, self.v, &self.x, Lay::C, out, self.axis, self.dynamic);
        simrt::uncontrolled(|| {
            near(&y, &self.want, &self.x, self.axis, self.tol, self.gain)?;
            if xa != self.x {
                return Err("the input was modified".into());
            }
            Ok(())
        })
    }
}
const PAR: [Var; 2] = [Var::Par, Var::InplacePar];

pub fn c09(ctx: &mut Ctx) {
    if simrt::tsan::instrumented() {
        return c09_accesses(ctx);
    }
    let th = ctx.thorough();
    for k in KINDS {
        for sc in [Sc::F64, Sc::F32, Sc::Z64] {
            if !scalars(k).contains(&sc) {
                continue;
            }
            let n = k.min_n() + 1;
            ctx.group("work splits of bases");
            for t in [1usize, 2, 3, 4, 5, 6, 8, 12, 16] {
                if sc != Sc::F64 && ![2, 3, 8].contains(&t) {
                    continue;
                }
                ctx.case(|| format!("splits {} {} threads={t}", k.name(), sc.name()), |c| c09_splits(c, k, sc, n, t));
            }
        }
        ctx.group("preemptions at allocations");
        for lanes in [2usize, 3, 4] {
            ctx.case(|| format!("allocation interleavings {} lanes={lanes}", k.name()), |c| c09_alloc(c, k, lanes));
        }
        ctx.group("preemptions at arithmetic operations");
        for lanes in [2usize, 3] {
            for (oi, op) in c09_ops().into_iter().enumerate() {
                let _ = oi;
                ctx.case(|| format!("arithmetic interleavings {} {} lanes={lanes}", k.name(), op.name()), |c| c09_arith(c, k, op, lanes));
            }
        }
    }
    ctx.group("spaces");
    for kinds in kind_combos() {
        ctx.case(|| format!("schedules of space {}", combo_name(&kinds.iter().map(|k| (*k, k.min_n())).collect())), |c| c09_space(c, &kinds));
    }
    // cross-check of the simulated pool: the same calls on the real one
    ctx.group("thread pool");
    for k in KINDS {
        for sc in [Sc::F64, Sc::F32, Sc::Z64] {
            if !scalars(k).contains(&sc) {
                continue;
            }
            for t in [1usize, 2, 3, 4, 7, 8] {
                if sc != Sc::F64 && t != 3 {
                    continue;
                }
                ctx.case(|| format!("pool {} {} threads={t}", k.name(), sc.name()), |c| c09_pool(c, k, sc, t));
            }
        }
    }
    ctx.group("spaces on the thread pool");
    for kinds in kind_combos() {
        if kinds.len() == 3 && !th && kinds.iter().map(|k| *k as usize).sum::<usize>() % 3 != 0 {
            continue;
        }
        ctx.case(|| format!("pool, space {kinds:?}"), |c| c09_space_pool(c, &kinds));
    }
}
fn c09_ops() -> Vec<Op> {
    vec![Op::Fwd, Op::Bwd, Op::To, Op::From, Op::Grad(1), Op::Grad(2)]
}
pub(crate) fn ops_for(k: Kind, sc: Sc) -> Vec<Op> {
    ops_of(k, sc).into_iter().filter(|o| *o != Op::Grad(0) && *o != Op::Grad(3)).collect()
}
/// Every way a pool of `t` threads may split and steal the lanes.
fn c09_splits(c: &mut Case, k: Kind, sc: Sc, n: usize, t: usize) {
    let b = base(k, sc, n);
    let th = c.tier == Tier::Thorough;
    let ops = ops_for(k, sc);
    let mut shapes: Vec<(Vec<usize>, usize, usize)> = vec![(vec![], 0, 2)];
    for m in (0..=9).chain([15, 16, 17, 31, 32, 33, 64, 65, 100]) {
        // wider pools of busy workers on few lanes; two busy workers on many
        let w = match m {
            0..=5 => 4,
            6..=9 => 3,
            _ => 2,
        };
        for ax in 0..2 {
            shapes.push((vec![m], ax, w));
        }
    }
    for (o, w) in [(vec![1, 1], 2), (vec![2, 2], 3), (vec![3, 2], 2), (vec![2, 0], 2), (vec![1, 5], 2), (vec![5, 3], 2), (vec![2, 1, 2], 2)] {
        for ax in 0..=o.len() {
            shapes.push((o.clone(), ax, w));
        }
    }
    for (si, (others, ax, w)) in shapes.into_iter().enumerate() {
        let lanes: usize = others.iter().product();
        let steals = match lanes {
            0..=6 => u64::MAX,
            7..=17 => 3,
            _ => 2,
        };
        // operations take turns on the larger shapes
        for (ji, j) in jobs(&*b, k, sc, n, &others, ax, &ops, &PAR, si % 2 == 1).iter().enumerate() {
            if lanes > 3 && !th && (ji + si + t) % 5 != 0 {
                continue;
            }
            let cfg = Cfg { bound: 0, alloc_points: false, workers: w.min(t), max_steals: steals, num_threads: t, max_execs: 60_000, ..Cfg::default() };
            explore(c, &cfg, &j.name, &|| j.run(&*b));
            bail!(c);
        }
    }
}
/// Interleavings at the granularity of allocations.
fn c09_alloc(c: &mut Case, k: Kind, lanes: usize) {
    let th = c.tier == Tier::Thorough;
    let n = k.min_n();
    let b = base(k, Sc::F64, n);
    for ax in 0..2 {
        for j in jobs(&*b, k, Sc::F64, n, &[lanes], ax, &c09_ops(), &PAR, false) {
            let bound = if lanes == 2 { 2 } else { 1 } + th as usize;
            let cfg = Cfg { bound, alloc_points: true, workers: lanes.min(3), num_threads: lanes, max_execs: 400_000, ..Cfg::default() };
            explore(c, &cfg, &j.name, &|| j.run(&*b));
            bail!(c);
        }
    }
}
/// Interleavings at the granularity of single arithmetic operations.
fn c09_arith(c: &mut Case, k: Kind, op: Op, lanes: usize) {
    let th = c.tier == Tier::Thorough;
    let n = k.min_n().max(3);
    let b = sf_base(k, n);
    for ax in 0..2 {
        for j in jobs(&*b, k, Sc::F64, n, &[lanes], ax, &[op], &PAR, false) {
            let bound = if th && lanes == 2 { 2 } else { 1 };
            let cfg = Cfg { bound, alloc_points: true, workers: 2 + (th && lanes == 3) as usize, num_threads: lanes, max_execs: 2_000_000, ..Cfg::default() };
            explore(c, &cfg, &j.name, &|| j.run(&*b));
            bail!(c);
        }
    }
}
fn pool(t: usize) -> rayon_core::ThreadPool {
    rayon_core::ThreadPoolBuilder::new().num_threads(t).build().expect("thread pool")
}
/// The unmodified rayon-core on real threads: larger arrays, conformance of the simulated pool.
fn c09_pool(c: &mut Case, k: Kind, sc: Sc, t: usize) {
    let p = pool(t);
    let th = c.tier == Tier::Thorough;
    let mut shapes: Vec<(usize, Vec<usize>, usize)> = vec![];
    for n in [k.min_n(), k.min_n() + 1, 16.max(k.min_n()), 33, 64, 65] {
        for m in [0usize, 1, 2, 3, 7, 8, 9, 63, 64, 65, 128, 255, 256, 257, 513, 1000, 1024, 2049] {
            if (n >= 33 && ![1, 7, 64, 255, 257, 1024].contains(&m)) || (n == k.min_n() + 1 && m > 70) {
                continue;
            }
            for ax in 0..2 {
                shapes.push((n, vec![m], ax));
            }
        }
        for o in [vec![17, 9], vec![5, 31], vec![40, 40]] {
            for ax in 0..3 {
                if n < 33 {
                    shapes.push((n, o.clone(), ax));
                }
            }
        }
        if n == 33 {
            shapes.push((n, vec![100, 90], 1));
        }
    }
    for (si, (n, others, ax)) in shapes.into_iter().enumerate() {
        let b = base(k, sc, n);
        let ops = ops_for(k, sc);
        let lanes: usize = others.iter().product();
        for (ji, j) in jobs(&*b, k, sc, n, &others, ax, &ops, &PAR, si % 2 == 0).iter().enumerate() {
            if !th && lanes > 10 && (ji + si + t) % 6 != 0 {
                continue;
            }
            let r = p.install(|| catch_unwind(AssertUnwindSafe(|| j.run(&*b)))).unwrap_or_else(|e| Err(simrt::panic_msg(&*e)));
            c.state(1);
            c.step(1);
            c.trace(1);
            c.add("runs_on_the_real_pool", 1);
            if let Err(m) = r {
                c.fail(format!("{} on {t} real threads: {m}", j.name));
            }
            bail!(c);
        }
    }
}
struct SpJob {
    name: String,
    op: SOp,
    v: Var,
    x: ArrayD<C64>,
    g: ArrayD<C64>,
    want: ArrayD<C64>,
    scale: f64,
    tol: f64,
}
fn space_jobs(s: &dyn Sp, sp: &Combo, pick: usize) -> Vec<SpJob> {
    let (cs, cp) = s.cplx();
    let (p, m, o) = s.shapes();
    let d = sp.len();
    let mut ops = vec![SOp::Fwd, SOp::Bwd, SOp::To, SOp::From];
    ops.push(SOp::Grad([2, 1, 1][..d].to_vec(), Some([2., 0.5, 3.][..d].to_vec())));
    ops.push(SOp::Grad([0, 1, 2][3 - d..].to_vec(), None));
    let mut out = vec![];
    for (oi, op) in ops.into_iter().enumerate() {
        let (ish, osh) = sop_shapes(&op, &p, &m, &o);
        let (cin, cout) = match op {
            SOp::Fwd => (cp, cs),
            SOp::Bwd => (cs, cp),
            _ => (cs, cs),
        };
        let mut x = field(ish, oi, cin, Sc::F64);
        if oi % 2 == 1 {
            contents(&mut x, (oi / 2) % d, &[0, 1, 2, 0, 3], Sc::F64);
        }
        let g = field(osh, oi + 3, cout, Sc::F64).mapv(|z| z * 1e3 + C64::new(9e5, 0.));
        let serial: &[Var] = if matches!(op, SOp::To) && cfg!(feature = "no_space_to_ortho") { &[Var::Inplace] } else { &[Var::Alloc] };
        let want = s.op(op.clone(), serial[0], &x, Lay::C, if serial[0].inplace() { Some((&g, Lay::C)) } else { None }).0;
        let kap: f64 = sp.iter().map(|a| kappa(if matches!(op, SOp::Fwd) { Op::Fwd } else if matches!(op, SOp::From) { Op::From } else { Op::To }, a.0, a.1)).product();
        let scale = norm_max(&flat(&want)).max(norm_max(&flat(&x)));
        for &v in sop_variants(&op) {
            if matches!(v, Var::Par | Var::InplacePar) {
                out.push(SpJob { name: format!("{} {v:?} of {}", sop_name(&op), combo_name(sp)), op: op.clone(), v, x: x.clone(), g: g.clone(), want: want.clone(), scale, tol: 256. * kap * f64::EPSILON });
            }
        }
    }
    if pick > 1 {
        out = out.into_iter().enumerate().filter(|(i, _)| i % pick == 0).map(|x| x.1).collect();
    }
    out
}
impl SpJob {
    fn run(&self, s: &dyn Sp) -> Result<(), String> {
        let out = if self.v.inplace() { Some((&self.g, Lay::C)) } else { None };
        let (y, xa) = s.op(self.op.clone(), self.v, &self.x, Lay::C, out);
        simrt::uncontrolled(|| {
            if y.shape() != self.want.shape() {
                return Err(format!("result has shape {:?}, expected {:?}", y.shape(), self.want.shape()));
            }
            near_all(&flat(&y), &flat(&self.want), self.scale, self.tol)?;
            if xa != self.x {
                return Err("the input was modified".into());
            }
            Ok(())
        })
    }
}
fn c09_space(c: &mut Case, kinds: &[Kind]) {
    let th = c.tier == Tier::Thorough;
    let d = kinds.len();
    // small sizes, all distinct
    let sp: Combo = kinds.iter().enumerate().map(|(i, k)| (*k, k.min_n() + if *k == Kind::R2c || *k == Kind::C2c { i + 2 } else { i })).collect();
    let s = space(&sp, Sc::F64).expect("admissible");
    for (ji, j) in space_jobs(&*s, &sp, 1).iter().enumerate() {
        for (t, w) in [(2usize, 2usize), (3, 2), (4, 2)] {
            // many lanes: at most two busy workers, and few splits in 3D
            if t > 2 && (d == 3 || (!th && (ji + t) % 3 != 0)) {
                continue;
            }
            let cfg = Cfg { bound: 0, alloc_points: false, workers: w, max_steals: if d == 3 { 1 + th as u64 } else { 2 + th as u64 }, num_threads: t, max_execs: 60_000, ..Cfg::default() };
            explore(c, &cfg, &j.name, &|| j.run(&*s));
            bail!(c);
        }
    }
    // interleavings of the two halves of the lanes at allocations and at arithmetic operations
    if d <= 2 || th {
        for j in space_jobs(&*s, &sp, if th { 1 } else { 5 }).iter().take(if th { 12 } else { 2 }) {
            let cfg = Cfg { bound: 1, alloc_points: true, workers: 2, max_steals: 1, num_threads: 2, max_execs: 400_000, stride: if th { 1 } else { 3 }, ..Cfg::default() };
            explore(c, &cfg, &j.name, &|| j.run(&*s));
            bail!(c);
        }
    }
}
fn c09_space_pool(c: &mut Case, kinds: &[Kind]) {
    let d = kinds.len();
    let sizes: &[[usize; 3]] = match d {
        1 => &[[40, 0, 0], [65, 0, 0]],
        2 => &[[33, 40, 0], [20, 65, 0], [11, 16, 0]],
        _ => &[[12, 17, 14], [10, 11, 24]],
    };
    for (i, sz) in sizes.iter().enumerate() {
        let sp: Combo = kinds.iter().zip(sz).map(|(k, n)| (*k, *n)).collect();
        let s = space(&sp, Sc::F64).expect("admissible");
        let js = space_jobs(&*s, &sp, 1);
        for t in [2usize, 3, 8] {
            let p = pool(t);
            for (ji, j) in js.iter().enumerate() {
                if c.tier == Tier::Quick && (ji + t + i) % 2 == 0 {
                    continue;
                }
                let r = p.install(|| catch_unwind(AssertUnwindSafe(|| j.run(&*s)))).unwrap_or_else(|e| Err(simrt::panic_msg(&*e)));
                c.state(1);
                c.step(1);
                c.trace(1);
                c.add("runs_on_the_real_pool", 1);
                if let Err(m) = r {
                    c.fail(format!("{} on {t} real threads: {m}", j.name));
                }
                bail!(c);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub(crate) enum Act {
    /// one-dimensional operation with input number `usize`
    Slice(usize, Op, usize),
    /// array operation (axis of a two-dimensional array)
    Arr(usize, Op, Var, usize),
    /// the same with so many lanes
    Lanes(usize, Op, Var, usize, usize),
    Mat(usize, Mat),
    Meta(usize),
    /// a call with a wrong size, which panics
    Bad(usize, Op, bool),
    /// replace the object by its clone and drop the original
    Clone(usize),
    /// construct it anew
    Renew(usize),
    Space(usize, SOp, Var),
    /// array of the wrong shape given to a space
    SpaceBad(usize, SOp),
}
#[derive(Clone)]
pub(crate) enum Spec {
    B(Kind, Sc, usize),
    Sf(Kind, usize),
    S(Combo, Sc),
}
pub(crate) enum Obj {
    B(Box<dyn Bs>),
    S(Box<dyn Sp>),
}
impl Spec {
    pub(crate) fn make(&self) -> Obj {
        match self {
            Spec::B(k, sc, n) => Obj::B(base(*k, *sc, *n)),
            Spec::Sf(k, n) => Obj::B(sf_base(*k, *n)),
            Spec::S(sp, sc) => Obj::S(space(sp, *sc).expect("admissible")),
        }
    }
    fn name(&self) -> String {
        match self {
            Spec::B(k, sc, n) => format!("{} {} n={n}", k.name(), sc.name()),
            Spec::Sf(k, n) => format!("{} n={n}", k.name()),
            Spec::S(sp, sc) => format!("space {} {}", combo_name(sp), sc.name()),
        }
    }
    fn sc(&self) -> Sc {
        match self {
            Spec::B(_, sc, _) | Spec::S(_, sc) => *sc,
            Spec::Sf(..) => Sc::F64,
        }
    }
    fn kappa(&self) -> f64 {
        match self {
            Spec::B(k, _, n) | Spec::Sf(k, n) => kappa(Op::Fwd, *k, *n),
            Spec::S(sp, _) => sp.iter().map(|x| kappa(Op::Fwd, x.0, x.1)).product(),
        }
    }
}
/// Added to the contents of every input (C21 changes it from one repetition to the next).
pub(crate) static SALT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn salted() -> f64 {
    1. + SALT.load(std::sync::atomic::Ordering::Relaxed) as f64 / 1024.
}
fn salt_all(mut x: ndarray::ArrayD<C64>) -> ndarray::ArrayD<C64> {
    let s = salted();
    if s != 1. {
        x.mapv_inplace(|z| z * s);
    }
    x
}
impl Act {
    fn obj(&self) -> usize {
        match self {
            Act::Slice(o, ..) | Act::Arr(o, ..) | Act::Lanes(o, ..) | Act::Mat(o, ..) | Act::Meta(o) | Act::Bad(o, ..) | Act::Clone(o) | Act::Renew(o) | Act::Space(o, ..) | Act::SpaceBad(o, _) => *o,
        }
    }
    pub(crate) fn show(&self, specs: &[Spec]) -> String {
        let s = specs[self.obj()].name();
        match self {
            Act::Slice(_, op, w) => format!("{} (input {w}) on {s}", op.name()),
            Act::Arr(_, op, v, ax) => format!("{} {v:?} of an array along axis {ax} on {s}", op.name()),
            Act::Lanes(_, op, v, ax, l) => format!("{} {v:?} of an array of {l} lanes along axis {ax} on {s}", op.name()),
            Act::Mat(_, m) => format!("{m:?} of {s}"),
            Act::Meta(_) => format!("grid of {s}"),
            Act::Bad(_, op, a) => format!("{} with a wrong size{} on {s}", op.name(), if *a { " (array)" } else { "" }),
            Act::Clone(_) => format!("cloning {s}"),
            Act::Renew(_) => format!("constructing {s} again"),
            Act::Space(_, op, v) => format!("{} {v:?} on {s}", sop_name(op)),
            Act::SpaceBad(_, op) => format!("{} of a wrong shape on {s}", sop_name(op)),
        }
    }
    /// Perform it on the object; the values returned are what an observer sees.
    fn run(&self, spec: &Spec, o: &Obj) -> Result<Vec<C64>, String> {
        match (self, o, spec) {
            (Act::Slice(_, op, w), Obj::B(b), Spec::B(k, _, n) | Spec::Sf(k, n)) => {
                let (il, ol) = op.lens(*k, *n);
                let (x, mut out) = simrt::uncontrolled(|| {
                    let (cs, cp) = b.cplx();
                    let cx = if op.in_phys() { cp } else { cs };
                    let x: Vec<C64> = dense(il, 3 + w, cx).iter().map(|z| z * [1., 37., 1e-6][*w % 3] * salted()).collect();
                    (x, garbage(ol))
                });
                b.slice(*op, &x, &mut out);
                Ok(out)
            }
            (Act::Arr(_, op, v, ax) | Act::Lanes(_, op, v, ax, _), Obj::B(b), Spec::B(k, _, n) | Spec::Sf(k, n)) => {
                let lanes = if let Act::Lanes(.., l) = self { *l } else { 3 };
                let (il, ol) = op.lens(*k, *n);
                let (x, g) = simrt::uncontrolled(|| {
                    let (cs, cp) = b.cplx();
                    let (cin, cout) = if op.in_phys() { (cp, cs) } else if op.out_phys() { (cs, cp) } else { (cs, cs) };
                    let (mut s, mut so) = (vec![lanes], vec![lanes]);
                    s.insert(*ax, il);
                    so.insert(*ax, ol);
                    (salt_all(field(&s, 2, cin, spec.sc())), field(&so, 5, cout, spec.sc()))
                });
                let r = b.arr(*op, *v, &x, Lay::C, if v.inplace() { Some((&g, Lay::C)) } else { None }, *ax, false).0;
                Ok(simrt::uncontrolled(|| flat(&r)))
            }
            (Act::Mat(_, m), Obj::B(b), _) => {
                let (a, p) = b.mat(*m);
                Ok(simrt::uncontrolled(|| a.iter().copied().chain(p.into_iter().flatten()).collect()))
            }
            (Act::Meta(_), Obj::B(b), _) => Ok(b.coords().into_iter().map(|x| C64::new(x, 0.)).chain([C64::new(b.len().0 as f64, b.len().1 as f64)]).collect()),
            (Act::Meta(_), Obj::S(s), _) => Ok(s.coords().into_iter().flatten().map(|x| C64::new(x, 0.)).collect()),
            (Act::Bad(_, op, arr), Obj::B(b), Spec::B(k, _, n) | Spec::Sf(k, n)) => {
                let (il, ol) = op.lens(*k, *n);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if *arr {
                        let (cs, cp) = b.cplx();
                        b.arr(*op, Var::Alloc, &field(&[il + 1, 2], 1, if op.in_phys() { cp } else { cs }, spec.sc()), Lay::C, None, 0, false);
                    } else {
                        b.slice(*op, &dense(il, 3, false), &mut garbage(ol + 1));
                    }
                }));
                Ok(vec![C64::new(r.is_err() as u8 as f64, 0.)])
            }
            (Act::Space(_, op, v), Obj::S(s), _) => {
                let (x, g) = simrt::uncontrolled(|| {
                    let (cs, cp) = s.cplx();
                    let (p, m, o) = s.shapes();
                    let (ish, osh) = sop_shapes(op, &p, &m, &o);
                    let (cin, cout) = match op {
                        SOp::Fwd => (cp, cs),
                        SOp::Bwd => (cs, cp),
                        _ => (cs, cs),
                    };
                    (salt_all(field(ish, 4, cin, spec.sc())), field(osh, 6, cout, spec.sc()))
                });
                let r = s.op(op.clone(), *v, &x, Lay::C, if v.inplace() { Some((&g, Lay::C)) } else { None }).0;
                Ok(simrt::uncontrolled(|| flat(&r)))
            }
            (Act::SpaceBad(_, op), Obj::S(s), _) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let (cs, cp) = s.cplx();
                    let (p, m, o) = s.shapes();
                    let (ish, _) = sop_shapes(op, &p, &m, &o);
                    let mut sh = ish.clone();
                    let d = sh.len();
                    sh[d - 1] += 1;
                    s.op(op.clone(), Var::Alloc, &field(&sh, 1, if *op == SOp::Fwd { cp } else { cs }, spec.sc()), Lay::C, None);
                }));
                Ok(vec![C64::new(r.is_err() as u8 as f64, 0.)])
            }
            (Act::Clone(_) | Act::Renew(_), _, _) => Ok(vec![]),
            _ => Err("MACHINERY: action does not fit the object".into()),
        }
    }
    pub(crate) fn apply(&self, specs: &[Spec], objs: &mut [Obj]) -> Result<Vec<C64>, String> {
        let i = self.obj();
        match self {
            Act::Clone(_) => {
                let n = match &objs[i] {
                    Obj::B(b) => Obj::B(b.boxed()),
                    Obj::S(s) => Obj::S(s.boxed()),
                };
                objs[i] = n;
                Ok(vec![])
            }
            Act::Renew(_) => {
                objs[i] = specs[i].make();
                Ok(vec![])
            }
            _ => self.run(&specs[i], &objs[i]),
        }
    }
}
/// Result of each action on a fresh object in a fresh process.
fn fresh(c: &mut Case, specs: &[Spec], acts: &[Act]) -> Option<Vec<Vec<C64>>> {
    let mut out = vec![];
    for a in acts {
        let r = in_child(|| {
            let i = a.obj();
            let o = specs[i].make();
            let v = catch_unwind(AssertUnwindSafe(|| a.run(&specs[i], &o))).map_err(|e| format!("panicked: {}", simrt::panic_msg(&*e)))??;
            Ok(pack(&v))
        });
        c.step(1);
        match r {
            Ok(v) => out.push(unpack(&v)),
            Err(m) => {
                c.fail(format!("{} on a fresh object: {m}", a.show(specs)));
                return None;
            }
        }
    }
    Some(out)
}
fn same(a: &Act, specs: &[Spec], got: &[C64], want: &[C64]) -> Result<(), String> {
    let s = &specs[a.obj()];
    near_all(got, want, norm_max(want), 64. * s.kappa() * s.sc().eps())
}
/// All sequences of actions up to length two, each in its own process, and of length three, in one
/// process after another; every action must give what it gives on a fresh object.
fn histories(c: &mut Case, specs: &[Spec], acts: &[Act]) {
    let Some(want) = fresh(c, specs, acts) else { return };
    let n = acts.len();
    let run_seq = |objs: &mut Vec<Obj>, seq: &[usize]| -> Result<(), String> {
        for (p, &i) in seq.iter().enumerate() {
            let names = || seq[..p].iter().map(|j| acts[*j].show(specs)).collect::<Vec<_>>().join("; ");
            let r = catch_unwind(AssertUnwindSafe(|| acts[i].apply(specs, objs))).unwrap_or_else(|e| Err(format!("panicked: {}", simrt::panic_msg(&*e))));
            match r {
                Ok(v) => same(&acts[i], specs, &v, &want[i]).map_err(|m| format!("after [{}], {}: {m}", names(), acts[i].show(specs)))?,
                Err(m) => return Err(format!("after [{}], {}: {m}", names(), acts[i].show(specs))),
            }
        }
        Ok(())
    };
    for i in 0..n {
        for j in 0..n {
            let r = in_child(|| {
                let mut o: Vec<Obj> = specs.iter().map(|s| s.make()).collect();
                run_seq(&mut o, &[i, j])?;
                Ok(vec![])
            });
            c.state(1);
            c.step(2);
            c.trace(1);
            if let Err(m) = r {
                c.fail(m);
                return;
            }
        }
    }
    // longer histories on objects that live on
    let r = in_child(|| {
        let mut o: Vec<Obj> = specs.iter().map(|s| s.make()).collect();
        let mut cnt = 0.;
        for i in 0..n {
            for j in 0..n {
                for k in 0..n {
                    run_seq(&mut o, &[i, j, k])?;
                    cnt += 3.;
                }
            }
        }
        Ok(vec![cnt])
    });
    match r {
        Ok(v) => {
            c.state((n * n * n) as u64);
            c.step(v[0] as u64);
            c.trace((n * n * n) as u64);
        }
        Err(m) => c.fail(format!("within a long history: {m}")),
    }
}
pub(crate) fn base_acts(o: usize, k: Kind, sc: Sc, rich: bool) -> Vec<Act> {
    let mut v = vec![];
    let z = matches!(sc, Sc::Z64 | Sc::Z32);
    if !z {
        v.push(Act::Slice(o, Op::Fwd, 0));
        v.push(Act::Slice(o, Op::Bwd, 1));
    }
    v.push(Act::Slice(o, Op::To, 2));
    v.push(Act::Slice(o, Op::From, 0));
    v.push(Act::Slice(o, Op::Grad(1), 1));
    if rich {
        if !z {
            v.push(Act::Slice(o, Op::Fwd, 1));
            v.push(Act::Arr(o, Op::Fwd, Var::Inplace, 0));
            v.push(Act::Arr(o, Op::Bwd, Var::Alloc, 1));
            v.push(Act::Bad(o, Op::Fwd, false));
            v.push(Act::Bad(o, Op::Bwd, true));
        }
        v.push(Act::Slice(o, Op::Grad(2), 0));
        v.push(Act::Slice(o, Op::Grad(0), 0));
        v.push(Act::Bad(o, Op::Grad(1), false));
        v.push(Act::Bad(o, Op::From, true));
        v.push(Act::Slice(o, Op::From, 1));
        v.push(Act::Arr(o, Op::From, Var::Alloc, 0));
        v.push(Act::Arr(o, Op::Grad(1), Var::Inplace, 1));
        v.push(Act::Mat(o, Mat::Diff(1)));
        v.push(Act::Mat(o, Mat::Stencil));
        if !k.fourier() {
            v.push(Act::Mat(o, Mat::LapPinv));
        }
        v.push(Act::Meta(o));
        v.push(Act::Clone(o));
        v.push(Act::Renew(o));
    }
    v
}
pub fn c10(ctx: &mut Ctx) {
    if simrt::tsan::instrumented() {
        return c10_accesses(ctx);
    }
    let th = ctx.thorough();
    ctx.group("histories of bases");
    for k in KINDS {
        for k2 in KINDS {
            let n0 = k.min_n().max(k2.min_n());
            let mut ns = vec![n0.max(6)];
            if th {
                ns.extend([n0 + 1, 16, 33]);
            } else if k == k2 {
                ns.push(17);
            }
            for n in ns {
                ctx.case(|| format!("histories {} and {} n={n}", k.name(), k2.name()), |c| c10_history(c, k, k2, n));
            }
        }
    }
    ctx.group("sizes one after another");
    for k in KINDS {
        for &sc in scalars(k) {
            for a in one_kind(k, sc) {
                ctx.case(|| format!("sizes one after another: {} of {} {}", a.show(&[Spec::B(k, sc, 0)]), k.name(), sc.name()), |c| c10_sizes(c, k, sc, &a));
            }
        }
    }
    for kinds in kind_combos() {
        if kinds.len() < 3 || th || kinds.iter().enumerate().map(|(i, k)| (i + 1) * *k as usize).sum::<usize>() % 4 == 1 {
            ctx.case(|| format!("sizes one after another: spaces {kinds:?}"), |c| c10_space_sizes(c, &kinds));
        }
    }
    ctx.group("histories of spaces");
    for kinds in kind_combos() {
        if kinds.len() == 3 && !th && kinds.iter().enumerate().map(|(i, k)| (i + 1) * *k as usize).sum::<usize>() % 6 != 0 {
            continue;
        }
        ctx.case(|| format!("histories of space {kinds:?}"), |c| c10_space(c, &kinds));
    }
    ctx.group("concurrent calls");
    for k in KINDS {
        for op in c09_ops() {
            ctx.case(|| format!("concurrent {} {}", k.name(), op.name()), |c| c10_concurrent(c, k, op));
            ctx.case(|| format!("concurrent arithmetic {} {}", k.name(), op.name()), |c| c10_arith(c, k, op));
        }
        ctx.case(|| format!("concurrent first calls {}", k.name()), |c| c10_first(c, k));
    }
    ctx.group("concurrent calls on spaces");
    for kinds in kind_combos() {
        if kinds.len() == 2 || (th && kinds.len() == 3) {
            ctx.case(|| format!("concurrent space {kinds:?}"), |c| c10_space_concurrent(c, &kinds));
        }
    }
}
fn c10_history(c: &mut Case, k: Kind, k2: Kind, n: usize) {
    let far = 2 * n + 1;
    let mut specs = vec![Spec::B(k, Sc::F64, n), Spec::B(k2, Sc::F64, n), Spec::B(k, Sc::F64, n + 1), Spec::B(k, Sc::F32, n), Spec::B(k2, Sc::F64, far)];
    let mut acts = base_acts(0, k, Sc::F64, true);
    acts.extend(base_acts(1, k2, Sc::F64, false));
    acts.extend(base_acts(2, k, Sc::F64, false));
    acts.extend([Act::Slice(3, Op::Fwd, 0), Act::Slice(3, Op::Bwd, 1), Act::Slice(3, Op::From, 0)]);
    acts.extend([Act::Slice(4, Op::Fwd, 0), Act::Slice(4, Op::From, 0), Act::Mat(4, Mat::Lap)]);
    if k.r2r() {
        specs.push(Spec::B(k, Sc::Z64, n));
        acts.extend([Act::Slice(5, Op::From, 0), Act::Slice(5, Op::Grad(1), 0)]);
    }
    histories(c, &specs, &acts);
}
/// One action of every sort on object 0.
pub(crate) fn one_kind(k: Kind, sc: Sc) -> Vec<Act> {
    let mut v: Vec<Act> = ops_for(k, sc).into_iter().map(|o| Act::Slice(0, o, 0)).collect();
    v.push(Act::Slice(0, Op::Grad(3), 1));
    for (i, o) in ops_for(k, sc).into_iter().enumerate() {
        v.push(Act::Arr(0, o, [Var::Alloc, Var::Inplace][i % 2], 0));
        v.push(Act::Arr(0, o, [Var::Inplace, Var::Alloc][i % 2], 1));
    }
    v.extend([Mat::Stencil, Mat::StencilInv, Mat::Lap, Mat::LapPinv, Mat::Diff(1), Mat::Diff(2), Mat::Diff(3), Mat::DiffPinv(1), Mat::DiffPinv(2)].map(|m| Act::Mat(0, m)));
    v.push(Act::Meta(0));
    v
}
impl Act {
    /// the same on another object
    fn on(&self, o: usize) -> Act {
        let mut a = self.clone();
        match &mut a {
            Act::Slice(x, ..) | Act::Arr(x, ..) | Act::Lanes(x, ..) | Act::Mat(x, ..) | Act::Meta(x) | Act::Bad(x, ..) | Act::Clone(x) | Act::Renew(x) | Act::Space(x, ..) | Act::SpaceBad(x, _) => *x = o,
        }
        a
    }
}
/// Put `new` at the address at which `old` is, if they are of one type; `old` is dropped.
fn take_place(old: &mut Obj, mut new: Obj) {
    fn swap<T: ?Sized>(a: &mut Box<T>, b: &mut Box<T>) -> bool {
        // (data, vtable)
        let (x, y): ((usize, usize), (usize, usize)) = unsafe { (std::mem::transmute_copy(a), std::mem::transmute_copy(b)) };
        let n = std::mem::size_of_val(&**a);
        if x.1 != y.1 || n != std::mem::size_of_val(&**b) {
            return false;
        }
        unsafe { std::ptr::swap_nonoverlapping(x.0 as *mut u8, y.0 as *mut u8, n) };
        true
    }
    let done = match (&mut *old, &mut new) {
        (Obj::B(a), Obj::B(b)) => swap(a, b),
        (Obj::S(a), Obj::S(b)) => swap(a, b),
        _ => false,
    };
    if !done {
        *old = new;
    }
}
/// Every sequence of `len` of the objects, each used with `acts` in turn; in its own process; objects
/// that live side by side, or one that takes the place of the one before.
fn successions(c: &mut Case, specs: &[Spec], acts: &[Act], len: u32) {
    let all: Vec<Act> = acts.iter().flat_map(|a| (0..specs.len()).map(|o| a.on(o))).collect();
    let Some(want) = fresh(c, specs, &all) else { return };
    let n = specs.len();
    for place in [false, true] {
        for t in 0..n.pow(len) {
            let seq: Vec<usize> = (0..len).map(|i| t / n.pow(i) % n).collect();
            if seq.windows(2).all(|w| w[0] == w[1]) {
                continue;
            }
            let r = in_child(|| {
                let mut objs: Vec<Obj> = if place { vec![specs[seq[0]].make()] } else { specs.iter().map(|s| s.make()).collect() };
                for (p, &o) in seq.iter().enumerate() {
                    if place && p > 0 {
                        take_place(&mut objs[0], specs[o].make());
                    }
                    for (i, a) in acts.iter().enumerate() {
                        let obj = &objs[if place { 0 } else { o }];
                        let a = a.on(o);
                        let r = catch_unwind(AssertUnwindSafe(|| a.run(&specs[o], obj))).unwrap_or_else(|e| Err(format!("panicked: {}", simrt::panic_msg(&*e))));
                        r.and_then(|v| same(&a, specs, &v, &want[i * n + o])).map_err(|m| {
                            let before = seq[..p].iter().map(|o| specs[*o].name()).collect::<Vec<_>>().join(", ");
                            format!("{} after it was used on {before}{}: {m}", a.show(specs), if place { " (one in the place of the other)" } else { "" })
                        })?;
                    }
                }
                Ok(vec![])
            });
            c.state(1);
            c.step((seq.len() * acts.len()) as u64);
            c.trace(1);
            if let Err(m) = r {
                c.fail(m);
                return;
            }
        }
    }
}
fn c10_sizes(c: &mut Case, k: Kind, sc: Sc, a: &Act) {
    let th = c.tier == Tier::Thorough;
    let n = k.min_n().max(5);
    let k2 = match k {
        Kind::Dir => Kind::Neu,
        Kind::BihA => Kind::BihB,
        Kind::BihB => Kind::BihA,
        k if k.r2r() => Kind::Dir,
        Kind::R2c => Kind::C2c,
        _ => Kind::R2c,
    };
    let mut specs = vec![Spec::B(k, sc, n), Spec::B(k, sc, n + 1), Spec::B(k, sc, 2 * n + 3)];
    // another kind of the same size, if the call exists there
    if scalars(k2).contains(&sc) && n >= k2.min_n() {
        specs.push(Spec::B(k2, sc, n));
    }
    if th {
        specs.push(Spec::B(k, sc, 33));
    }
    successions(c, &specs, &[a.clone()], 3);
    bail!(c);
    if th || sc == Sc::F64 {
        let specs = &specs[..2];
        for b in one_kind(k, sc) {
            successions(c, specs, &[a.clone(), b], 2);
            bail!(c);
        }
    }
}
fn c10_space_sizes(c: &mut Case, kinds: &[Kind]) {
    let d = kinds.len();
    let a: Combo = kinds.iter().enumerate().map(|(i, k)| (*k, k.min_n() + i + 2)).collect();
    let mut b = a.clone();
    b[0].1 += 1;
    let mut e = a.clone();
    e[d - 1].1 += 9;
    let specs: Vec<Spec> = [a, b, e].into_iter().map(|s| Spec::S(s, Sc::F64)).collect();
    let ser = |v: &[Var], i: usize| if v.len() == 2 { Var::Alloc } else { [Var::Alloc, Var::Inplace][i % 2] };
    for (i, op) in [SOp::Fwd, SOp::Bwd, SOp::To, SOp::From, SOp::Grad(vec![1; d], None), SOp::Grad(vec![2; d], Some(vec![2.; d]))].into_iter().enumerate() {
        let v = sop_variants(&op);
        let v = if v[0] == Var::Alloc { ser(v, i) } else { Var::Inplace };
        successions(c, &specs, &[Act::Space(0, op, v)], if d < 3 { 3 } else { 2 });
        bail!(c);
    }
    successions(c, &specs, &[Act::Meta(0)], 2);
}
fn c10_space(c: &mut Case, kinds: &[Kind]) {
    let d = kinds.len();
    let a: Combo = kinds.iter().enumerate().map(|(i, k)| (*k, k.min_n() + i + 2)).collect();
    // the same bases with the sizes of the first axis changed
    let mut b = a.clone();
    b[0].1 += 1;
    let k0 = kinds[0];
    let specs = vec![Spec::S(a.clone(), Sc::F64), Spec::S(b, Sc::F64), Spec::B(k0, Sc::F64, a[0].1)];
    let ones = vec![1; d];
    let mut acts = vec![];
    for o in 0..2 {
        for (i, op) in [SOp::Fwd, SOp::Bwd, SOp::To, SOp::From, SOp::Grad(ones.clone(), None), SOp::Grad(vec![2; d], Some(vec![2.; d]))].into_iter().enumerate() {
            let v = sop_variants(&op);
            let v = v[(i + o) % v.len()];
            // parallel variants would start a thread pool in every process
            let v = match v {
                Var::Par => Var::Alloc,
                Var::InplacePar => Var::Inplace,
                v => v,
            };
            let v = if matches!(op, SOp::To) && cfg!(feature = "no_space_to_ortho") { Var::Inplace } else { v };
            acts.push(Act::Space(o, op, v));
        }
    }
    acts.push(Act::SpaceBad(0, SOp::Fwd));
    acts.push(Act::SpaceBad(0, SOp::Bwd));
    acts.push(Act::Meta(0));
    acts.push(Act::Clone(0));
    acts.push(Act::Renew(0));
    acts.push(Act::Slice(2, Op::Fwd, 0));
    acts.push(Act::Slice(2, Op::Bwd, 0));
    histories(c, &specs, &acts);
}
/// How the schedules of concurrent calls are enumerated.
#[derive(Clone, Copy, Debug)]
enum How {
    /// one execution after another
    Plain,
    /// every execution in its own process
    Forked,
    /// conflicting accesses (found on so many executions) are scheduling points
    Acc(u64),
    AccForked(u64),
}
/// Tasks calling operations on shared objects; `acts[i]` is the sequence task i performs.
fn concurrent(c: &mut Case, cfg: &Cfg, specs: &[Spec], tasks: &[Vec<Act>], want: &[Vec<Vec<C64>>], share_fresh: bool, how: How) {
    let shared: Vec<Obj> = if share_fresh { vec![] } else { specs.iter().map(|s| s.make()).collect() };
    let body = || {
        let mine: Vec<Obj> = if share_fresh { simrt::uncontrolled(|| specs.iter().map(|s| s.make()).collect()) } else { vec![] };
        let objs = if share_fresh { &mine } else { &shared };
        let fs: Vec<Box<dyn FnOnce() + Send + '_>> = tasks
            .iter()
            .zip(want)
            .map(|(t, w)| {
                let f: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                    for (a, w) in t.iter().zip(w) {
                        let i = a.obj();
                        let r = a.run(&specs[i], &objs[i]).and_then(|v| simrt::uncontrolled(|| same(a, specs, &v, w)));
                        if let Err(m) = r {
                            panic!("{}: {m}", a.show(specs));
                        }
                    }
                });
                f
            })
            .collect();
        simrt::parallel(fs);
        simrt::uncontrolled(|| drop(mine));
    };
    let (st, f) = match how {
        How::Plain => simrt::explore(cfg, &body),
        How::Forked => explore_forked(cfg, &body),
        How::Acc(r) => simrt::explore_accesses(cfg, r, &body),
        How::AccForked(r) => explore_accesses_forked(cfg, r, &body),
    };
    c.sched(&st);
    if matches!(how, How::Forked | How::AccForked(_)) {
        c.add("executions_in_fresh_processes", st.execs);
    }
    c.max("most_schedules_of_one_body", st.execs as f64);
    if let Some((m, s)) = f {
        let t: Vec<String> = tasks.iter().map(|t| t.iter().map(|a| a.show(specs)).collect::<Vec<_>>().join("; ")).collect();
        c.fail(format!("concurrently [{}]: {m} under schedule {s:?} of {cfg:?}", t.join(" | ")));
    }
}
fn c10_concurrent(c: &mut Case, k: Kind, op: Op) {
    let th = c.tier == Tier::Thorough;
    let n = k.min_n();
    let k2 = if k == Kind::Dir { Kind::Neu } else if k.r2r() { Kind::Dir } else if k == Kind::R2c { Kind::C2c } else { Kind::R2c };
    let specs = vec![Spec::B(k, Sc::F64, n.max(6)), Spec::B(k2, Sc::F64, n.max(6)), Spec::B(k, Sc::F64, n.max(6) + 1), Spec::B(k, Sc::F32, n.max(6))];
    let first = vec![Act::Slice(0, op, 0)];
    let mut seconds: Vec<Vec<Act>> = c09_ops().into_iter().map(|o| vec![Act::Slice(0, o, 1)]).collect();
    seconds.extend([Op::Fwd, Op::From, Op::Grad(1)].map(|o| vec![Act::Slice(1, o, 1)]));
    seconds.extend([Op::Fwd, Op::Bwd, Op::From].map(|o| vec![Act::Slice(2, o, 1)]));
    seconds.push(vec![Act::Slice(3, op, 1)]);
    seconds.push(vec![Act::Arr(0, op, Var::Inplace, 0)]);
    seconds.push(vec![Act::Mat(0, Mat::Lap)]);
    seconds.push(vec![Act::Bad(0, Op::Fwd, false), Act::Slice(0, op, 2)]);
    for s in seconds {
        let tasks = vec![first.clone(), s];
        let mut want = vec![];
        for t in &tasks {
            let Some(w) = fresh(c, &specs, t) else { return };
            want.push(w);
        }
        let cfg = Cfg { bound: 2 + th as usize, alloc_points: true, max_execs: 300_000, ..Cfg::default() };
        // the exploration runs in its own process so that later cases start afresh
        concurrent_isolated(c, &cfg, &specs, &tasks, &want, true, How::Plain);
        bail!(c);
    }
    // three callers
    let tasks = vec![first.clone(), vec![Act::Slice(0, op, 1)], vec![Act::Slice(0, if op == Op::Fwd { Op::From } else { Op::Fwd }, 2)]];
    let mut want = vec![];
    for t in &tasks {
        let Some(w) = fresh(c, &specs, t) else { return };
        want.push(w);
    }
    let cfg = Cfg { bound: 1 + th as usize, alloc_points: true, max_execs: 300_000, ..Cfg::default() };
    concurrent_isolated(c, &cfg, &specs, &tasks, &want, false, How::Plain);
}
/// `concurrent` in a child process.
fn concurrent_isolated(c: &mut Case, cfg: &Cfg, specs: &[Spec], tasks: &[Vec<Act>], want: &[Vec<Vec<C64>>], share_fresh: bool, how: How) {
    let r = in_child(|| {
        let mut k = Counts::default();
        let mut errs = vec![];
        {
            let mut cc = Case::detached(&mut k, Tier::Quick);
            concurrent(&mut cc, cfg, specs, tasks, want, share_fresh, how);
            errs.extend(cc.errors());
        }
        if let Some(e) = errs.pop() {
            return Err(e);
        }
        Ok(k.pack())
    });
    match r {
        Ok(v) => c.k.unpack_add(&v),
        Err(m) => c.fail(m),
    }
}
fn c10_arith(c: &mut Case, k: Kind, op: Op) {
    let th = c.tier == Tier::Thorough;
    let n = k.min_n().max(3);
    let specs = vec![Spec::Sf(k, n), Spec::Sf(k, n + 1)];
    for o2 in c09_ops() {
        for target in 0..2 {
            if target == 1 && o2 != op && !th {
                continue;
            }
            let tasks = vec![vec![Act::Slice(0, op, 0)], vec![Act::Slice(target, o2, 1)]];
            let mut want = vec![];
            for t in &tasks {
                let Some(w) = fresh(c, &specs, t) else { return };
                want.push(w);
            }
            let cfg = Cfg { bound: 1, alloc_points: true, max_execs: 2_000_000, ..Cfg::default() };
            concurrent_isolated(c, &cfg, &specs, &tasks, &want, target == 0, How::Plain);
            bail!(c);
        }
    }
}
/// The very first calls of a process, concurrently: lazily initialised state must not race.
fn c10_first(c: &mut Case, k: Kind) {
    let n = k.min_n().max(6);
    let specs = vec![Spec::B(k, Sc::F64, n), Spec::B(k, Sc::F64, n + 1)];
    for (a, b) in [(Op::Fwd, Op::Fwd), (Op::Bwd, Op::Bwd), (Op::From, Op::From), (Op::To, Op::Grad(1)), (Op::Grad(2), Op::Grad(2)), (Op::Fwd, Op::Bwd)] {
        for t in 0..2 {
            let tasks = vec![vec![Act::Slice(0, a, 0)], vec![Act::Slice(t, b, 1)]];
            let mut want = vec![];
            for t in &tasks {
                let Some(w) = fresh(c, &specs, t) else { return };
                want.push(w);
            }
            let cfg = Cfg { bound: 1, alloc_points: true, max_execs: 20_000, ..Cfg::default() };
            concurrent(c, &cfg, &specs, &tasks, &want, true, How::Forked);
            bail!(c);
        }
    }
}
fn c10_space_concurrent(c: &mut Case, kinds: &[Kind]) {
    let d = kinds.len();
    let a: Combo = kinds.iter().enumerate().map(|(i, k)| (*k, k.min_n() + if k.fourier() { i + 1 } else { i })).collect();
    let specs = vec![Spec::S(a, Sc::F64)];
    let ops = [SOp::Fwd, SOp::Bwd, SOp::From, SOp::Grad(vec![1; d], None)];
    for (i, x) in ops.iter().enumerate() {
        for (j, y) in ops.iter().enumerate() {
            if j < i {
                continue;
            }
            let tasks = vec![vec![Act::Space(0, x.clone(), Var::Alloc)], vec![Act::Space(0, y.clone(), if matches!(y, SOp::Grad(..)) { Var::Alloc } else { Var::Inplace })]];
            let mut want = vec![];
            for t in &tasks {
                let Some(w) = fresh(c, &specs, t) else { return };
                want.push(w);
            }
            let cfg = Cfg { bound: 1, alloc_points: true, max_execs: 300_000, stride: if c.tier == Tier::Quick { 5 } else { 1 }, phase: 0, ..Cfg::default() };
            concurrent_isolated(c, &cfg, &specs, &tasks, &want, true, How::Plain);
            bail!(c);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C09, C10 in the binary whose memory accesses are observed
// ---------------------------------------------------------------------------------------------
fn explore_acc(c: &mut Case, cfg: &Cfg, record: u64, what: &str, body: &(dyn Fn() -> Result<(), String> + Sync)) {
    let (st, f) = simrt::explore_accesses(cfg, record, &|| {
        if let Err(e) = body() {
            panic!("{e}")
        }
    });
    c.sched(&st);
    c.max("most_schedules_of_one_body", st.execs as f64);
    if let Some((m, s)) = f {
        c.fail(format!("{what}: {m} under schedule {s:?} of {cfg:?} ({} conflicting sites)", st.racy_sites));
    }
}
fn c09_accesses(ctx: &mut Ctx) {
    let th = ctx.thorough();
    ctx.group("accesses of bases");
    for k in KINDS {
        for sc in [Sc::F64, Sc::F32, Sc::Z64] {
            if !scalars(k).contains(&sc) {
                continue;
            }
            for op in ops_for(k, sc) {
                ctx.case(|| format!("accesses {} {} {}", k.name(), sc.name(), op.name()), |c| c09_acc_small(c, k, sc, op));
            }
            for n in [k.min_n(), k.min_n() + 1, 8, 9, 16, 33, 64] {
                if n >= k.min_n() && (sc == Sc::F64 || th || n == 9 || n == k.min_n()) {
                    ctx.case(|| format!("accesses {} {} n={n}", k.name(), sc.name()), |c| c09_acc_large(c, k, sc, n));
                }
            }
        }
    }
    ctx.group("accesses of spaces");
    for kinds in kind_combos() {
        ctx.case(|| format!("accesses of space {kinds:?}"), |c| c09_acc_space(c, &kinds));
    }
}
fn c09_acc_small(c: &mut Case, k: Kind, sc: Sc, op: Op) {
    let th = c.tier == Tier::Thorough;
    for n in [k.min_n(), k.min_n() + 3] {
        let b = base(k, sc, n);
        for (others, bound) in [(vec![2usize], 2), (vec![3], 1), (vec![2, 2], 1)] {
            for ax in 0..=others.len() {
                for j in jobs(&*b, k, sc, n, &others, ax, &[op], &PAR, ax == 1) {
                    let cfg = Cfg { bound: bound + th as usize, alloc_points: true, workers: 2, max_steals: 2, num_threads: 2 + (others.len() + ax) % 2, max_execs: 100_000, ..Cfg::default() };
                    explore_acc(c, &cfg, if th { 3000 } else { 300 }, &j.name, &|| j.run(&*b));
                    bail!(c);
                    // the first call on an object
                    if others.len() == 1 {
                        explore_acc(c, &cfg, if th { 3000 } else { 50 }, &format!("first call: {}", j.name), &|| {
                            let b = simrt::uncontrolled(|| base(k, sc, n));
                            j.run(&*b)
                        });
                        bail!(c);
                    }
                }
            }
        }
    }
}
/// Larger arrays: two busy workers; accesses on a few schedules, more only if there are conflicts.
fn c09_acc_large(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let th = c.tier == Tier::Thorough;
    let b = base(k, sc, n);
    let ops = ops_for(k, sc);
    let mut shapes: Vec<Vec<usize>> = vec![vec![], vec![1], vec![4], vec![5], vec![8], vec![17], vec![33], vec![65], vec![3, 4], vec![1, 6], vec![2, 3, 2]];
    if n < 10 {
        shapes.extend([vec![130], vec![300], vec![1100], vec![20, 30]]);
    }
    for (si, others) in shapes.into_iter().enumerate() {
        for ax in 0..=others.len() {
            for (ji, j) in jobs(&*b, k, sc, n, &others, ax, &ops, &PAR, (si + ax) % 2 == 1).iter().enumerate() {
                let lanes: usize = others.iter().product();
                if !th && lanes > 12 && (ji + ax + si) % if lanes > 100 { 7 } else { 3 } != 0 {
                    continue;
                }
                let cfg = Cfg { bound: 1, alloc_points: true, workers: 2, max_steals: 1, num_threads: [2, 3, 4, 8][(si + ji) % 4], max_execs: 1500, ..Cfg::default() };
                explore_acc(c, &cfg, if th { 60 } else if lanes > 100 { 2 } else { 6 }, &j.name, &|| j.run(&*b));
                bail!(c);
            }
        }
    }
}
fn c09_acc_space(c: &mut Case, kinds: &[Kind]) {
    let th = c.tier == Tier::Thorough;
    for big in [0usize, 7] {
        let sp: Combo = kinds.iter().enumerate().map(|(i, k)| (*k, k.min_n() + if *k == Kind::R2c || *k == Kind::C2c { i + 2 } else { i } + big)).collect();
        let s = space(&sp, Sc::F64).expect("admissible");
        for j in space_jobs(&*s, &sp, if kinds.len() == 3 && !th { 2 } else { 1 }).iter() {
            let cfg = Cfg { bound: 1, alloc_points: true, workers: 2, max_steals: 1, num_threads: 2, max_execs: if th { 20_000 } else { 2000 }, ..Cfg::default() };
            explore_acc(c, &cfg, if th { 100 } else { 5 }, &j.name, &|| j.run(&*s));
            bail!(c);
            if big == 0 && kinds.len() < 3 {
                explore_acc(c, &cfg, if th { 100 } else { 10 }, &format!("first call: {}", j.name), &|| {
                    let s = simrt::uncontrolled(|| space(&sp, Sc::F64).expect("admissible"));
                    j.run(&*s)
                });
                bail!(c);
            }
        }
    }
}
fn c10_accesses(ctx: &mut Ctx) {
    let th = ctx.thorough();
    ctx.group("accesses of concurrent calls");
    for k in KINDS {
        for sc in [Sc::F64, Sc::F32, Sc::Z64] {
            if !scalars(k).contains(&sc) {
                continue;
            }
            for op in ops_for(k, sc) {
                ctx.case(|| format!("concurrent accesses {} {} {}", k.name(), sc.name(), op.name()), |c| c10_acc_pairs(c, k, sc, op));
            }
        }
        ctx.case(|| format!("concurrent accesses, first calls {}", k.name()), |c| c10_acc_first(c, k));
    }
    ctx.group("accesses of concurrent calls on spaces");
    for kinds in kind_combos() {
        if kinds.len() == 2 || th || kinds.iter().enumerate().map(|(i, k)| (i + 1) * *k as usize).sum::<usize>() % 4 == 0 {
            ctx.case(|| format!("concurrent accesses of space {kinds:?}"), |c| c10_acc_space(c, &kinds));
        }
    }
}
fn wants(c: &mut Case, specs: &[Spec], tasks: &[Vec<Act>]) -> Option<Vec<Vec<Vec<C64>>>> {
    tasks.iter().map(|t| fresh(c, specs, t)).collect()
}
fn c10_acc_pairs(c: &mut Case, k: Kind, sc: Sc, op: Op) {
    let th = c.tier == Tier::Thorough;
    let n = k.min_n().max(6);
    let k2 = if k == Kind::Dir { Kind::Neu } else if k.r2r() { Kind::Dir } else if k == Kind::R2c { Kind::C2c } else { Kind::R2c };
    let osc = if sc == Sc::F32 { Sc::F64 } else { Sc::F32 };
    let specs = vec![Spec::B(k, sc, n), Spec::B(k2, Sc::F64, n), Spec::B(k, sc, n + 1), Spec::B(k, osc, n), Spec::B(k, sc, 2 * n + 1)];
    let mut seconds: Vec<Vec<Act>> = ops_for(k, sc).into_iter().map(|o| vec![Act::Slice(0, o, 1)]).collect();
    seconds.extend(ops_for(k2, Sc::F64).into_iter().filter(|o| matches!(o, Op::From) || *o == op).map(|o| vec![Act::Slice(1, o, 1)]));
    seconds.extend(ops_for(k, sc).into_iter().map(|o| vec![Act::Slice(2, o, 1)]));
    if ops_for(k, osc).contains(&op) {
        seconds.push(vec![Act::Slice(3, op, 1)]);
    }
    seconds.push(vec![Act::Arr(0, op, Var::Inplace, 0)]);
    seconds.push(vec![Act::Arr(0, op, Var::InplacePar, 1)]);
    seconds.push(vec![Act::Mat(0, Mat::Lap)]);
    seconds.push(vec![Act::Mat(0, Mat::Diff(1))]);
    seconds.push(vec![Act::Meta(0)]);
    // alternation of two sizes, so that anything kept from the last call is replaced in between
    seconds.push(vec![Act::Slice(4, op, 1), Act::Slice(0, op, 1)]);
    for (i, s) in seconds.into_iter().enumerate() {
        let tasks = vec![if i % 2 == 0 { vec![Act::Slice(0, op, 0)] } else { vec![Act::Slice(0, op, 0), Act::Slice(0, op, 2)] }, s];
        let Some(want) = wants(c, &specs, &tasks) else { return };
        let cfg = Cfg { bound: 2 + th as usize, alloc_points: true, max_execs: 60_000, ..Cfg::default() };
        concurrent_isolated(c, &cfg, &specs, &tasks, &want, i % 3 == 0, How::Acc(if th { 2000 } else { 100 }));
        bail!(c);
    }
    let tasks = vec![vec![Act::Slice(0, op, 0)], vec![Act::Slice(0, op, 1)], vec![Act::Slice(2, op, 2)]];
    let Some(want) = wants(c, &specs, &tasks) else { return };
    let cfg = Cfg { bound: 1 + th as usize, alloc_points: true, max_execs: 60_000, ..Cfg::default() };
    concurrent_isolated(c, &cfg, &specs, &tasks, &want, false, How::Acc(100));
}
fn c10_acc_first(c: &mut Case, k: Kind) {
    let th = c.tier == Tier::Thorough;
    let n = k.min_n().max(6);
    let specs = vec![Spec::B(k, Sc::F64, n), Spec::B(k, Sc::F64, n + 1)];
    for (a, b) in [(Op::Fwd, Op::Fwd), (Op::Bwd, Op::Bwd), (Op::From, Op::From), (Op::To, Op::To), (Op::Grad(1), Op::Grad(1)), (Op::Grad(2), Op::Grad(2)), (Op::Fwd, Op::From)] {
        for t in 0..2 {
            let tasks = vec![vec![Act::Slice(0, a, 0)], vec![Act::Slice(t, b, 1)]];
            let Some(want) = wants(c, &specs, &tasks) else { return };
            let cfg = Cfg { bound: 2, alloc_points: true, max_execs: if th { 20_000 } else { 3000 }, ..Cfg::default() };
            concurrent(c, &cfg, &specs, &tasks, &want, true, How::AccForked(12));
            bail!(c);
        }
    }
}
fn c10_acc_space(c: &mut Case, kinds: &[Kind]) {
    let d = kinds.len();
    let a: Combo = kinds.iter().enumerate().map(|(i, k)| (*k, k.min_n() + if k.fourier() { i + 1 } else { i })).collect();
    let mut b = a.clone();
    b[d - 1].1 += 1;
    let specs = vec![Spec::S(a, Sc::F64), Spec::S(b, Sc::F64)];
    let ops = [SOp::Fwd, SOp::Bwd, SOp::To, SOp::From, SOp::Grad(vec![1; d], None), SOp::Grad(vec![2; d], Some(vec![2.; d]))];
    for (i, x) in ops.iter().enumerate() {
        for (j, y) in ops.iter().enumerate() {
            if j < i {
                continue;
            }
            let v = |op: &SOp| if matches!(op, SOp::To) && cfg!(feature = "no_space_to_ortho") { Var::Inplace } else { Var::Alloc };
            let vy = sop_variants(y)[(i + j) % sop_variants(y).len()];
            let vy = if matches!(y, SOp::To) && cfg!(feature = "no_space_to_ortho") { Var::Inplace } else { vy };
            let tasks = vec![vec![Act::Space(0, x.clone(), v(x))], vec![Act::Space((i + j) % 2, y.clone(), vy)]];
            let Some(want) = wants(c, &specs, &tasks) else { return };
            let cfg = Cfg { bound: 1, alloc_points: true, max_execs: 20_000, ..Cfg::default() };
            concurrent_isolated(c, &cfg, &specs, &tasks, &want, true, How::Acc(if c.tier == Tier::Thorough { 500 } else { 20 }));
            bail!(c);
        }
    }
}
