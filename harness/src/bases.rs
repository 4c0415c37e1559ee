//! C01-C06, C17, C18: one-dimensional operations against the dense reference.
use crate::erased::*;
use crate::fw::*;
use crate::model::*;
use crate::num::*;
use ndarray::Array2;

pub const I: C64 = C64::new(0., 1.);
pub const ONE: C64 = C64::new(1., 0.);
pub const ZERO: C64 = C64::new(0., 0.);

/// Sizes on which every unit vector is tried, and sizes on which a selection is.
pub fn sizes(min: usize, full: usize, extra: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (min..=full).collect();
    v.extend(extra.iter().copied().filter(|&n| n > full));
    v
}
/// marks a size that is only tried with a few inputs
pub const LIGHT: usize = 0;
/// `sizes`, and every other size up to `light` with few inputs; second component as in `positions`
pub fn sizes_light(min: usize, full: usize, light: usize, extra: &[usize]) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = sizes(min, full, extra).into_iter().map(|n| (n, full)).collect();
    v.extend((full.max(min) + usize::from(full >= min)..=light).filter(|n| !extra.contains(n)).map(|n| (n, LIGHT)));
    v
}
pub const EXTRA_QUICK: [usize; 24] = [128, 129, 135, 143, 144, 160, 192, 200, 211, 243, 255, 256, 257, 258, 259, 300, 360, 400, 511, 512, 513, 1000, 1024, 1025];
pub const EXTRA_THOROUGH: [usize; 48] = [
    128, 129, 135, 143, 144, 160, 192, 200, 211, 243, 255, 256, 257, 258, 259, 300, 360, 383, 384, 385, 400, 450, 480, 500, 509, 511, 512, 513, 514, 600, 625, 720, 729, 768, 800, 960, 1000, 1021, 1023, 1024, 1025, 1200, 1536, 2047, 2048, 2049,
    4096, 4097,
];
pub fn extra(t: Tier) -> &'static [usize] {
    if t == Tier::Quick {
        &EXTRA_QUICK
    } else {
        &EXTRA_THOROUGH
    }
}

/// Positions of unit vectors to try for length `len`: all up to `all`, a fixed selection above.
pub fn positions(len: usize, all: usize) -> Vec<usize> {
    if len <= all {
        return (0..len).collect();
    }
    if all == LIGHT {
        let mut v = vec![0, 1, len / 2, len - 2, len - 1];
        v.dedup();
        return v;
    }
    let mut v: Vec<usize> = vec![0, 1, 2, 3, len / 4, len / 3, len / 2 - 1, len / 2, len / 2 + 1, 2 * len / 3, len - 4, len - 3, len - 2, len - 1];
    let mut p = 4;
    while p < len {
        v.extend([p - 1, p, p + 1].iter().filter(|&&x| x < len));
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

/// The inputs of length `len` an operation is tried on: a basis of the input space (times i for
/// complex entries), dense vectors, scaled vectors, and for short inputs all vectors over an alphabet.
pub fn inputs(len: usize, cplx: bool, all: usize, sc: Sc, tier: Tier) -> Vec<Vec<C64>> {
    let mut v = vec![];
    for p in positions(len, all) {
        v.push(unit(len, p, ONE));
        if cplx {
            v.push(unit(len, p, I));
        }
    }
    for w in 0..if all == LIGHT { 2 } else { 5 } {
        v.push(dense(len, w, cplx));
    }
    v.push(vec![ZERO; len]);
    let scales: &[f64] = if sc.f64ish() { &[1e-280, 1e-120, 1e-17, 1e-9, 1e9, 1e120, 1e270] } else { &[1e-28, 1e-12, 1e12, 1e26] };
    for s in scales {
        if all == LIGHT && *s > 1e-10 {
            continue;
        }
        v.push(scaled(&dense(len, 3, cplx), *s));
        if len > 1 {
            v.push(unit(len, len - 2, C64::new(*s, if cplx { -*s } else { 0. })));
        }
    }
    if len <= if tier == Tier::Quick { 5 } else { 7 } {
        v.extend(alphabet(len, &letters(cplx)));
    }
    for x in v.iter_mut() {
        for c in x.iter_mut() {
            *c = q(sc, *c);
        }
    }
    v
}

/// Call a slice operation with a garbage-filled output.
pub fn call(b: &dyn Bs, op: Op, x: &[C64], outlen: usize) -> Vec<C64> {
    let mut out = garbage(outlen);
    b.slice(op, x, &mut out);
    out
}

/// Compare and record; `tol` in units of the scalar's roundoff.
#[allow(clippy::too_many_arguments)]
pub fn agree(c: &mut Case, what: &str, op: &str, x: &[C64], got: &[C64], want: &[C64], scale: impl Fn(usize) -> f64, eps: f64, tol: f64) -> bool {
    let (d, i) = dist(got, want, |i| eps * scale(i));
    c.max(&format!("worst_{what}_in_eps"), if d.is_finite() { d } else { 0. });
    if d > tol {
        c.fail(format!(
            "{what}: {op} of {} gives {} at index {i}, expected {} (off by {d:.3e} eps, allowed {tol:.1e})",
            show(x),
            got.get(i).map(|z| z.to_string()).unwrap_or(format!("length {}", got.len())),
            want.get(i).map(|z| z.to_string()).unwrap_or(format!("length {}", want.len())),
        ));
        return false;
    }
    true
}

/// stop a case early once it has failed a few times
macro_rules! bail {
    ($c:expr) => {
        if $c.failed() {
            return;
        }
    };
}
pub(crate) use bail;

// ---------------------------------------------------------------------------------------------
// C01
// ---------------------------------------------------------------------------------------------
pub fn c01(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let full = if th { 600 } else { 260 };
    for k in [Kind::Cheb, Kind::R2c, Kind::C2c] {
        for sc in [Sc::F64, Sc::F32] {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            for (n, all) in sizes_light(k.min_n(), full, if th { 2100 } else { 1100 }, &EXTRA_THOROUGH) {
                ctx.case(|| format!("transform {} {} n={n}", k.name(), sc.name()), |c| c01_case(c, k, sc, n, all));
            }
        }
    }
}
fn c01_case(c: &mut Case, k: Kind, sc: Sc, n: usize, full: usize) {
    let b = base(k, sc, n);
    let t = Tab::new(k, n);
    let (cs, cp) = b.cplx();
    let (eps, m) = (sc.eps(), k.spec(n));
    let tol = 40. + 8. * (n as f64).log2();
    for x in inputs(n, cp, full, sc, c.tier) {
        let got = call(&*b, Op::Fwd, &x, m);
        c.state(1);
        c.step(1);
        let want = t.forward(&x);
        let s = norm1(&x) / if k.fourier() { 1. } else { (n - 1) as f64 };
        agree(c, "forward", "forward", &x, &got, &want, |_| s, eps, tol);
        bail!(c);
    }
    c.trace(1);
    for x in inputs(m, cs, full, sc, c.tier) {
        let got = call(&*b, Op::Bwd, &x, n);
        c.state(1);
        c.step(1);
        let want = t.backward(&x);
        let s = norm1(&x) / if k.fourier() { n as f64 / 2. } else { 1. };
        agree(c, "backward", "backward", &x, &got, &want, |_| s, eps, tol);
        bail!(c);
    }
    c.trace(1);
    // one-dimensional arrays
    for w in 1..3 {
        for (op, il, ol, cx) in [(Op::Fwd, n, m, cp), (Op::Bwd, m, n, cs)] {
            let x = dense(il, w, cx);
            let want = call(&*b, op, &x, ol);
            let xa = arrd(&[il], x.clone());
            let ga = arrd(&[ol], garbage(ol));
            for v in VARS {
                let (y, _) = b.arr(op, v, &xa, Lay::C, if v.inplace() { Some((&ga, Lay::C)) } else { None }, 0, false);
                c.step(1);
                let s = norm_max(&want);
                agree(c, "array_form", &op.name(), &x, &flat(&y), &want, |_| s, eps, tol);
            }
        }
    }
    // the grid the expansion refers to
    let g = b.coords();
    let want: Vec<C64> = (0..n).map(|j| C64::new(t.grid(j), 0.)).collect();
    let got: Vec<C64> = g.iter().map(|x| C64::new(*x, 0.)).collect();
    agree(c, "grid", "coords", &[], &got, &want, |_| 1., eps, 64.);
    c.trace(1);
}

// ---------------------------------------------------------------------------------------------
// C02
// ---------------------------------------------------------------------------------------------
/// growth of the condition number of the stencil's normal equations
fn cond(k: Kind, n: usize) -> f64 {
    let n = n as f64;
    match k {
        Kind::Dir | Kind::DirNeu => n * n,
        Kind::Neu => n * n,
        Kind::BihA | Kind::BihB => n.powi(4),
        _ => 1.,
    }
}
pub fn c02(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let full = if th { 256 } else { 130 };
    for k in KINDS {
        for sc in [Sc::F64, Sc::F32] {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            let ex: &[usize] = &[96, 100, 127, 128, 129, 160, 200, 255, 256, 257, 384, 511, 512, 513, 1000, 1024, 1025, 2048];
            for (n, all) in sizes_light(k.min_n(), full, if th { 1025 } else { 520 }, ex) {
                if k.composite() && !sc.f64ish() && cond(k, n) * sc.eps() > 0.02 {
                    continue;
                }
                ctx.case(|| format!("round trip {} {} n={n}", k.name(), sc.name()), |c| c02_case(c, k, sc, n, all));
            }
        }
    }
    ctx.group("spaces");
    for (sp, sc) in space_combos(ctx.tier, true) {
        ctx.case(|| format!("round trip of space {} {}", combo_name(&sp), sc.name()), |c| c02_space(c, &sp, sc));
    }
}
fn c02_case(c: &mut Case, k: Kind, sc: Sc, n: usize, full: usize) {
    let b = base(k, sc, n);
    let (cs, cp) = b.cplx();
    let (eps, m) = (sc.eps(), k.spec(n));
    let tol = (60. + 10. * (n as f64).log2()) * (1. + cond(k, n) / 8.);
    for mut x in inputs(m, cs, full, sc, c.tier) {
        if k == Kind::R2c {
            x[0].im = 0.;
            if n % 2 == 0 {
                x[n / 2].im = 0.;
            }
        }
        let u = call(&*b, Op::Bwd, &x, n);
        let y = call(&*b, Op::Fwd, &u, m);
        c.state(1);
        c.step(2);
        let s = norm1(&x);
        agree(c, &format!("backward_then_forward_{}", k.name()), "forward(backward)", &x, &y, &x, |_| s, eps, tol);
        c.trace(1);
        bail!(c);
    }
    for x in inputs(n, cp, full, sc, c.tier) {
        let v = call(&*b, Op::Fwd, &x, m);
        let u = call(&*b, Op::Bwd, &v, n);
        c.state(1);
        c.step(2);
        let s = norm1(&x);
        if !k.composite() {
            agree(c, "forward_then_backward", "backward(forward)", &x, &u, &x, |_| s, eps, tol);
        } else {
            let v2 = call(&*b, Op::Fwd, &u, m);
            let u2 = call(&*b, Op::Bwd, &v2, n);
            c.step(2);
            let s = s.max(norm1(&v));
            agree(c, &format!("projection_{}", k.name()), "P(P)", &x, &u2, &u, |_| s, eps, tol);
        }
        c.trace(1);
        bail!(c);
    }
}

pub type Combo = Vec<(Kind, usize)>;
pub fn combo_name(c: &Combo) -> String {
    c.iter().map(|(k, n)| format!("{}({n})", k.name())).collect::<Vec<_>>().join(" x ")
}
/// All admissible combinations of bases, with pairwise distinct sizes.
pub fn space_combos(t: Tier, composite_ok: bool) -> Vec<(Combo, Sc)> {
    let _ = composite_ok;
    let mut out = vec![];
    let size = |k: Kind, axis: usize, shift: usize| -> usize {
        let base = match k {
            Kind::BihA | Kind::BihB => 10,
            Kind::Cheb => 4,
            Kind::R2c | Kind::C2c => 3,
            _ => 6,
        };
        base + [0, 1, 3][axis] + shift
    };
    let shifts: &[usize] = if t == Tier::Quick { &[0, 1] } else { &[0, 1, 2, 3, 5] };
    for k0 in KINDS {
        for &s in shifts {
            for sc in [Sc::F64, Sc::F32] {
                out.push((vec![(k0, size(k0, 0, s))], sc));
            }
        }
        for k1 in KINDS {
            let ok = matches!((k0, k1), (Kind::R2c, x) if x.r2r()) || (k0.r2r() && k1.r2r()) || (k0 == Kind::C2c && k1.fourier());
            if !ok {
                continue;
            }
            for &s in shifts {
                for sc in [Sc::F64, Sc::F32] {
                    if s > 0 && sc == Sc::F32 {
                        continue;
                    }
                    out.push((vec![(k0, size(k0, 0, s)), (k1, size(k1, 1, 0))], sc));
                    if s == 0 {
                        out.push((vec![(k0, size(k0, 1, s)), (k1, size(k1, 0, 0))], sc));
                        if sc == Sc::F64 {
                            // one long axis
                            for (a, b) in [(33, size(k1, 0, 0)), (size(k0, 0, 0), 34), (50, size(k1, 0, 1)), (size(k0, 0, 1), 65)] {
                                out.push((vec![(k0, a), (k1, b)], sc));
                            }
                        }
                    }
                }
            }
            for k2 in KINDS {
                let ok = match (k0, k1, k2) {
                    (Kind::C2c, Kind::C2c, x) => x.fourier(),
                    (Kind::C2c, Kind::R2c, x) => x.r2r(),
                    (Kind::R2c, x, y) => x.r2r() && y.r2r(),
                    (x, y, z) => x.r2r() && y.r2r() && z.r2r(),
                };
                if !ok {
                    continue;
                }
                out.push((vec![(k0, size(k0, 0, 0)), (k1, size(k1, 1, 0)), (k2, size(k2, 2, 0))], Sc::F64));
                let long = (k0 as usize + 2 * k1 as usize + 5 * k2 as usize) % 3;
                let at = |axis: usize, k: Kind| if axis == long { 19 } else { size(k, axis, 0) };
                out.push((vec![(k0, at(0, k0)), (k1, at(1, k1)), (k2, at(2, k2))], Sc::F64));
                if t == Tier::Thorough || (k0 as usize + k1 as usize + k2 as usize) % 5 == 0 {
                    out.push((vec![(k0, size(k0, 2, 0)), (k1, size(k1, 0, 0)), (k2, size(k2, 1, 0))], Sc::F32));
                }
            }
        }
    }
    out
}

fn c02_space(c: &mut Case, sp: &Combo, sc: Sc) {
    let s = space(sp, sc).expect("admissible");
    let (p, m, _) = (sp.iter().map(|x| x.1).collect::<Vec<_>>(), sp.iter().map(|x| x.0.spec(x.1)).collect::<Vec<_>>(), 0);
    let (cs, cp) = s.cplx();
    let lm: usize = m.iter().product();
    let lp: usize = p.iter().product();
    let kappa: f64 = sp.iter().map(|x| 1. + cond(x.0, x.1) / 8.).product();
    let tol = 200. * kappa;
    if tol * sc.eps() > 0.05 {
        // single precision does not resolve this product of bases
        c.add("skipped_ill_conditioned", 1);
        return;
    }
    let orth = sp.iter().all(|x| !x.0.composite());
    // admissible coefficients: an actual field's, so that conjugate symmetric redundancies hold
    let take: usize = if sp.len() == 3 { 24 } else { 400 };
    for x in inputs(lm, cs, take, sc, Tier::Quick) {
        let x0 = arrd(&m, x.clone());
        let (u, _) = s.op(SOp::Bwd, Var::Alloc, &x0, Lay::C, None);
        let (v, _) = s.op(SOp::Fwd, Var::Alloc, &u, Lay::C, None);
        let (u2, _) = s.op(SOp::Bwd, Var::Alloc, &v, Lay::C, None);
        let (v2, _) = s.op(SOp::Fwd, Var::Alloc, &u2, Lay::C, None);
        c.state(1);
        c.step(4);
        let sv = norm1(&x);
        agree(c, "space_bfb", "backward(forward(backward))", &x, &flat(&u2), &flat(&u), |_| sv, sc.eps(), tol);
        agree(c, "space_fbf", "forward(backward(forward))", &x, &flat(&v2), &flat(&v), |_| sv, sc.eps(), tol);
        // without a real Fourier axis every coefficient array is admissible; with one the zero and
        // Nyquist planes are only determined up to the symmetry of a real field
        if !sp.iter().any(|x| x.0 == Kind::R2c) {
            agree(c, "space_bf", "forward(backward)", &x, &flat(&v), &x, |_| sv, sc.eps(), tol);
        } else {
            let ax = sp.iter().position(|x| x.0 == Kind::R2c).unwrap();
            let n = sp[ax].1;
            let mut want = x0.clone();
            let mut got = v.clone();
            // compare only modes strictly inside
            for e in [0, n / 2] {
                if e == 0 || n % 2 == 0 {
                    want.index_axis_mut(ndarray::Axis(ax), e).fill(ZERO);
                    got.index_axis_mut(ndarray::Axis(ax), e).fill(ZERO);
                }
            }
            agree(c, "space_bf", "forward(backward)", &x, &flat(&got), &flat(&want), |_| sv, sc.eps(), tol);
            // real coefficients in those planes are kept when this is the only Fourier axis
            if sp.iter().filter(|x| x.0.fourier()).count() == 1 {
                let mut w = x0.clone();
                for e in [0, n / 2] {
                    if e == 0 || n % 2 == 0 {
                        w.index_axis_mut(ndarray::Axis(ax), e).mapv_inplace(|z| C64::new(z.re, 0.));
                    }
                }
                agree(c, "space_bf_real", "forward(backward)", &x, &flat(&v), &flat(&w), |_| sv, sc.eps(), tol);
            }
        }
        c.trace(1);
        bail!(c);
    }
    for x in inputs(lp, cp, take / 2, sc, Tier::Quick) {
        let x0 = arrd(&p, x.clone());
        let (v, _) = s.op(SOp::Fwd, Var::Alloc, &x0, Lay::C, None);
        let (u, _) = s.op(SOp::Bwd, Var::Alloc, &v, Lay::C, None);
        c.state(1);
        c.step(2);
        let sv = norm1(&x);
        if orth {
            agree(c, "space_fb", "backward(forward)", &x, &flat(&u), &x, |_| sv, sc.eps(), tol);
        } else {
            let (v2, _) = s.op(SOp::Fwd, Var::Alloc, &u, Lay::C, None);
            let (u2, _) = s.op(SOp::Bwd, Var::Alloc, &v2, Lay::C, None);
            c.step(2);
            agree(c, "space_projection", "P(P)", &x, &flat(&u2), &flat(&u), |_| sv.max(norm1(&flat(&v))), sc.eps(), tol);
        }
        c.trace(1);
        bail!(c);
    }
}

// ---------------------------------------------------------------------------------------------
// C03
// ---------------------------------------------------------------------------------------------
/// d-th derivative of T_k at x = +-1
fn tder(k: usize, d: usize, right: bool) -> f64 {
    let k2 = (k * k) as f64;
    let mut v = 1.;
    for i in 0..d {
        v *= (k2 - (i * i) as f64) / (2. * i as f64 + 1.);
    }
    if right || (k + d) % 2 == 0 {
        v
    } else {
        -v
    }
}
/// (derivative order, right end) of the advertised boundary conditions
pub fn bcs(k: Kind) -> Vec<(usize, bool)> {
    match k {
        Kind::Dir => vec![(0, false), (0, true)],
        Kind::Neu => vec![(1, false), (1, true)],
        Kind::DirNeu => vec![(0, false), (1, true)],
        Kind::BihA => vec![(0, false), (0, true), (1, false), (1, true)],
        Kind::BihB => vec![(0, false), (0, true), (2, false), (2, true)],
        _ => vec![],
    }
}
/// value of a boundary functional and the sum of its terms' magnitudes
pub fn functional(a: &[C64], d: usize, right: bool) -> (C64, f64) {
    let mut v = ZERO;
    let mut s = 0.;
    for (k, x) in a.iter().enumerate() {
        let t = tder(k, d, right);
        v += x * t;
        s += l1(*x) * t.abs();
    }
    (v, s)
}
fn check_bc(c: &mut Case, k: Kind, how: &str, x: &[C64], a: &[C64], lower: usize, eps: f64, tol: f64, extra_scale: impl Fn(usize) -> f64) {
    for (d, right) in bcs(k) {
        if d < lower {
            continue;
        }
        let (v, s) = functional(a, d - lower, right);
        let e = v.re.abs().max(v.im.abs());
        let s = eps * s.max(extra_scale(d));
        let r = if e == 0. { 0. } else { e / s };
        c.max(&format!("worst_bc_{how}_in_eps"), if r.is_finite() { r } else { 0. });
        if !(r <= tol) {
            c.fail(format!("boundary condition u^({d})({}) = 0 observed through {how}: coefficients {} give {v} ({r:.2e} eps, allowed {tol:.1e})", if right { "+1" } else { "-1" }, show(x)));
        }
    }
}
pub fn c03(ctx: &mut Ctx) {
    let full = if ctx.thorough() { 300 } else { 180 };
    for k in COMPOSITE {
        for &sc in scalars(k) {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            for (n, all) in sizes_light(k.min_n_ortho(), full, if ctx.thorough() { 1100 } else { 600 }, &EXTRA_THOROUGH) {
                ctx.case(|| format!("boundary conditions {} {} n={n}", k.name(), sc.name()), |c| c03_case(c, k, sc, n, all));
            }
        }
    }
    ctx.group("spaces");
    for (sp, sc) in space_combos(ctx.tier, true) {
        if sp.iter().any(|x| x.0.composite()) {
            ctx.case(|| format!("boundary conditions of space {} {}", combo_name(&sp), sc.name()), |c| c03_space(c, &sp, sc));
        }
    }
}
fn c03_case(c: &mut Case, k: Kind, sc: Sc, n: usize, full: usize) {
    let b = base(k, sc, n);
    let t = Tab::new(k, n);
    let (cs, _) = b.cplx();
    let (eps, m) = (sc.eps(), k.spec(n));
    let tol = 64.;
    c.check(b.len() == (n, m, n), || format!("advertised sizes {:?}, expected ({n}, {m}, {n})", b.len()));
    let s = b.mat(Mat::Stencil).0;
    c.check(s.dim() == (n, m), || format!("stencil shape {:?}, expected ({n}, {m})", s.dim()));
    bail!(c);
    // dimension: the columns are independent
    let tri = (0..m).all(|j| l1(s[[j, j]]) > 1e-3 && (0..j).all(|i| s[[i, j]] == ZERO));
    if !tri && n <= 400 {
        let r = rank(&s);
        c.check(r == m, || format!("the {m} base functions span only {r} dimensions"));
    }
    for j in positions(m, full) {
        let col: Vec<C64> = s.column(j).to_vec();
        check_bc(c, k, "stencil", &unit(m, j, ONE), &col, 0, eps, tol, |_| 0.);
        c.state(1);
    }
    c.trace(1);
    let sc_w = if matches!(sc, Sc::Z64) { Sc::F64 } else { sc };
    for x in inputs(m, cs, full, sc_w, c.tier) {
        let a = call(&*b, Op::To, &x, n);
        c.step(1);
        c.state(1);
        check_bc(c, k, "to_ortho", &x, &a, 0, eps, tol, |_| 0.);
        // derivatives: functional of order d on u equals order d-1 on u'
        if norm_max(&x) < 1e20 && norm_max(&x) > 1e-20 {
            for lower in 1..=2 {
                if bcs(k).iter().any(|x| x.0 >= lower) {
                    let g = call(&*b, Op::Grad(lower), &x, n);
                    c.step(1);
                    check_bc(c, k, &format!("gradient_{lower}"), &x, &g, lower, eps, tol * 4., |d| functional(&a, d, true).1);
                }
            }
        }
        // grid values (real transforms)
        if !cs {
            let u = call(&*b, Op::Bwd, &x, n);
            c.step(1);
            let s1 = norm1(&a);
            for (d, right) in bcs(k) {
                if d == 0 {
                    let v = u[if right { n - 1 } else { 0 }].re;
                    let r = if v == 0. { 0. } else { v.abs() / (eps * s1) };
                    c.max("worst_bc_grid_in_eps", if r.is_finite() { r } else { 0. });
                    c.check(r <= tol, || format!("grid value at x = {} is {v} for coefficients {} ({r:.2e} eps)", if right { "+1" } else { "-1" }, show(&x)));
                }
            }
            if n <= 40 && norm_max(&x) < 1e20 && norm_max(&x) > 1e-20 {
                let al = t.forward(&u);
                // every mode may carry an error of eps * |u|
                let amp = |d: usize| (0..n).map(|k| tder(k, d, true).abs()).sum::<f64>() * s1;
                check_bc(c, k, "grid_expansion", &x, &al, 0, eps, tol, amp);
            }
        }
        bail!(c);
    }
    c.trace(1);
}
pub fn rank(s: &Array2<C64>) -> usize {
    let (n, m) = s.dim();
    let mut a = s.clone();
    // scale columns
    for j in 0..m {
        let mx = a.column(j).iter().map(|x| l1(*x)).fold(0., f64::max);
        if mx > 0. {
            a.column_mut(j).mapv_inplace(|x| x / mx);
        }
    }
    let mut r = 0;
    let mut used = vec![false; n];
    for j in 0..m {
        // orthogonal elimination by rows with the largest pivot over all remaining columns
        let mut best = (0., 0, 0);
        for i in 0..n {
            if !used[i] {
                for jj in j..m {
                    let v = l1(a[[i, jj]]);
                    if v > best.0 {
                        best = (v, i, jj);
                    }
                }
            }
        }
        if best.0 < 1e-5 {
            break;
        }
        let (_, pi, pj) = best;
        for i in 0..n {
            a.swap([i, j], [i, pj]);
        }
        used[pi] = true;
        for jj in j + 1..m {
            let f = a[[pi, jj]] / a[[pi, j]];
            if f != ZERO {
                for i in 0..n {
                    let v = a[[i, j]];
                    a[[i, jj]] -= f * v;
                }
            }
        }
        r += 1;
    }
    r
}
fn c03_space(c: &mut Case, sp: &Combo, sc: Sc) {
    let s = space(sp, sc).expect("admissible");
    let m: Vec<usize> = sp.iter().map(|x| x.0.spec(x.1)).collect();
    let lm: usize = m.iter().product();
    let (cs, _) = s.cplx();
    let eps = sc.eps();
    for x in inputs(lm, cs, if sp.len() < 3 { 120 } else { 12 }, sc, Tier::Quick) {
        if norm_max(&x) > 1e20 || norm_max(&x) < 1e-20 {
            continue;
        }
        let x0 = arrd(&m, x.clone());
        let (a, _) = s.op(SOp::To, Var::Alloc, &x0, Lay::C, None);
        let (u, _) = s.op(SOp::Bwd, Var::Alloc, &x0, Lay::C, None);
        c.state(1);
        c.step(2);
        for (ax, (k, n)) in sp.iter().enumerate() {
            if !k.composite() {
                continue;
            }
            lanewise(&a, ax, *n, |l| {
                check_bc(c, *k, "space_to_ortho", &x, l, 0, eps, 256., |d| tder(4, d, true).abs() * norm1(&x));
                l.to_vec()
            });
            for lower in 1..=2 {
                if bcs(*k).iter().any(|x| x.0 >= lower) {
                    let mut d = vec![0; sp.len()];
                    d[ax] = lower;
                    let (g, _) = s.op(SOp::Grad(d, None), Var::Alloc, &x0, Lay::C, None);
                    c.step(1);
                    lanewise(&g, ax, *n, |l| {
                        let nx = norm1(&x);
                        check_bc(c, *k, "space_gradient", &x, l, lower, eps, 256., |d| tder(*n, d, true).abs() * nx);
                        l.to_vec()
                    });
                }
            }
            // grid values: with a Dirichlet-type end the boundary planes vanish
            for (d, right) in bcs(*k) {
                if d == 0 {
                    let i = if right { n - 1 } else { 0 };
                    let e = u.index_axis(ndarray::Axis(ax), i).iter().map(|z| l1(*z)).fold(0., f64::max);
                    let r = e / (eps * norm1(&x).max(1e-300));
                    c.max("worst_bc_space_grid_in_eps", r);
                    c.check(e == 0. || r <= 1000., || format!("grid values on the plane x_{ax} = {} reach {e} for {}", if right { "+1" } else { "-1" }, show(&x)));
                }
            }
        }
        bail!(c);
    }
    c.trace(1);
}

// ---------------------------------------------------------------------------------------------
// C04
// ---------------------------------------------------------------------------------------------
pub fn c04(ctx: &mut Ctx) {
    let full = if ctx.thorough() { 300 } else { 160 };
    for k in KINDS {
        for &sc in scalars(k) {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            for (n, all) in sizes_light(k.min_n_ortho(), full, if ctx.thorough() { 1100 } else { 600 }, &EXTRA_THOROUGH) {
                ctx.case(|| format!("conversion {} {} n={n}", k.name(), sc.name()), |c| c04_case(c, k, sc, n, all));
            }
        }
    }
}
fn c04_case(c: &mut Case, k: Kind, sc: Sc, n: usize, full: usize) {
    let b = base(k, sc, n);
    let t = Tab::new(k, n);
    let (cs, _) = b.cplx();
    let (eps, m, o) = (sc.eps(), k.spec(n), k.orth(n));
    let s = b.mat(Mat::Stencil).0;
    c.check(s.dim() == (o, m), || format!("stencil shape {:?}, expected ({o}, {m})", s.dim()));
    bail!(c);
    if !k.composite() {
        let id = Array2::from_shape_fn((o, m), |(i, j)| if i == j { ONE } else { ZERO });
        c.check(s == id, || "the stencil of an orthogonal base is not the identity".into());
    }
    // banded copies make the products linear in n
    let cols: Vec<Vec<(usize, C64)>> = (0..m).map(|j| (0..o).filter(|&i| s[[i, j]] != ZERO).map(|i| (i, s[[i, j]])).collect()).collect();
    let mul = |x: &[C64]| {
        let mut y = vec![ZERO; o];
        for (j, col) in cols.iter().enumerate() {
            for (i, v) in col {
                y[*i] += v * x[j];
            }
        }
        y
    };
    let mul_abs = |x: &[C64]| {
        let mut y = vec![0.; o];
        for (j, col) in cols.iter().enumerate() {
            for (i, v) in col {
                y[*i] += l1(*v) * l1(x[j]);
            }
        }
        y
    };
    let tmul = |x: &[C64]| cols.iter().map(|col| col.iter().map(|(i, v)| v * x[*i]).sum::<C64>()).collect::<Vec<_>>();
    let can_solve = n >= k.min_n();
    let kappa = 1. + cond(k, n) / 8.;
    for x in inputs(m, cs, full, sc, c.tier) {
        let a = call(&*b, Op::To, &x, o);
        c.state(1);
        c.step(1);
        let want = mul(&x);
        let abs = mul_abs(&x);
        agree(c, "to_ortho", "to_ortho", &x, &a, &want, |i| abs[i], eps, 16.);
        // same function
        if !(k.r2r() && cs) && n <= 64 {
            let u = call(&*b, Op::Bwd, &x, n);
            c.step(1);
            let wu = t.backward(&want);
            let sc1 = abs.iter().sum::<f64>();
            agree(c, "same_function", "backward", &x, &u, &wu, |_| sc1, eps, 200.);
        }
        if can_solve {
            let y = call(&*b, Op::From, &a, m);
            c.step(1);
            let s1 = norm1(&x);
            if kappa * eps < 1e-3 {
                agree(c, "left_inverse", "from_ortho(to_ortho)", &x, &y, &x, |_| s1, eps, 200. * kappa);
            }
        }
        bail!(c);
    }
    c.trace(1);
    if can_solve {
        for x in inputs(o, cs, full, sc, c.tier) {
            let v = call(&*b, Op::From, &x, m);
            c.state(1);
            c.step(1);
            if k.composite() {
                // normal equations: S^T (S v - x) = 0
                let sv = mul(&v);
                let r: Vec<C64> = sv.iter().zip(&x).map(|(a, b)| a - b).collect();
                let res = tmul(&r);
                let sabs = mul_abs(&v);
                let scale = norm_max(&x) + sabs.iter().copied().fold(0., f64::max);
                let zero = vec![ZERO; m];
                agree(c, &format!("least_squares_{}", k.name()), "from_ortho", &x, &res, &zero, |_| scale, eps, 400.);
            } else {
                agree(c, "identity", "from_ortho", &x, &v, &x, |i| l1(x[i]), eps, 1.);
            }
            bail!(c);
        }
        c.trace(1);
    }
    if full != LIGHT && n <= if c.tier == Tier::Quick { 300 } else { 700 } {
        let si = b.mat(Mat::StencilInv).0;
        c.step(1);
        c.check(si.dim() == (m, o), || format!("shape of the inverse stencil {:?}, expected ({m}, {o})", si.dim()));
        bail!(c);
        let mut worst: f64 = 0.;
        for (j, col) in cols.iter().enumerate() {
            for i in 0..m {
                let mut v = ZERO;
                let mut ab = 0.;
                for (r, w) in col {
                    v += si[[i, *r]] * w;
                    ab += l1(si[[i, *r]]) * l1(*w);
                }
                let want = if i == j { ONE } else { ZERO };
                let e = l1(v - want);
                if e > 0. {
                    let q = e / (eps * ab.max(1e-300));
                    worst = worst.max(if q.is_nan() { f64::INFINITY } else { q });
                }
                if !e.is_finite() {
                    worst = f64::INFINITY;
                }
            }
        }
        c.max("worst_stencil_inverse_in_eps", if worst.is_finite() { worst } else { 0. });
        c.check(worst <= 64. + n as f64, || format!("inverse stencil times stencil differs from the identity by {worst:.2e} eps"));
        c.trace(1);
    }
}

// ---------------------------------------------------------------------------------------------
// C05
// ---------------------------------------------------------------------------------------------
pub fn c05(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let full = if th { 256 } else { 130 };
    for k in KINDS {
        for &sc in scalars(k) {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            for (n, all) in sizes_light(k.min_n_ortho(), full, if th { 1100 } else { 500 }, if th || k.fourier() { &EXTRA_THOROUGH[..] } else { &EXTRA_QUICK[..] }) {
                ctx.case(|| format!("gradient {} {} n={n}", k.name(), sc.name()), |c| c05_case(c, k, sc, n, all));
            }
        }
    }
}
fn c05_case(c: &mut Case, k: Kind, sc: Sc, n: usize, full: usize) {
    let b = base(k, sc, n);
    let t = Tab::new(k, n);
    let (cs, _) = b.cplx();
    let (eps, m, o) = (sc.eps(), k.spec(n), k.orth(n));
    let s = b.mat(Mat::Stencil).0;
    let cols: Vec<Vec<(usize, C64)>> = (0..m).map(|j| (0..o).filter(|&i| s[[i, j]] != ZERO).map(|i| (i, s[[i, j]])).collect()).collect();
    let mut orders: Vec<usize> = vec![0, 1, 2, 3, 4];
    if n <= 40 {
        orders.extend([5, 6]);
    }
    if n <= 12 {
        orders.extend(7..=n + 2);
    }
    let lim = if sc.f64ish() { 1e290 } else { 1e30 };
    let low = if sc.f64ish() { 1e-290 } else { 1e-30 };
    for x in inputs(m, cs, full, sc, c.tier) {
        let mut a = vec![ZERO; o];
        for (j, col) in cols.iter().enumerate() {
            for (i, v) in col {
                a[*i] += v * x[j];
            }
        }
        let mut aabs = vec![ZERO; o];
        for (j, col) in cols.iter().enumerate() {
            for (i, v) in col {
                aabs[*i] += l1(*v) * l1(x[j]);
            }
        }
        let nx = norm_max(&x);
        for &d in &orders {
            let want = t.diff(&a, d);
            let abs = t.diff_abs(&aabs, d);
            if abs.iter().any(|v| *v > lim) || (nx > 0. && nx < low) {
                continue;
            }
            let g = call(&*b, Op::Grad(d), &x, o);
            c.state(1);
            c.step(1);
            agree(c, "gradient", &format!("gradient({d})"), &x, &g, &want, |i| abs[i], eps, 16. + 4. * d as f64 + n as f64 / 8.);
            bail!(c);
        }
    }
    c.trace(1);
    // high orders (every order up to 40, and powers up to 130), on the lowest, middle and highest mode
    // and on vectors that excite all of them, as long as the result is representable
    let mut highs: Vec<Vec<C64>> = [1, m / 3, m / 2, m.saturating_sub(2), m.saturating_sub(1)].iter().filter(|&&p| p < m).map(|&p| (0..m).map(|i| if i == p { ONE } else { ZERO }).collect()).collect();
    highs.extend((0..2).map(|w| dense(m, w, cs)));
    for x in highs {
        let mut a = vec![ZERO; o];
        let mut aabs = vec![ZERO; o];
        for (j, col) in cols.iter().enumerate() {
            for (i, v) in col {
                a[*i] += v * x[j];
                aabs[*i] += l1(*v) * l1(x[j]);
            }
        }
        let (mut want, mut abs) = (a, aabs);
        let top = if full == LIGHT || (c.tier == Tier::Quick && n > 300) { 12 } else { 130 };
        for d in 1..=top {
            want = t.diff1(&want);
            abs = t.diff_abs(&abs.iter().map(|v| C64::new(l1(*v), 0.)).collect::<Vec<_>>(), 1).into_iter().map(|v| C64::new(v, 0.)).collect();
            let mx = abs.iter().map(|v| v.re).fold(0., f64::max);
            if mx > lim || mx == 0. {
                break;
            }
            if d > 40 && ![48, 63, 64, 65, 96, 127, 128, 129].contains(&d) {
                continue;
            }
            let g = call(&*b, Op::Grad(d), &x, o);
            c.state(1);
            c.step(1);
            agree(c, "gradient", &format!("gradient({d})"), &x, &g, &want, |i| abs[i].re, eps, 16. + 4. * d as f64 + n as f64 / 8.);
            bail!(c);
        }
    }
    c.trace(1);
    // a times then b times equals a+b times, on the base the result lives in
    let ob: Option<Box<dyn Bs>> = if k.composite() { Some(base(Kind::Cheb, sc, n)) } else { None };
    let ob: &dyn Bs = ob.as_deref().unwrap_or(&*b);
    for w in 0..if full == LIGHT { 1 } else { 5 } {
        let x = dense(m, w, cs);
        for da in 0..=3 {
            for db in 0..=3 {
                let g1 = call(&*b, Op::Grad(da), &x, o);
                let g2 = call(ob, Op::Grad(db), &g1, o);
                let g = call(&*b, Op::Grad(da + db), &x, o);
                c.step(3);
                let a: Vec<C64> = s.dot(&ndarray::Array1::from(x.clone())).to_vec();
                let abs = t.diff_abs(&a, da + db);
                let mx = abs.iter().copied().fold(0., f64::max);
                if mx < lim {
                    agree(c, "composition", &format!("gradient({da}) then gradient({db})"), &x, &g2, &g, |_| mx, eps, 64.);
                }
                bail!(c);
            }
        }
        let z = call(&*b, Op::Grad(0), &x, o);
        let a = call(&*b, Op::To, &x, o);
        let mx = norm_max(&a);
        agree(c, "order_zero", "gradient(0)", &x, &z, &a, |_| mx, eps, 8.);
    }
    c.trace(1);
}

// ---------------------------------------------------------------------------------------------
// C06
// ---------------------------------------------------------------------------------------------
pub fn c06(ctx: &mut Ctx) {
    let full = if ctx.thorough() { 260 } else { 130 };
    let ex: &[usize] = if ctx.thorough() { &[192, 200, 255, 256, 257, 300, 384, 512, 513, 700, 1024, 1025] } else { &[144, 160, 200, 255, 256, 257, 300, 400, 512, 513] };
    for k in KINDS {
        for sc in [Sc::F64, Sc::F32] {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            for n in sizes(k.min_n_ortho(), full, ex) {
                ctx.case(|| format!("matrices {} {} n={n}", k.name(), sc.name()), |c| c06_case(c, k, sc, n));
            }
        }
    }
    ctx.group("spaces");
    for (sp, sc) in space_combos(ctx.tier, true) {
        ctx.case(|| format!("matrices of space {} {}", combo_name(&sp), sc.name()), |c| c06_space(c, &sp, sc));
    }
}
fn c06_case(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let b = base(k, sc, n);
    let t = Tab::new(k, n);
    let (eps, m, o) = (sc.eps(), k.spec(n), k.orth(n));
    // the orthogonal base whose gradient acts on orthogonal coefficients
    let ob = if k.composite() { base(Kind::Cheb, sc, n) } else { base(k, sc, n) };
    let maxd = if k.fourier() { 66 } else { 4 };
    for d in 1..=maxd {
        if !sc.f64ish() && (n as f64).powi(2 * d as i32) > 1e30 {
            continue;
        }
        if d > 8 && (n > 70 || (d > 12 && ![16, 31, 32, 33, 48, 63, 64, 65].contains(&d)) || (n as f64).powi(d as i32) > 1e140) {
            continue;
        }
        let dm = b.mat(Mat::Diff(d)).0;
        c.state(1);
        c.step(1);
        c.check(dm.dim() == (o, o), || format!("diffmat({d}) has shape {:?}, expected ({o}, {o})", dm.dim()));
        bail!(c);
        for j in 0..o {
            let e = unit(o, j, ONE);
            let want = t.diff(&e, d);
            let col = dm.column(j).to_vec();
            let abs = t.diff_abs(&e, d);
            agree(c, "diffmat", &format!("diffmat({d})"), &e, &col, &want, |i| abs[i], eps, 64.);
            let g = call(&*ob, Op::Grad(d), &e, o);
            c.step(1);
            agree(c, "diffmat_vs_gradient", &format!("diffmat({d})"), &e, &col, &g, |i| abs[i], eps, 64. + n as f64 / 4.);
            bail!(c);
        }
        if !k.fourier() && n <= d {
            // no non-null modes: there is no pseudo-inverse to speak of
            continue;
        }
        let (p, i) = b.mat(Mat::DiffPinv(d));
        c.step(1);
        check_pinv(c, &format!("diffmat_pinv({d})"), k, d, o, &p, i.as_ref().unwrap(), &dm, eps, n);
        bail!(c);
    }
    c.trace(1);
    let l = b.mat(Mat::Lap).0;
    let d2 = b.mat(Mat::Diff(2)).0;
    c.step(2);
    c.check(l.dim() == (o, o), || format!("laplacian has shape {:?}", l.dim()));
    bail!(c);
    for j in 0..o {
        let (a, w) = (l.column(j).to_vec(), d2.column(j).to_vec());
        agree(c, "laplacian", "laplacian", &unit(o, j, ONE), &a, &w, |i| l1(w[i]), eps, 16.);
    }
    bail!(c);
    if k.fourier() || n > 2 {
        let (p, i) = b.mat(Mat::LapPinv);
        c.step(1);
        check_pinv(c, "laplacian_pinv", k, 2, o, &p, i.as_ref().unwrap(), &l, eps, n);
    }
    let s = b.mat(Mat::Stencil).0;
    let si = b.mat(Mat::StencilInv).0;
    c.step(2);
    c.check(s.dim() == (o, m) && si.dim() == (m, o), || format!("stencil shapes {:?} {:?}", s.dim(), si.dim()));
    bail!(c);
    let prod = matmul(&si, &s);
    let ab = matmul_abs(&si, &s);
    for i in 0..m {
        for j in 0..m {
            let want = if i == j { ONE } else { ZERO };
            let e = l1(prod[[i, j]] - want);
            c.check(e <= eps * ab[[i, j]] * (64. + n as f64), || format!("(inverse stencil * stencil)[{i},{j}] = {}", prod[[i, j]]));
        }
    }
    // the stencil matrix is the matrix of to_ortho
    for j in 0..m {
        let x = unit(m, j, ONE);
        let a = call(&*b, Op::To, &x, o);
        c.step(1);
        let w = s.column(j).to_vec();
        agree(c, "stencil_vs_to_ortho", "to_ortho", &x, &a, &w, |i| l1(w[i]), eps, 8.);
        bail!(c);
    }
    c.trace(1);
}
#[allow(clippy::too_many_arguments)]
fn check_pinv(c: &mut Case, what: &str, k: Kind, d: usize, o: usize, p: &Array2<C64>, i: &Array2<C64>, dm: &Array2<C64>, eps: f64, n: usize) {
    // non-null modes: from `skip` on
    let skip = if k.fourier() { 1 } else { d };
    c.check(p.dim() == (o, o), || format!("{what}: pseudo-inverse has shape {:?}, expected ({o}, {o})", p.dim()));
    c.check(i.dim() == (o - skip, o), || format!("{what}: pseudo-identity has shape {:?}, expected ({}, {o})", i.dim(), o - skip));
    if c.failed() {
        return;
    }
    let prod = matmul(p, dm);
    let ab = matmul_abs(p, dm);
    let mut worst: f64 = 0.;
    for r in skip..o {
        for q in 0..o {
            let e = l1(prod[[r, q]] - i[[r - skip, q]]);
            let x = if e == 0. { 0. } else { e / (eps * ab[[r, q]].max(1.)) };
            if !(x <= worst) {
                worst = if x.is_nan() { f64::INFINITY } else { x };
            }
            if !(x <= 100.) {
                c.fail(format!("{what}: (pinv * D)[{r},{q}] = {} but the pseudo-identity has {}", prod[[r, q]], i[[r - skip, q]]));
                return;
            }
            // the pseudo-identity is the identity on the modes it resolves
            let want = if q == r { ONE } else { ZERO };
            let resolved = k.fourier() || r < o - d || r >= skip;
            if resolved && q < o - if k.fourier() { 0 } else { d } {
                let e = l1(i[[r - skip, q]] - want);
                if e > 1e-12 && r < o - if k.fourier() { 0 } else { d } {
                    c.fail(format!("{what}: pseudo-identity[{},{q}] = {}", r - skip, i[[r - skip, q]]));
                    return;
                }
            }
        }
    }
    c.max(&format!("worst_pinv_in_eps"), worst);
}
fn c06_space(c: &mut Case, sp: &Combo, sc: Sc) {
    let s = space(sp, sc).expect("admissible");
    for (ax, (k, n)) in sp.iter().enumerate() {
        let b = base(*k, sc, *n);
        for m in [Mat::Stencil, Mat::StencilInv, Mat::Lap, Mat::LapPinv] {
            let got = s.mat(m, ax);
            let want = b.mat(m);
            c.state(1);
            c.step(2);
            c.check(close_mat(&got.0, &want.0, sc.eps()), || format!("{m:?} along axis {ax} is not that of {}", k.name()));
            if let (Some(a), Some(b)) = (got.1, want.1) {
                c.check(close_mat(&a, &b, sc.eps()), || format!("{m:?} (pseudo-identity) along axis {ax} is not that of {}", k.name()));
            }
        }
    }
    c.trace(1);
}
pub fn close_mat(a: &Array2<C64>, b: &Array2<C64>, eps: f64) -> bool {
    a.dim() == b.dim() && a.iter().zip(b).all(|(x, y)| l1(x - y) <= 8. * eps * l1(*y))
}

// ---------------------------------------------------------------------------------------------
// C17
// ---------------------------------------------------------------------------------------------
pub fn c17(ctx: &mut Ctx) {
    let full = if ctx.thorough() { 4200 } else { 2100 };
    let ex: &[usize] = &[3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 16385, 32768, 50001, 65536, 65537, 100_000];
    for k in KINDS {
        for sc in [Sc::F64, Sc::F32] {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            for n in sizes(k.min_n_ortho(), full, ex) {
                if k.composite() && n > 2100 {
                    continue;
                }
                ctx.case(|| format!("sizes, kind and grid of {} {} n={n}", k.name(), sc.name()), |c| c17_case(c, k, sc, n));
            }
        }
    }
    ctx.group("names");
    ctx.case(|| "kind names are distinct".into(), |c| {
        let mut names = std::collections::BTreeSet::new();
        let mut dbg = std::collections::BTreeSet::new();
        for k in KINDS {
            let b = base(k, Sc::F64, k.min_n());
            let b2 = base(k, Sc::F64, k.min_n() + 3);
            let b3 = base(k, Sc::F32, k.min_n() + 1);
            c.check(b.kind_name() == b2.kind_name() && b.kind_debug() == b2.kind_debug(), || format!("{}: kind depends on the size", k.name()));
            c.check(b.kind_name() == b3.kind_name(), || format!("{}: kind depends on the precision", k.name()));
            names.insert(b.kind_name());
            dbg.insert(b.kind_debug());
            c.state(1);
            c.step(3);
        }
        c.check(names.len() == KINDS.len(), || format!("names {names:?}"));
        c.check(dbg.len() == KINDS.len(), || format!("kinds {dbg:?}"));
        c.trace(1);
    });
    ctx.group("spaces");
    for (sp, sc) in space_combos(ctx.tier, true) {
        ctx.case(|| format!("metadata of space {} {}", combo_name(&sp), sc.name()), |c| meta_space(c, &sp, sc));
    }
}
fn expected_debug(k: Kind) -> &'static str {
    match k {
        Kind::Cheb => "Chebyshev",
        Kind::Dir => "ChebDirichlet",
        Kind::Neu => "ChebNeumann",
        Kind::DirNeu => "ChebDirichletNeumann",
        Kind::BihA => "ChebBiHarmonicA",
        Kind::BihB => "ChebBiHarmonicB",
        Kind::R2c => "FourierR2c",
        Kind::C2c => "FourierC2c",
    }
}
fn expected_tkind(k: Kind) -> u8 {
    match k {
        Kind::R2c => 1,
        Kind::C2c => 2,
        _ => 0,
    }
}
pub fn check_grid(c: &mut Case, k: Kind, sc: Sc, n: usize, x: &[f64]) {
    let t = Tab::new(k, n);
    c.check(x.len() == n, || format!("{} grid points instead of {n}", x.len()));
    if x.len() != n {
        return;
    }
    for j in 0..n {
        let w = t.grid(j);
        // Fourier points may be formed as step * j or by accumulation
        let tol = sc.eps() * if k.fourier() { (16. + n as f64) * w.abs().max(1e-3) } else { 16. };
        let e = (x[j] - w).abs();
        c.max("worst_grid_in_eps", e / sc.eps());
        c.check(e <= tol, || format!("grid point {j} of {n} is {}, expected {w}", x[j]));
        if j > 0 && n <= 2100 {
            c.check(x[j] > x[j - 1], || format!("grid points {} and {j} are not increasing: {} {}", j - 1, x[j - 1], x[j]));
        }
    }
    if k.fourier() {
        c.check(x[n - 1] < 2. * std::f64::consts::PI, || format!("last point {}", x[n - 1]));
        c.check(x[0] == 0., || format!("first point {}", x[0]));
    } else {
        c.check((x[0] + 1.).abs() <= 4. * sc.eps() && (x[n - 1] - 1.).abs() <= 4. * sc.eps(), || format!("end points {} {}", x[0], x[n - 1]));
    }
}
fn c17_case(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let b = base(k, sc, n);
    for b in [&*b, &*b.boxed()] {
        c.state(1);
        c.step(4);
        c.check(b.len() == (n, k.spec(n), k.orth(n)), || format!("sizes {:?}, expected ({n}, {}, {})", b.len(), k.spec(n), k.orth(n)));
        c.check(b.tkind() == expected_tkind(k), || "wrong transform kind".into());
        c.check(b.kind_debug() == expected_debug(k), || format!("kind {}", b.kind_debug()));
        check_grid(c, k, sc, n, &b.coords());
    }
    c.trace(1);
}
pub fn meta_space(c: &mut Case, sp: &Combo, sc: Sc) {
    let s = space(sp, sc).expect("admissible");
    let s2 = s.boxed();
    for s in [&*s, &*s2] {
        let p: Vec<usize> = sp.iter().map(|x| x.1).collect();
        let m: Vec<usize> = sp.iter().map(|x| x.0.spec(x.1)).collect();
        let o: Vec<usize> = sp.iter().map(|x| x.0.orth(x.1)).collect();
        c.state(1);
        c.step(3);
        c.check(s.shapes() == (p.clone(), m.clone(), o.clone()), || format!("shapes {:?}, expected {p:?} {m:?} {o:?}", s.shapes()));
        let (ap, am) = s.arrays();
        c.check(ap.shape() == &p[..] && am.shape() == &m[..], || format!("arrays have shapes {:?} {:?}", ap.shape(), am.shape()));
        c.check(ap.iter().chain(am.iter()).all(|z| *z == ZERO), || "new arrays are not zero".into());
        let all = s.coords();
        c.check(all.len() == sp.len(), || "number of coordinate arrays".into());
        for (ax, (k, n)) in sp.iter().enumerate() {
            c.step(4);
            c.check(s.kind_debug(ax) == expected_debug(*k), || format!("kind of axis {ax} is {}", s.kind_debug(ax)));
            c.check(s.tkind(ax) == expected_tkind(*k), || format!("transform kind of axis {ax}"));
            let x = s.coords_axis(ax);
            check_grid(c, *k, sc, *n, &x);
            c.check(all[ax] == x, || format!("coords and coords_axis differ on axis {ax}"));
        }
    }
    c.trace(1);
}

// ---------------------------------------------------------------------------------------------
// C18
// ---------------------------------------------------------------------------------------------
pub fn c18(ctx: &mut Ctx) {
    let th = ctx.thorough();
    for k in KINDS {
        for &sc in scalars(k) {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            let full = if th { 64 } else { 30 };
            for n in sizes(k.min_n(), k.min_n() + full, &[31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300]) {
                ctx.case(|| format!("linearity {} {} n={n}", k.name(), sc.name()), |c| c18_case(c, k, sc, n));
            }
        }
    }
    ctx.group("spaces");
    for (sp, sc) in space_combos(ctx.tier, true) {
        ctx.case(|| format!("linearity of space {} {}", combo_name(&sp), sc.name()), |c| c18_space(c, &sp, sc));
    }
}
pub fn ops_of(k: Kind, sc: Sc) -> Vec<Op> {
    let mut v = vec![Op::To, Op::From, Op::Grad(0), Op::Grad(1), Op::Grad(2), Op::Grad(3)];
    if !(k.r2r() && matches!(sc, Sc::Z64 | Sc::Z32)) {
        v.extend([Op::Fwd, Op::Bwd]);
    }
    v
}
fn c18_case(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let b = base(k, sc, n);
    let (cs, cp) = b.cplx();
    let eps = sc.eps();
    let t = Tab::new(k, n);
    let smat: Vec<Vec<C64>> = (0..k.spec(n)).map(|j| call(&*b, Op::To, &unit(k.spec(n), j, ONE), k.orth(n))).collect();
    for op in ops_of(k, sc) {
        let (il, ol) = op.lens(k, n);
        let cx = if op.in_phys() { cp } else { cs };
        // images of the basis: the operator's matrix as the code itself realises it
        let cols: Vec<Vec<C64>> = (0..il).map(|j| call(&*b, op, &unit(il, j, ONE), ol)).collect();
        let icols: Vec<Vec<C64>> = if cx { (0..il).map(|j| call(&*b, op, &unit(il, j, I), ol)).collect() } else { vec![] };
        c.step(cols.len() as u64);
        // response of the operator; for badly conditioned solves the error grows with it
        let gain = cols.iter().chain(&icols).map(|v| norm_max(v)).fold(0., f64::max);
        let kap = if matches!(op, Op::From | Op::Fwd) { 1. + cond(k, n) / 16. } else { 1. };
        if kap * eps > 1e-4 {
            continue;
        }
        let tol = 100. * kap;
        // zero maps to zero
        let z = call(&*b, op, &vec![ZERO; il], ol);
        c.check(z.iter().all(|v| *v == ZERO), || format!("{} of zero is not zero: {}", op.name(), show(&z)));
        let combine = |x: &[C64]| {
            let mut y = vec![ZERO; ol];
            for j in (0..il).filter(|j| x[*j] != ZERO) {
                for i in 0..ol {
                    // real-linear: real and imaginary parts of the input act through their own columns
                    y[i] += cols[j][i] * x[j].re;
                    if cx {
                        y[i] += icols[j][i] * x[j].im;
                    }
                }
            }
            y
        };
        // magnitude of the terms entering each output entry: conversions and derivatives are local,
        // so small entries must survive next to large ones
        let local = |x: &[C64]| -> Vec<f64> { match op {
                Op::To | Op::Grad(_) => {
                    let nz: Vec<usize> = (0..il).filter(|j| x[*j] != ZERO).collect();
                    let y: Vec<C64> = (0..k.orth(n)).map(|i| C64::new(nz.iter().map(|&j| l1(smat[j][i]) * l1(x[j])).sum(), 0.)).collect();
                    if let Op::Grad(d) = op {
                        t.diff_abs(&y, d)
                    } else {
                        y.iter().map(|v| v.re).collect()
                    }
                }
                _ => vec![gain * norm1(x); ol],
            }
        };
        let mut xs: Vec<Vec<C64>> = (0..5).map(|w| dense(il, w, cx)).collect();
        // every pair of entries, widely separated magnitudes
        for a in positions(il, 12) {
            for bb in positions(il, 12) {
                if a != bb {
                    let seps: &[f64] = if sc.f64ish() { &[1e-6, 1e-13, 1e-60] } else { &[1e-6, 1e-12] };
                    for sep in seps {
                        let mut x = vec![ZERO; il];
                        x[a] = C64::new(1., if cx { -2. } else { 0. });
                        x[bb] = C64::new(-3. * sep, if cx { *sep } else { 0. });
                        xs.push(x);
                    }
                }
            }
        }
        let (lo, hi, st) = if sc.f64ish() { (-270, 270, if c.tier == Tier::Quick { 20 } else { 5 }) } else { (-26, 26, 4) };
        let mut es = vec![];
        let mut e = lo;
        while e <= hi {
            es.push(e);
            e += st;
        }
        for e in es {
            xs.push(scaled(&dense(il, 3, cx), 10f64.powi(e)));
            xs.push(unit(il, (e.unsigned_abs() as usize * 7) % il, C64::new(10f64.powi(e), 0.)));
            xs.push(unit(il, (e.unsigned_abs() as usize * 7) % il, C64::new(-(10f64.powi(e)), 0.)));
        }
        for x in xs.iter_mut() {
            for v in x.iter_mut() {
                *v = q(sc, *v);
            }
        }
        for x in &xs {
            let s = gain * norm1(x);
            if s > if sc.f64ish() { 1e300 } else { 1e34 } {
                continue;
            }
            let got = call(&*b, op, x, ol);
            c.state(1);
            c.step(1);
            let want = combine(x);
            let local = local(x);
            agree(c, "superposition", &op.name(), x, &got, &want, |i| local[i], eps, tol);
            // exact homogeneity under powers of two and sign, which commute with rounding
            if norm_max(x) < 1e30 && norm_max(x) > 1e-30 {
                for f in [-1.0f64, 2., 0.5, -1048576., 1. / 1048576.] {
                    let (top, bottom) = if sc.f64ish() { (1e300, 1e-280) } else { (1e34, 1e-28) };
                    if s * f.abs() > top || s * f.abs() < bottom {
                        continue;
                    }
                    let gx = call(&*b, op, &scaled(x, f), ol);
                    c.step(1);
                    let w = scaled(&got, f);
                    let sf = s * f.abs();
                    agree(c, "homogeneity", &op.name(), x, &gx, &w, |_| sf, eps, tol);
                }
            }
            bail!(c);
        }
        // complex input of a real operator: real and imaginary parts are treated separately
        if k.r2r() && cx {
            let rb = base(k, if sc == Sc::Z64 { Sc::F64 } else { Sc::F32 }, n);
            for w in 0..5 {
                let x = dense(il, w, true);
                let got = call(&*b, op, &x, ol);
                let re = call(&*rb, op, &x.iter().map(|v| C64::new(v.re, 0.)).collect::<Vec<_>>(), ol);
                let im = call(&*rb, op, &x.iter().map(|v| C64::new(v.im, 0.)).collect::<Vec<_>>(), ol);
                c.step(3);
                let want: Vec<C64> = re.iter().zip(&im).map(|(a, b)| C64::new(a.re, b.re)).collect();
                let s = gain * norm1(&x);
                agree(c, "componentwise", &op.name(), &x, &got, &want, |_| s, eps, tol);
            }
        }
        // single against double precision
        if matches!(sc, Sc::F32 | Sc::Z32) {
            let db = base(k, if sc == Sc::F32 { Sc::F64 } else { Sc::Z64 }, n);
            for x in &xs {
                let s = gain * norm1(x);
                if s > 1e34 {
                    continue;
                }
                let got = call(&*b, op, x, ol);
                let want = call(&*db, op, x, ol);
                c.step(2);
                let local = local(x);
                agree(c, "precision", &op.name(), x, &got, &want, |i| local[i], eps, 2. * tol);
                bail!(c);
            }
        }
        bail!(c);
        c.trace(1);
    }
}
fn c18_space(c: &mut Case, sp: &Combo, sc: Sc) {
    let s = space(sp, sc).expect("admissible");
    let (cs, cp) = s.cplx();
    let (p, m, o) = s.shapes();
    let kap: f64 = sp.iter().map(|x| 1. + cond(x.0, x.1) / 16.).product();
    for op in [SOp::Fwd, SOp::Bwd, SOp::To, SOp::From, SOp::Grad(vec![1; sp.len()], None), SOp::Grad(vec![2; sp.len()], Some(vec![2.; sp.len()]))] {
        let (sh, cx) = match op {
            SOp::Fwd => (&p, cp),
            SOp::From => (&o, cs),
            _ => (&m, cs),
        };
        let kap = if matches!(op, SOp::Fwd | SOp::From) { kap } else { 1. };
        let eps = sc.eps();
        if kap * eps > 1e-4 {
            continue;
        }
        let len: usize = sh.iter().product();
        let run = |x: &[C64]| flat(&s.op(op.clone(), Var::Alloc, &arrd(sh, x.to_vec()), Lay::C, None).0);
        let z = run(&vec![ZERO; len]);
        c.check(z.iter().all(|v| *v == ZERO), || format!("{op:?} of zero is not zero"));
        let es: &[i32] = if sc.f64ish() { &[-250, -100, -30, -12, 12, 100, 250] } else { &[-25, -12, 12, 20] };
        for w in 1..4 {
            let (x, y) = (dense(len, w, cx), dense(len, w + 3, cx));
            let (fx, fy) = (run(&x), run(&y));
            let xy: Vec<C64> = x.iter().zip(&y).map(|(a, b)| a * 2. - b * 3.).collect();
            let fxy = run(&xy);
            c.state(3);
            c.step(3);
            let want: Vec<C64> = fx.iter().zip(&fy).map(|(a, b)| a * 2. - b * 3.).collect();
            let scale = norm_max(&fx).max(norm_max(&fy)).max(norm1(&x) * 1e-2);
            agree(c, "space_superposition", &format!("{op:?}"), &xy, &fxy, &want, |_| scale, eps, 1000. * kap);
            for e in es {
                let f = 10f64.powi(*e);
                let g = run(&scaled(&x, f));
                c.step(1);
                c.state(1);
                let want = scaled(&fx, f);
                agree(c, "space_homogeneity", &format!("{op:?}"), &scaled(&x, f), &g, &want, |_| scale * f, eps, 1000. * kap);
            }
            bail!(c);
        }
        c.trace(1);
    }
}
