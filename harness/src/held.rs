//! C22: the same base, made and held in every way the crate offers.
use crate::arrays::*;
use crate::bases::*;
use crate::erased::*;
use crate::fw::*;
use crate::model::*;
use crate::num::*;
use ndarray::Array2;

fn all_ops(k: Kind, sc: Sc, n: usize) -> Vec<Op> {
    let mut v = ops_of(k, sc);
    v.extend([Op::Grad(4), Op::Grad(5)]);
    if k.fourier() {
        v.push(Op::Grad(9));
    }
    if n < k.min_n() {
        v.retain(|o| !matches!(o, Op::Fwd | Op::From));
    }
    v
}

pub fn c22(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let full = if th { 150 } else { 72 };
    let ex: &[usize] = &[96, 97, 127, 128, 129, 200, 243, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2048];
    for k in KINDS {
        for &sc in scalars(k) {
            ctx.group(&format!("slices {} {}", k.name(), sc.name()));
            for n in sizes(k.min_n_ortho(), full, ex) {
                ctx.case(|| format!("every form of {} {} n={n}, slices", k.name(), sc.name()), |c| slices(c, k, sc, n));
            }
            ctx.group(&format!("matrices {} {}", k.name(), sc.name()));
            if matches!(sc, Sc::F64 | Sc::F32) {
                for n in sizes(k.min_n_ortho(), if th { 100 } else { 40 }, &[63, 64, 65, 100, 128, 129]) {
                    ctx.case(|| format!("every form of {} {} n={n}, matrices", k.name(), sc.name()), |c| mats(c, k, sc, n));
                }
            }
            ctx.group(&format!("arrays {} {}", k.name(), sc.name()));
            for n in sizes(k.min_n(), k.min_n() + if th { 12 } else { 5 }, &[31, 32, 33, 64, 65]) {
                ctx.case(|| format!("every form of {} {} n={n}, arrays", k.name(), sc.name()), |c| arrs(c, k, sc, n));
            }
        }
    }
    let grid: &[usize] = &[4095, 4096, 4097, 8192, 10000, 32768, 65535, 65536, 65537, 100_000];
    for k in [Kind::Cheb, Kind::R2c, Kind::C2c] {
        for sc in [Sc::F64, Sc::F32] {
            ctx.group(&format!("functions of the type {} {}", k.name(), sc.name()));
            for n in sizes(k.min_n(), if th { 3000 } else { 1300 }, grid) {
                ctx.case(|| format!("grid and wavenumbers of the type {} {} n={n}", k.name(), sc.name()), |c| statics(c, k, sc, n));
            }
            if k == Kind::Cheb {
                for n in sizes(2, if th { 140 } else { 70 }, &[128, 129, 200, 256, 257]) {
                    ctx.case(|| format!("matrices of the type chebyshev {} n={n}", sc.name()), |c| static_m(c, sc, n));
                }
            }
        }
    }
}

/// Every way to hold the base, with a name.
fn forms(k: Kind, sc: Sc, n: usize) -> Vec<(&'static str, Box<dyn Bs>)> {
    let mut v: Vec<(&'static str, Box<dyn Bs>)> = vec![];
    v.push(("the concrete type", concrete(k, sc, n)));
    v.push(("a clone that outlives its original", {
        let a = concrete(k, sc, n);
        let b = a.boxed();
        drop(a);
        b
    }));
    v.push(("a clone of a clone of the enum", base(k, sc, n).boxed().boxed()));
    v.push(("one made on another thread", std::thread::spawn(move || concrete(k, sc, n)).join().expect("constructed")));
    if sc == Sc::F64 {
        v.push(("the concrete type wrapped by hand", wrapped(k, n)));
    }
    v
}
fn same(c: &mut Case, b: &dyn Bs, k: Kind, n: usize) {
    c.check(b.len() == (n, k.spec(n), k.orth(n)), || format!("sizes {:?}", b.len()));
}
fn slices(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let r = base(k, sc, n);
    let fs = forms(k, sc, n);
    let (cs, cp) = r.cplx();
    for op in all_ops(k, sc, n) {
        let (li, lo) = op.lens(k, n);
        let cplx = if op.in_phys() { cp } else { cs };
        let mut xs: Vec<Vec<C64>> = (0..if n <= 130 { 3 } else { 1 }).map(|w| dense(li, w, cplx)).collect();
        xs.push(unit(li, li - 1, ONE));
        if n <= 130 {
            xs.push(unit(li, li / 2, ONE));
            xs.push(vec![ZERO; li]);
            xs.push(scaled(&dense(li, 1, cplx), 1e-19));
        }
        for x in xs.iter_mut() {
            x.iter_mut().for_each(|z| *z = q(sc, *z));
            let want = call(&*r, op, x, lo);
            let s = norm_max(&want);
            if !s.is_finite() {
                continue;
            }
            c.step(1);
            for (name, b) in &fs {
                c.state(1);
                c.step(1);
                let got = call(&**b, op, x, lo);
                // results that underflow are not compared relative to their size
                let s = s.max(if sc.f64ish() { 1e-290 } else { 1e-30 });
                let what = format!("{} on {name}", op.name());
                agree(c, "form_vs_enum", &what, x, &got, &want, |_| s, sc.eps(), 64. * kappa(op, k, n) + n as f64);
                if c.failed() {
                    return;
                }
            }
        }
    }
    for (name, b) in &fs {
        same(c, &**b, k, n);
        c.check(b.kind_debug() == r.kind_debug() && b.kind_name() == r.kind_name() && b.tkind() == r.tkind(), || format!("kind of {name}: {}", b.kind_debug()));
        check_grid(c, k, sc, n, &b.coords());
    }
    c.trace(1);
}
fn close(c: &mut Case, what: &str, a: &Array2<C64>, b: &Array2<C64>, eps: f64, n: usize) {
    c.state(1);
    c.check(a.dim() == b.dim(), || format!("{what}: shapes {:?} {:?}", a.dim(), b.dim()));
    if c.failed() {
        return;
    }
    for ((i, x), y) in a.indexed_iter().zip(b) {
        // also equal if both are infinite (single precision)
        if !(x == y || l1(x - y) <= (64. + n as f64) * eps * l1(*y)) {
            c.fail(format!("{what}: entry {i:?} is {x}, elsewhere {y}"));
            return;
        }
    }
}
fn mats(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let r = base(k, sc, n);
    let fs = forms(k, sc, n);
    let mut ms = vec![Mat::Stencil, Mat::StencilInv, Mat::Lap];
    for d in 1..=4 {
        ms.push(Mat::Diff(d));
        if k.fourier() || n > d {
            ms.push(Mat::DiffPinv(d));
        }
    }
    if k.fourier() || n > 2 {
        ms.push(Mat::LapPinv);
    }
    for m in ms {
        let want = r.mat(m);
        c.step(1);
        for (name, b) in &fs {
            let got = b.mat(m);
            c.step(1);
            close(c, &format!("{m:?} of {name}"), &got.0, &want.0, sc.eps(), n);
            if let (Some(a), Some(b)) = (&got.1, &want.1) {
                close(c, &format!("{m:?} (pseudo-identity) of {name}"), a, b, sc.eps(), n);
            }
            if c.failed() {
                return;
            }
        }
    }
    c.trace(1);
}
fn arrs(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let r = base(k, sc, n);
    let fs = forms(k, sc, n);
    let (cs, cp) = r.cplx();
    for op in all_ops(k, sc, n) {
        let (li, lo) = op.lens(k, n);
        let cplx = if op.in_phys() { cp } else { cs };
        let ocplx = if op.out_phys() { cp } else { cs };
        for shape in [vec![0], vec![0, 3], vec![2, 0], vec![2, 0, 3]] {
            let axis = shape.iter().position(|&x| x == 0).unwrap();
            let (mut si, mut so) = (shape.clone(), shape.clone());
            si[axis] = li;
            so[axis] = lo;
            let x = field(&si, 3, cplx, sc);
            let old = field(&so, 5, ocplx, sc);
            for var in VARS {
                for dynamic in [false, true] {
                    let run = |b: &dyn Bs| b.arr(op, var, &x, Lay::C, var.inplace().then_some((&old, Lay::C)), axis, dynamic);
                    let want = run(&*r);
                    c.step(1);
                    for (name, b) in &fs {
                        c.state(1);
                        c.step(1);
                        let got = run(&**b);
                        c.check(got.1 == x, || format!("{} on {name} changed its input", op.name()));
                        c.check(got.0.shape() == want.0.shape(), || format!("{} on {name}: shape {:?}, on the enum {:?}", op.name(), got.0.shape(), want.0.shape()));
                        if c.failed() {
                            return;
                        }
                        let (g, w): (Vec<C64>, Vec<C64>) = (got.0.iter().copied().collect(), want.0.iter().copied().collect());
                        let s = norm_max(&w).max(1e-30);
                        let xv: Vec<C64> = x.iter().copied().collect();
                        agree(c, "form_vs_enum_array", &format!("{} ({var:?}) along {axis} on {name}", op.name()), &xv, &g, &w, |_| s, sc.eps(), 64. * kappa(op, k, n) + n as f64);
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        }
    }
    c.trace(1);
}
fn statics(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let (x, w) = static_grid(k, sc, n);
    c.state(1);
    c.step(2);
    check_grid(c, k, sc, n, &x);
    let y = base(k, sc, n).coords();
    c.check(y.len() == x.len() && x.iter().zip(&y).all(|(a, b)| (a - b).abs() <= (16. + n as f64) * sc.eps() * b.abs().max(1e-3)), || "nodes(n) are not the coordinates of the base".into());
    if let Some(w) = w {
        let m = k.spec(n);
        c.check(w.len() == m, || format!("{} wavenumbers instead of {m}", w.len()));
        if c.failed() {
            return;
        }
        for (j, z) in w.iter().enumerate() {
            // storage order 0, 1, .., -2, -1; of an even length the middle one is negative
            let want = if k == Kind::C2c && j > (n - 1) / 2 { j as f64 - n as f64 } else { j as f64 };
            c.check(z.re == 0. && z.im == want, || format!("wavenumber {j} of {n} is {z}, expected {want}i"));
            if c.failed() {
                return;
            }
        }
    }
    c.trace(1);
}
fn static_m(c: &mut Case, sc: Sc, n: usize) {
    let b = base(Kind::Cheb, sc, n);
    for d in 1..=4 {
        let (dm, p) = static_mats(sc, n, d);
        c.step(2);
        close(c, &format!("_dmat({n}, {d})"), &dm, &b.mat(Mat::Diff(d)).0, sc.eps(), n);
        if let Some((p, i)) = p {
            let (wp, wi) = b.mat(Mat::DiffPinv(d));
            close(c, &format!("_pinv({n}, {d})"), &p, &wp, sc.eps(), n);
            close(c, &format!("_pinv_eye({n}, {d})"), &i, &wi.unwrap(), sc.eps(), n);
            c.step(2);
        }
        if c.failed() {
            return;
        }
    }
    c.trace(1);
}
