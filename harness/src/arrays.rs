//! C07, C08, C11, C19: operations on arrays of any shape, spaces, refusals and memory safety.
use crate::alloc::*;
use crate::bases::*;
use crate::erased::*;
use crate::fw::*;
use crate::model::*;
use crate::num::*;
use ndarray::{ArrayD, IxDyn};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// growth of rounding errors of an operation's solve
pub fn kappa(op: Op, k: Kind, n: usize) -> f64 {
    let f = n as f64;
    match (op, k) {
        (Op::Fwd | Op::From, Kind::Dir | Kind::DirNeu | Kind::Neu) => 1. + f * f / 16.,
        (Op::Fwd | Op::From, Kind::BihA | Kind::BihB) => 1. + f.powi(4) / 16.,
        _ => 1.,
    }
}

/// Array with entries that differ in every position.
pub fn field(shape: &[usize], which: usize, cplx: bool, sc: Sc) -> ArrayD<C64> {
    let len = shape.iter().product();
    let v = (0..len)
        .map(|i: usize| {
            let a = ((i * i * 7 + i * 13 + which * 5 + 3) % 101) as f64 - 50.5;
            let b = ((i * i * 3 + i * 29 + which * 11 + 7) % 97) as f64 - 48.25;
            q(sc, C64::new(a, if cplx { b } else { 0. }))
        })
        .collect();
    arrd(shape, v)
}

/// Multiply every lane along `axis` by its own power of ten.
fn spread(x: &mut ArrayD<C64>, axis: usize, sc: Sc) {
    let sh = x.shape().to_vec();
    for (idx, v) in x.indexed_iter_mut() {
        let mut l = 0;
        for d in 0..sh.len() {
            if d != axis {
                l = l * sh[d] + idx[d];
            }
        }
        *v = q(sc, *v * 10f64.powi([0, -9, 7, -20, 14, 3, -5][l % 7]));
    }
}

/// Kinds of content a lane may have.
pub const CONTENTS: usize = 6;
/// Give lane number `l` along `axis` the content `pat[l % pat.len()]`: 0 dense, 1 zero, 2 a copy of
/// the previous lane, 3 only the last entry, 4 tiny, 5 constant.
pub fn contents(x: &mut ArrayD<C64>, axis: usize, pat: &[usize], sc: Sc) {
    let tiny = if sc.f64ish() { 1e-60 } else { 1e-20 };
    let mut prev: Vec<C64> = vec![];
    for (l, mut lane) in x.lanes_mut(ndarray::Axis(axis)).into_iter().enumerate() {
        let n = lane.len();
        for i in 0..n {
            let v = lane[i];
            lane[i] = q(
                sc,
                match pat[l % pat.len()] {
                    0 => v,
                    1 => C64::new(0., 0.),
                    2 if !prev.is_empty() => prev[i],
                    2 => v,
                    3 if i + 1 == n => v,
                    3 => C64::new(0., 0.),
                    4 => v * tiny,
                    _ => C64::new(2.5, 0.),
                },
            );
        }
        prev = lane.to_vec();
    }
}
/// A cyclic pattern in which every content follows several others.
pub const MIXED: [usize; 11] = [0, 1, 4, 2, 3, 0, 5, 1, 0, 2, 4];
pub fn mixed(x: &mut ArrayD<C64>, axis: usize, shift: usize, sc: Sc) {
    let p: Vec<usize> = (0..MIXED.len()).map(|i| MIXED[(i + shift) % MIXED.len()]).collect();
    contents(x, axis, &p, sc);
}

/// Compare lane by lane, each relative to its own magnitude.
#[allow(clippy::too_many_arguments)]
pub fn agree_lanes(c: &mut Case, what: &str, name: &str, x: &ArrayD<C64>, got: &ArrayD<C64>, want: &ArrayD<C64>, axis: usize, eps: f64, tol: f64, gain: f64) -> bool {
    if got.shape() != want.shape() {
        c.fail(format!("{what}: {name} of an array of shape {:?} gives shape {:?}, expected {:?}", x.shape(), got.shape(), want.shape()));
        return false;
    }
    let ax = ndarray::Axis(axis);
    for (l, ((g, w), xi)) in got.lanes(ax).into_iter().zip(want.lanes(ax)).zip(x.lanes(ax)).enumerate() {
        let nm = |v: ndarray::ArrayView1<C64>| v.iter().map(|z| l1(*z)).fold(0., f64::max);
        let s = nm(w.view()).max(nm(xi.view()) * gain);
        if !s.is_finite() {
            continue; // a lane of non-finite values only has to keep to itself
        }
        for (i, (a, b)) in g.iter().zip(w.iter()).enumerate() {
            let d = a - b;
            let e = d.re.abs().max(d.im.abs());
            let r = if e == 0. { 0. } else { e / (eps * s) };
            c.max(&format!("worst_{what}_in_eps"), if r.is_finite() { r } else { 0. });
            if !(r <= tol) {
                c.fail(format!("{what}: {name} on shape {:?} along axis {axis}, lane {l}, entry {i}: {a} instead of {b} ({r:.2e} eps, allowed {tol:.1e})", x.shape()));
                return false;
            }
        }
    }
    true
}

/// Shapes with `n` in place of the axis, as (shape, axis).
pub fn shapes(n: usize, th: bool) -> Vec<(Vec<usize>, usize)> {
    let mut others: Vec<Vec<usize>> = vec![vec![]];
    for m in (0..=9).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 257]) {
        others.push(vec![m]);
    }
    for a in 0..=3 {
        for b in 0..=3 {
            others.push(vec![a, b]);
        }
    }
    others.extend([vec![5, 7], vec![16, 4], vec![33, 2], vec![9, 15]]);
    others.extend([vec![1, 1, 1], vec![2, 1, 3], vec![2, 2, 2], vec![0, 2, 1], vec![3, 2, 2], vec![1, 4, 2]]);
    others.push(vec![2, 1, 2, 2]);
    if th {
        for m in 10..=70 {
            others.push(vec![m]);
        }
        others.extend([vec![513], vec![1025], vec![4, 4], vec![5, 5], vec![8, 8], vec![17, 3], vec![2, 3, 4], vec![4, 3, 2], vec![1, 3, 1, 2, 2]]);
    }
    let mut out = vec![];
    for o in others {
        for axis in 0..=o.len() {
            let mut s = o.clone();
            s.insert(axis, n);
            out.push((s, axis));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// C07
// ---------------------------------------------------------------------------------------------
pub fn c07(ctx: &mut Ctx) {
    let th = ctx.thorough();
    for k in KINDS {
        for &sc in scalars(k) {
            ctx.group(&format!("{} {}", k.name(), sc.name()));
            let mut ns: Vec<usize> = (k.min_n()..k.min_n() + if th { 12 } else { 5 }).collect();
            if sc.f64ish() {
                ns.extend([16, 17, 32, 33]);
            }
            ns.retain(|n| *n >= k.min_n());
            ns.sort();
            ns.dedup();
            for n in ns {
                ctx.case(|| format!("lanes {} {} n={n}", k.name(), sc.name()), |c| c07_case(c, k, sc, n));
            }
            for n in [k.min_n(), k.min_n() + 1, k.min_n() + 4] {
                ctx.case(|| format!("lane contents {} {} n={n}", k.name(), sc.name()), |c| c07_contents(c, k, sc, n));
            }
            let others: &[&[usize]] = &[&[513], &[600], &[1025], &[2049], &[4097], &[10_000], &[33, 40], &[2, 700], &[700, 2], &[40, 30, 2], &[70, 81]];
            for (oi, o) in others.iter().enumerate() {
                if sc != Sc::F64 && !th && oi % 3 != 0 {
                    continue;
                }
                ctx.case(|| format!("many lanes {} {} {o:?}", k.name(), sc.name()), |c| c07_large(c, k, sc, k.min_n() + 1 + oi % 2, o));
            }
            for n in [64usize, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2049] {
                let o: &[&[usize]] = if n > 300 { &[&[3], &[1, 2]] } else { &[&[3], &[2, 2], &[40], &[130]] };
                if sc != Sc::F64 && !th && n % 2 == 0 {
                    continue;
                }
                ctx.case(|| format!("long lanes {} {} n={n}", k.name(), sc.name()), |c| {
                    for o in o {
                        c07_large(c, k, sc, n, o);
                    }
                });
            }
        }
    }
}
/// Every assignment of contents to up to three lanes, results written over old values.
fn c07_contents(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let b = base(k, sc, n);
    let (cs, cp) = b.cplx();
    let eps = sc.eps();
    let most = if c.tier == Tier::Thorough { 4 } else { 3 };
    for (oi, op) in ops_of(k, sc).into_iter().enumerate() {
        let (il, ol) = op.lens(k, n);
        let (cin, cout) = if op.in_phys() { (cp, cs) } else if op.out_phys() { (cs, cp) } else { (cs, cs) };
        let tol = 64. * kappa(op, k, n);
        let gain = if let Op::Grad(d) = op { (n as f64).powi(d as i32) } else { 1. };
        for lanes in 1..=most {
            for t in 0..CONTENTS.pow(lanes as u32) {
                let pat: Vec<usize> = (0..lanes).map(|i| t / CONTENTS.pow(i as u32) % CONTENTS).collect();
                let others: &[usize] = if lanes == 1 && t % 2 == 0 { &[] } else { &[lanes] };
                for axis in 0..=others.len() {
                    let (mut sh, mut so) = (others.to_vec(), others.to_vec());
                    sh.insert(axis, il);
                    so.insert(axis, ol);
                    let mut x = field(&sh, oi, cin, sc);
                    contents(&mut x, axis, &pat, sc);
                    let want = lanewise(&x, axis, ol, |l| call(&*b, op, l, ol));
                    let g = field(&so, oi + 1, cout, sc).mapv(|z| z * 1e3 + C64::new(7e5, if cout { -3e5 } else { 0. }));
                    c.state(1);
                    for v in [Var::Alloc, Var::Inplace] {
                        let (y, xa) = b.arr(op, v, &x, Lay::C, if v.inplace() { Some((&g, Lay::C)) } else { None }, axis, t % 2 == 1);
                        c.step(1);
                        agree_lanes(c, "lanes", &format!("{} {v:?} with contents {pat:?}", op.name()), &x, &y, &want, axis, eps, tol, gain);
                        c.check(xa == x, || format!("{} {v:?} on shape {sh:?} along axis {axis} modified its input", op.name()));
                        bail!(c);
                    }
                    c.trace(1);
                }
            }
        }
    }
}
/// Many lanes, or long ones.
fn c07_large(c: &mut Case, k: Kind, sc: Sc, n: usize, others: &[usize]) {
    let b = base(k, sc, n);
    let (cs, cp) = b.cplx();
    for (oi, op) in ops_of(k, sc).into_iter().enumerate() {
        let (il, ol) = op.lens(k, n);
        let (cin, cout) = if op.in_phys() { (cp, cs) } else if op.out_phys() { (cs, cp) } else { (cs, cs) };
        let tol = 64. * kappa(op, k, n);
        let gain = if let Op::Grad(d) = op { (n as f64).powi(d as i32) } else { 1. };
        for axis in 0..=others.len() {
            let (mut sh, mut so) = (others.to_vec(), others.to_vec());
            sh.insert(axis, il);
            so.insert(axis, ol);
            let mut x = field(&sh, oi, cin, sc);
            if (oi + axis) % 2 == 0 {
                mixed(&mut x, axis, oi + n, sc);
            } else {
                spread(&mut x, axis, sc);
            }
            let want = lanewise(&x, axis, ol, |l| call(&*b, op, l, ol));
            let g = field(&so, oi + 1, cout, sc).mapv(|z| z * 1e3 + C64::new(7e5, if cout { -3e5 } else { 0. }));
            c.state(1);
            for (v, a, o) in [(Var::Alloc, Lay::C, Lay::C), (Var::Inplace, Lay::C, Lay::C), (Var::Inplace, Lay::Sub, Lay::Sub)] {
                let (y, xa) = b.arr(op, v, &x, a, if v.inplace() { Some((&g, o)) } else { None }, axis, (oi + axis) % 2 == 1);
                c.step(1);
                agree_lanes(c, "lanes", &format!("{} {v:?} {a:?}", op.name()), &x, &y, &want, axis, sc.eps(), tol, gain);
                c.check(xa == x, || format!("{} {v:?} on shape {sh:?} along axis {axis} modified its input", op.name()));
                bail!(c);
            }
            c.trace(1);
        }
    }
}
fn c07_case(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let b = base(k, sc, n);
    let (cs, cp) = b.cplx();
    let eps = sc.eps();
    let th = c.tier == Tier::Thorough;
    for (oi, op) in ops_of(k, sc).into_iter().enumerate() {
        let (il, ol) = op.lens(k, n);
        let (cin, cout) = if op.in_phys() { (cp, cs) } else if op.out_phys() { (cs, cp) } else { (cs, cs) };
        let tol = 64. * kappa(op, k, n);
        let gain = if let Op::Grad(d) = op { (n as f64).powi(d as i32) } else { 1. };
        for (si, (shape, axis)) in shapes(il, th).into_iter().enumerate() {
            let mut x = field(&shape, oi, cin, sc);
            match si % 3 {
                1 => spread(&mut x, axis, sc),
                2 => mixed(&mut x, axis, si + oi, sc),
                _ => {}
            }
            let want = lanewise(&x, axis, ol, |l| call(&*b, op, l, ol));
            let mut oshape = shape.clone();
            oshape[axis] = ol;
            let g = field(&oshape, oi + 1, cout, sc).mapv(|z| z * 1e3 + C64::new(7e5, if cout { -3e5 } else { 0. }));
            c.state(1);
            let lays: &[(Lay, Lay)] = &[(Lay::C, Lay::C), (Lay::Sub, Lay::Sub), (Lay::F, Lay::C), (Lay::C, Lay::F), (Lay::Strided, Lay::C), (Lay::C, Lay::Strided), (Lay::Reversed, Lay::Reversed)];
            for (li, &(a, o)) in lays.iter().enumerate() {
                if li > 1 && (si + oi + li) % 5 != 0 && !th {
                    continue;
                }
                for v in [Var::Alloc, Var::Inplace] {
                    let dynamic = (si + li) % 3 == 0;
                    let name = format!("{} {v:?} {a:?}/{o:?}", op.name());
                    let standard = matches!(a, Lay::C | Lay::Sub) && (matches!(o, Lay::C | Lay::Sub) || v == Var::Alloc);
                    let r = catch_unwind(AssertUnwindSafe(|| b.arr(op, v, &x, a, if v.inplace() { Some((&g, o)) } else { None }, axis, dynamic)));
                    c.step(1);
                    match r {
                        Ok((y, xa)) => {
                            agree_lanes(c, "lanes", &name, &x, &y, &want, axis, eps, tol, gain);
                            c.check(xa == x, || format!("{name} on shape {shape:?} along axis {axis} modified its input"));
                        }
                        Err(e) => {
                            // arrays that are not laid out row by row may be refused
                            if standard {
                                c.fail(format!("{name} on shape {shape:?} along axis {axis} panicked: {}", simrt::panic_msg(&*e)));
                            } else {
                                c.add("layouts_refused", 1);
                            }
                        }
                    }
                    bail!(c);
                }
            }
            c.trace(1);
            // a lane of non-finite values keeps to itself
            let lanes: usize = shape.iter().enumerate().filter(|(d, _)| *d != axis).map(|(_, s)| *s).product();
            if lanes > 1 && lanes <= 40 && shape.len() <= 3 {
                for bad in [f64::NAN, f64::INFINITY] {
                    let at = (si * 3 + 1) % lanes;
                    let mut y = x.clone();
                    let mut l = 0;
                    for mut lane in y.lanes_mut(ndarray::Axis(axis)) {
                        if l == at {
                            let i = si % lane.len();
                            lane[i] = C64::new(bad, 0.);
                        }
                        l += 1;
                    }
                    let mut w = want.clone();
                    for (l, mut lane) in w.lanes_mut(ndarray::Axis(axis)).into_iter().enumerate() {
                        if l == at {
                            lane.fill(C64::new(f64::NAN, 0.));
                        }
                    }
                    // mark the bad lane of the input so that it is skipped
                    let (r, _) = b.arr(op, Var::Alloc, &y, Lay::C, None, axis, false);
                    c.step(1);
                    for (l, ((a, b), xi)) in r.lanes(ndarray::Axis(axis)).into_iter().zip(w.lanes(ndarray::Axis(axis))).zip(y.lanes(ndarray::Axis(axis))).enumerate() {
                        if l == at {
                            continue;
                        }
                        let s = b.iter().chain(xi.iter()).map(|z| l1(*z)).fold(0., f64::max) * gain;
                        for (p, q) in a.iter().zip(b.iter()) {
                            let e = l1(p - q);
                            c.check(e <= 2. * tol * eps * s, || format!("{} on shape {shape:?} along axis {axis}: lane {l} is affected by {bad} in lane {at}", op.name()));
                        }
                    }
                    bail!(c);
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C08
// ---------------------------------------------------------------------------------------------
/// Size choices for the axes of a combination of bases.
fn size_choices(kinds: &[Kind], th: bool) -> Vec<Vec<usize>> {
    let mn: Vec<usize> = kinds.iter().map(|k| k.min_n()).collect();
    let mut out: Vec<Vec<usize>> = vec![];
    let d = kinds.len();
    let top = *mn.iter().max().unwrap();
    // pairwise distinct, increasing and decreasing; equal; equal spectral-size collisions
    out.push((0..d).map(|i| mn[i] + [0, 1, 3][i]).collect());
    out.push((0..d).map(|i| mn[i] + [3, 1, 0][i]).collect());
    out.push(vec![top.max(3); d]);
    out.push(vec![top.max(3) + 1; d]);
    if d == 2 {
        out.push(vec![top + 2, top]);
        out.push(vec![top, top + 2]);
        out.push(vec![33.max(top), 12.max(top)]);
        out.push(vec![12.max(top), 34.max(top)]);
        if th {
            for a in 0..4 {
                for b in 0..4 {
                    out.push(vec![mn[0] + a, mn[1] + b]);
                }
            }
            out.push(vec![64, 65]);
            out.push(vec![65, 64]);
        }
    }
    if d == 1 {
        for a in 0..if th { 24 } else { 8 } {
            out.push(vec![mn[0] + a]);
        }
        out.push(vec![64]);
        out.push(vec![65]);
    }
    if d == 3 && th {
        out.push((0..d).map(|i| mn[i] + [1, 0, 4][i]).collect());
        out.push((0..d).map(|i| mn[i] + [2, 5, 0][i]).collect());
    }
    out.sort();
    out.dedup();
    out
}
pub fn kind_combos() -> Vec<Vec<Kind>> {
    let mut out = vec![];
    for a in KINDS {
        out.push(vec![a]);
        for b in KINDS {
            if matches!((a, b), (Kind::R2c, x) if x.r2r()) || (a.r2r() && b.r2r()) || (a == Kind::C2c && b.fourier()) {
                out.push(vec![a, b]);
            }
            for d in KINDS {
                let ok = match (a, b, d) {
                    (Kind::C2c, Kind::C2c, x) => x.fourier(),
                    (Kind::C2c, Kind::R2c, x) => x.r2r(),
                    (Kind::R2c, x, y) => x.r2r() && y.r2r(),
                    (x, y, z) => x.r2r() && y.r2r() && z.r2r(),
                };
                if ok {
                    out.push(vec![a, b, d]);
                }
            }
        }
    }
    out
}
pub fn c08(ctx: &mut Ctx) {
    let th = ctx.thorough();
    for kinds in kind_combos() {
        ctx.group(&format!("{} axes", kinds.len()));
        let scs: &[Sc] = if kinds.len() < 3 || th || kinds.iter().map(|k| *k as usize).sum::<usize>() % 4 == 0 { &[Sc::F64, Sc::F32] } else { &[Sc::F64] };
        for &sc in scs {
            let ch = size_choices(&kinds, th);
            let ch = if sc == Sc::F32 && !th { ch[..1].to_vec() } else { ch };
            for ns in ch {
                let sp: Combo = kinds.iter().copied().zip(ns).collect();
                ctx.case(|| format!("space {} {}", combo_name(&sp), sc.name()), |c| c08_case(c, &sp, sc, true));
            }
            // long axes, one at a time and together
            let large: &[&[usize]] = match kinds.len() {
                1 => &[&[129], &[260], &[513]],
                2 => &[&[50, 6], &[6, 50], &[65, 33], &[17, 66], &[130, 5], &[5, 131], &[260, 4]],
                _ => &[&[18, 5, 6], &[5, 34, 6], &[6, 5, 50], &[20, 19, 5], &[34, 18, 17]],
            };
            for (i, ns) in large.iter().enumerate() {
                if !th && (sc == Sc::F32 || kinds.len() == 3) && i % 2 == 1 {
                    continue;
                }
                let sp: Combo = kinds.iter().copied().zip(ns.iter().copied()).map(|(k, n)| (k, n.max(k.min_n()))).collect();
                ctx.case(|| format!("long axes {} {}", combo_name(&sp), sc.name()), |c| c08_case(c, &sp, sc, false));
            }
        }
        ctx.group(&format!("scales, {} axes", kinds.len()));
        let ns: Vec<usize> = kinds.iter().enumerate().map(|(i, k)| k.min_n() + [1, 0, 2][i]).collect();
        let sp: Combo = kinds.iter().copied().zip(ns).collect();
        ctx.case(|| format!("scales of {}", combo_name(&sp)), |c| c08_scales(c, &sp, th));
    }
    if cfg!(feature = "no_space_to_ortho") {
        ctx.case(|| "allocating to_ortho of a space".into(), |c| c.fail("the allocating to_ortho of a space cannot be called: no type satisfies its bounds"));
    }
}
/// 1D base along one axis for coefficients of a space
pub fn axis_bases(sp: &Combo, sc: Sc, spectral_complex: bool) -> Vec<Box<dyn Bs>> {
    sp.iter()
        .map(|&(k, n)| {
            let z = match sc {
                Sc::F64 | Sc::Z64 => Sc::Z64,
                _ => Sc::Z32,
            };
            base(k, if k.r2r() && spectral_complex { z } else { sc }, n)
        })
        .collect()
}
/// The definition: compose the one-dimensional operations axis by axis.
pub fn separable(sp: &Combo, sc: Sc, op: &SOp, x: &ArrayD<C64>, cplx: bool) -> ArrayD<C64> {
    let d = sp.len();
    let rb: Vec<Box<dyn Bs>> = sp.iter().map(|&(k, n)| base(k, sc, n)).collect();
    let zb = axis_bases(sp, sc, cplx);
    let mut y = x.clone();
    match op {
        SOp::Fwd => {
            for ax in (0..d).rev() {
                let ol = sp[ax].0.spec(sp[ax].1);
                y = lanewise(&y, ax, ol, |l| call(&*rb[ax], Op::Fwd, l, ol));
            }
        }
        SOp::Bwd => {
            for ax in 0..d {
                let ol = sp[ax].1;
                y = lanewise(&y, ax, ol, |l| call(&*rb[ax], Op::Bwd, l, ol));
            }
        }
        SOp::To => {
            for ax in 0..d {
                let ol = sp[ax].0.orth(sp[ax].1);
                y = lanewise(&y, ax, ol, |l| call(&*zb[ax], Op::To, l, ol));
            }
        }
        SOp::From => {
            for ax in (0..d).rev() {
                let ol = sp[ax].0.spec(sp[ax].1);
                y = lanewise(&y, ax, ol, |l| call(&*zb[ax], Op::From, l, ol));
            }
        }
        SOp::Grad(o, s) => {
            for ax in 0..d {
                let ol = sp[ax].0.orth(sp[ax].1);
                y = lanewise(&y, ax, ol, |l| call(&*zb[ax], Op::Grad(o[ax]), l, ol));
            }
            if let Some(s) = s {
                let f: f64 = s.iter().zip(o).map(|(s, o)| s.powi(*o as i32)).product();
                y.mapv_inplace(|z| z / f);
            }
        }
    }
    y
}
pub fn sop_shapes<'a>(op: &SOp, p: &'a Vec<usize>, m: &'a Vec<usize>, o: &'a Vec<usize>) -> (&'a Vec<usize>, &'a Vec<usize>) {
    match op {
        SOp::Fwd => (p, m),
        SOp::Bwd => (m, p),
        SOp::To | SOp::Grad(..) => (m, o),
        SOp::From => (o, m),
    }
}
pub fn sop_name(op: &SOp) -> String {
    match op {
        SOp::Fwd => "forward".into(),
        SOp::Bwd => "backward".into(),
        SOp::To => "to_ortho".into(),
        SOp::From => "from_ortho".into(),
        SOp::Grad(o, s) => format!("gradient({o:?}, {s:?})"),
    }
}
pub fn sop_variants(op: &SOp) -> &'static [Var] {
    match op {
        SOp::Grad(..) => &[Var::Alloc, Var::Par],
        SOp::To if cfg!(feature = "no_space_to_ortho") => &[Var::Inplace, Var::InplacePar],
        _ => &VARS,
    }
}
/// Scales over which all tuples are enumerated.
pub const SCALES: [f64; 8] = [1., 2., -0.5, -1., 0.1, 3., 1e3, 1.0000001];
/// All tuples of scales and of derivative orders on one small space.
fn c08_scales(c: &mut Case, sp: &Combo, th: bool) {
    let sc = Sc::F64;
    let s = space(sp, sc).expect("admissible");
    let (cs, _) = s.cplx();
    let (_, m, _) = s.shapes();
    let d = sp.len();
    let alpha = &SCALES[..[8, if th { 8 } else { 6 }, if th { 6 } else { 4 }][d - 1]];
    let top: usize = [5, 3, 2][d - 1];
    let x = field(&m, 1, cs, sc);
    for t in 0..(top + 1).pow(d as u32) {
        let ord: Vec<usize> = (0..d).map(|i| t / (top + 1).pow(i as u32) % (top + 1)).collect();
        let unscaled = separable(sp, sc, &SOp::Grad(ord.clone(), None), &x, cs);
        let mut size = norm_max(&flat(&x));
        for ax in 0..d {
            size *= if ord[ax] > 0 && sp[ax].0.r2r() { (sp[ax].1 as f64).powi(ord[ax] as i32) } else { 1. };
        }
        for u in 0..alpha.len().pow(d as u32) {
            let scale: Vec<f64> = (0..d).map(|i| alpha[u / alpha.len().pow(i as u32) % alpha.len()]).collect();
            let f: f64 = scale.iter().zip(&ord).map(|(s, o)| s.powi(*o as i32)).product();
            let want = unscaled.mapv(|z| z / f);
            c.state(1);
            for v in [Var::Alloc, Var::Par] {
                let (y, _) = s.op(SOp::Grad(ord.clone(), Some(scale.clone())), v, &x, Lay::C, None);
                c.step(1);
                let sz = norm_max(&flat(&want)).max(size / f.abs());
                agree(c, "scales", &format!("gradient({ord:?}, {scale:?}) {v:?}"), &flat(&x), &flat(&y), &flat(&want), |_| sz, sc.eps(), 128.);
                bail!(c);
            }
        }
        c.trace(1);
    }
}
/// Every operation on a space; for long axes (`full` unset) with fewer derivatives and contents.
fn c08_case(c: &mut Case, sp: &Combo, sc: Sc, full: bool) {
    meta_space(c, sp, sc);
    bail!(c);
    let s = space(sp, sc).expect("admissible");
    let (cs, cp) = s.cplx();
    let (p, m, o) = s.shapes();
    let d = sp.len();
    let eps = sc.eps();
    let mut ops = vec![SOp::Fwd, SOp::Bwd, SOp::To, SOp::From];
    // every combination of derivative orders, several scalings
    let top = if d == 3 { 2 } else { 4 };
    let total = (top + 1usize).pow(d as u32);
    for t in 0..total {
        let mut r = t;
        let ord: Vec<usize> = (0..d)
            .map(|_| {
                let v = r % (top + 1);
                r /= top + 1;
                v
            })
            .collect();
        if !full && ord.iter().sum::<usize>() > 2 && ord.iter().any(|o| *o != 1) {
            continue;
        }
        let scales: Vec<Option<Vec<f64>>> = vec![
            None,
            Some(vec![2.0, 0.5, 3.0][..d].to_vec()),
            Some(vec![-1.5, 4.0, 0.25][..d].to_vec()),
            Some(vec![1.0, 1.0, 7.0][3 - d..].to_vec()),
            Some(vec![0.01, 100.0, -10.0][..d].to_vec()),
        ];
        for (i, s) in scales.into_iter().enumerate() {
            if full && (i < 2 || c.tier == Tier::Thorough || (t + i) % 3 == 0) || !full && i == t % 2 {
                ops.push(SOp::Grad(ord.clone(), s));
            }
        }
    }
    if full && d < 3 {
        ops.push(SOp::Grad(vec![7; d], None));
        ops.push(SOp::Grad([vec![5, 1], vec![5]][2 - d].clone(), Some(vec![2.; d])));
    }
    for (oi, op) in ops.iter().enumerate() {
        let (ish, osh) = sop_shapes(op, &p, &m, &o);
        let (cin, cout) = match op {
            SOp::Fwd => (cp, cs),
            SOp::Bwd => (cs, cp),
            _ => (cs, cs),
        };
        let kap: f64 = sp.iter().map(|x| kappa(if matches!(op, SOp::Fwd) { Op::Fwd } else if matches!(op, SOp::From) { Op::From } else { Op::To }, x.0, x.1)).product();
        if kap * eps > 1e-4 {
            continue;
        }
        for which in 0..4 + d {
            if !full && which > 1 && which != 3 + oi % (1 + d) {
                continue;
            }
            let mut x = field(ish, which + oi, cin, sc);
            match which {
                0 | 1 => {}
                2 => x.fill(C64::new(0., 0.)),
                // a single entry
                3 => {
                    let len = x.len();
                    for (i, v) in x.iter_mut().enumerate() {
                        if i != (oi * 7 + 3) % len {
                            *v = C64::new(0., 0.);
                        }
                    }
                }
                w => contents(&mut x, w - 4, &[0, 1, 0, 2, 1, 3, 5], sc),
            }
            if which > 1 && c.tier == Tier::Quick && matches!(op, SOp::Grad(..)) && (oi + which) % 4 != 0 {
                continue;
            }
            let want = separable(sp, sc, op, &x, cs);
            // derivatives cancel: scale by what enters the result
            let mut scale = norm_max(&flat(&want));
            if let SOp::Grad(ord, s) = op {
                let mut f: f64 = norm_max(&flat(&x));
                for ax in 0..d {
                    f *= if ord[ax] > 0 && sp[ax].0.r2r() { (sp[ax].1 as f64).powi(ord[ax] as i32) } else { 1. };
                    if let Some(s) = s {
                        f /= s[ax].abs().powi(ord[ax] as i32);
                    }
                }
                scale = scale.max(f);
            } else {
                scale = scale.max(norm_max(&flat(&x)) * if matches!(op, SOp::From | SOp::Fwd) { 1. } else { 1e-3 });
            }
            c.state(1);
            for &v in sop_variants(op) {
                let lay = if which != 1 { Lay::C } else { Lay::Sub };
                let g = field(osh, oi + 3, cout, sc).mapv(|z| z * 1e3 + C64::new(9e5, 0.));
                let (y, xa) = s.op(op.clone(), v, &x, lay, if v.inplace() { Some((&g, lay)) } else { None });
                c.step(1);
                let name = format!("{} {v:?}", sop_name(op));
                if y.shape() != &osh[..] {
                    c.fail(format!("{name} gives shape {:?}, expected {osh:?}", y.shape()));
                    return;
                }
                agree(c, "separable", &name, &flat(&x), &flat(&y), &flat(&want), |_| scale, eps, 128. * kap);
                c.check(xa == x, || format!("{name} modified its input"));
                bail!(c);
            }
            c.trace(1);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C11
// ---------------------------------------------------------------------------------------------
pub fn c11(ctx: &mut Ctx) {
    let th = ctx.thorough();
    for k in KINDS {
        for &sc in scalars(k) {
            ctx.group(&format!("slices {} {}", k.name(), sc.name()));
            let top = k.min_n_ortho() + if th { 14 } else { 7 };
            for n in (k.min_n_ortho()..=top).chain([31, 32, 33, 64]) {
                ctx.case(|| format!("guarded slices {} {} n={n}", k.name(), sc.name()), |c| c11_slices(c, k, sc, n));
            }
            ctx.group(&format!("arrays {} {}", k.name(), sc.name()));
            for n in (k.min_n()..k.min_n() + if th { 6 } else { 3 }).chain([17]) {
                ctx.case(|| format!("guarded arrays {} {} n={n}", k.name(), sc.name()), |c| c11_arrays(c, k, sc, n));
            }
        }
    }
    ctx.group("spaces");
    for kinds in kind_combos() {
        for sc in [Sc::F64, Sc::F32] {
            if sc == Sc::F32 && kinds.len() > 1 && !th {
                continue;
            }
            for ns in &size_choices(&kinds, false)[..if th { 3 } else { 1 }.min(size_choices(&kinds, false).len())] {
                let sp: Combo = kinds.iter().copied().zip(ns.iter().copied()).collect();
                ctx.case(|| format!("refusals of space {} {}", combo_name(&sp), sc.name()), |c| c11_space(c, &sp, sc));
            }
        }
    }
}
struct Raw {
    p: *mut u8,
    bytes: usize,
    fill: u8,
    at_end: bool,
}
impl Raw {
    fn new(bytes: usize, align: usize, at_end: bool, fill: u8) -> Raw {
        set_mode(0, fill);
        let p = unsafe { guarded_alloc(bytes, align, at_end) };
        assert!(!p.is_null(), "MACHINERY: guarded memory");
        reset();
        Raw { p, bytes, fill, at_end }
    }
    /// memory of the same page outside the block
    fn slack_ok(&self) -> bool {
        let start = self.p as usize / 4096 * 4096;
        let data = ((self.bytes + 4095) / 4096 * 4096).max(4096);
        let (a, b) = if self.at_end { (start, self.p as usize) } else { (self.p as usize + self.bytes, start + data) };
        unsafe { std::slice::from_raw_parts(a as *const u8, b - a).iter().all(|x| *x == self.fill) }
    }
    fn bytes(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.p, self.bytes).to_vec() }
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        unsafe { guarded_free(self.p, self.bytes) }
    }
}
fn c11_slices(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let plain = base(k, sc, n);
    for (mode, fill) in [(1u8, 0xFFu8), (2, 0xFF), (1, 0x00), (1, 0x3C)] {
        let at_end = mode == 1;
        let b = with_guards(mode, fill, || base(k, sc, n));
        for op in ops_of(k, sc) {
            // the solve for composite coefficients needs a minimal size
            if n < k.min_n() && matches!(op, Op::Fwd | Op::From) {
                continue;
            }
            let (il, ol) = op.lens(k, n);
            let ((si, ai), (so, ao)) = b.elem(op);
            let full = n <= k.min_n_ortho() + 7 && fill == 0xFF;
            let mut pairs = vec![(il, ol)];
            if full {
                for a in 0..=il + 3 {
                    for d in 0..=ol + 3 {
                        pairs.push((a, d));
                    }
                }
            }
            for w in [-2i64, -1, 1, 2, 7] {
                pairs.push(((il as i64 + w).max(0) as usize, ol));
                pairs.push((il, (ol as i64 + w).max(0) as usize));
                pairs.push(((il as i64 + w).max(0) as usize, (ol as i64 + w).max(0) as usize));
            }
            pairs.push((2 * il, 2 * ol));
            pairs.push((ol, il));
            pairs.push((il, ol));
            let cx = if op.in_phys() { b.cplx().1 } else { b.cplx().0 };
            for (a, d) in pairs {
                let x = dense(a, 3, cx);
                let (xi, yo) = (Raw::new(a * si, ai, at_end, fill), Raw::new(d * so, ao, at_end, fill));
                let before;
                unsafe {
                    b.enc(op, true, &x, xi.p);
                    b.enc(op, false, &garbage(d), yo.p);
                    before = xi.bytes();
                }
                let r = with_guards(mode, fill, || catch_unwind(AssertUnwindSafe(|| unsafe { b.raw(op, xi.p, a, yo.p, d) })).is_ok());
                c.state(1);
                c.step(1);
                c.check(xi.bytes() == before, || format!("{} with lengths {a} -> {d} modified its input", op.name()));
                c.check(xi.slack_ok() && yo.slack_ok(), || format!("{} with lengths {a} -> {d} wrote outside its slices", op.name()));
                if (a, d) == (il, ol) {
                    c.check(r, || format!("{} panicked on slices of the right lengths", op.name()));
                    let got = unsafe { b.dec(op, false, yo.p, d) };
                    let want = call(&*plain, op, &x, d);
                    let s = norm_max(&want).max(norm_max(&x));
                    agree(c, "guarded", &op.name(), &x, &got, &want, |_| s, sc.eps(), 64. * kappa(op, k, n));
                    c.trace(1);
                } else if matches!(op, Op::Fwd | Op::Bwd) {
                    c.check(!r, || format!("{} accepted slices of lengths {a} -> {d}, the base has {il} -> {ol}", op.name()));
                }
                bail!(c);
            }
        }
    }
}
fn c11_arrays(c: &mut Case, k: Kind, sc: Sc, n: usize) {
    let plain = base(k, sc, n);
    for (mode, fill) in [(1u8, 0xFFu8), (2, 0xFF)] {
        let b = with_guards(mode, fill, || base(k, sc, n));
        for (oi, op) in ops_of(k, sc).into_iter().enumerate() {
            let (il, ol) = op.lens(k, n);
            let (cin, cout) = if op.in_phys() { (b.cplx().1, b.cplx().0) } else if op.out_phys() { (b.cplx().0, b.cplx().1) } else { (b.cplx().0, b.cplx().0) };
            for others in [vec![], vec![1], vec![3], vec![2, 2], vec![1, 3]] {
                for axis in 0..=others.len() {
                    for v in VARS {
                        if matches!(v, Var::Par | Var::InplacePar) && mode == 2 {
                            continue;
                        }
                        let sh = |n: usize| {
                            let mut s: Vec<usize> = others.clone();
                            s.insert(axis, n);
                            s
                        };
                        let right_in = field(&sh(il), oi, cin, sc);
                        let right_out = field(&sh(ol), oi, cout, sc);
                        let want = lanewise(&right_in, axis, ol, |l| call(&*plain, op, l, ol));
                        let mut run = |c: &mut Case, x: &ArrayD<C64>, g: &ArrayD<C64>, dynamic: bool| {
                            c.step(1);
                            with_guards(mode, fill, || catch_unwind(AssertUnwindSafe(|| b.arr(op, v, x, Lay::C, if v.inplace() { Some((g, Lay::C)) } else { None }, axis, dynamic))).ok())
                        };
                        let name = format!("{} {v:?} along axis {axis} of {:?}", op.name(), sh(il));
                        let bad: Vec<usize> = [-(il as i64), -2, -1, 1, 2, il as i64].iter().map(|d| il as i64 + d).filter(|x| *x >= 0 && *x != il as i64).map(|x| x as usize).collect();
                        for w in bad {
                            c.state(1);
                            let r = run(c, &field(&sh(w), 1, cin, sc), &right_out, w % 2 == 0);
                            c.check(r.is_none(), || format!("{name} accepted an input of length {w} along the axis, the base has {il}"));
                            if v.inplace() {
                                // an output that matches the wrong input, as an identity would produce
                                let r = run(c, &field(&sh(w), 1, cin, sc), &field(&sh((w + ol).saturating_sub(il)), 1, cout, sc), false);
                                c.check(r.is_none(), || format!("{name} accepted an input of length {w} (and an output to match) along the axis"));
                            }
                        }
                        if v.inplace() {
                            let bad: Vec<usize> = [-(ol as i64), -2, -1, 1, 2, ol as i64].iter().map(|d| ol as i64 + d).filter(|x| *x >= 0 && *x != ol as i64).map(|x| x as usize).collect();
                            for w in bad {
                                c.state(1);
                                let r = run(c, &right_in, &field(&sh(w), 1, cout, sc), w % 2 == 0);
                                c.check(r.is_none(), || format!("{name} accepted an output of length {w} along the axis, the base has {ol}"));
                            }
                            // other axes do not match: no verdict on the result, but memory is guarded
                            for (j, _) in others.iter().enumerate() {
                                for dlt in [1usize, 2] {
                                    let mut o2 = others.clone();
                                    o2[j] += dlt;
                                    o2.insert(axis, ol);
                                    let _ = run(c, &right_in, &field(&o2, 1, cout, sc), false);
                                    let mut i2 = others.clone();
                                    i2[j] += dlt;
                                    i2.insert(axis, il);
                                    let _ = run(c, &field(&i2, 1, cin, sc), &right_out, false);
                                }
                            }
                        }
                        bail!(c);
                        // the object is still usable
                        let r = run(c, &right_in, &right_out, false);
                        match r {
                            None => c.fail(format!("{name} panicked on arrays of the right shape")),
                            Some((y, _)) => {
                                agree_lanes(c, "after_refusal", &name, &right_in, &y, &want, axis, sc.eps(), 64. * kappa(op, k, n), (n as f64).powi(3));
                            }
                        }
                        c.trace(1);
                        bail!(c);
                    }
                }
            }
        }
    }
}
fn c11_space(c: &mut Case, sp: &Combo, sc: Sc) {
    let s = with_guards(1, 0xFF, || space(sp, sc).expect("admissible"));
    let (cs, cp) = s.cplx();
    let (p, m, o) = s.shapes();
    let d = sp.len();
    for op in [SOp::Fwd, SOp::Bwd, SOp::To, SOp::From, SOp::Grad(vec![1; d], None), SOp::Grad((0..d).collect(), Some(vec![2.; d]))] {
        let (ish, osh) = sop_shapes(&op, &p, &m, &o);
        let (cin, cout) = match op {
            SOp::Fwd => (cp, cs),
            SOp::Bwd => (cs, cp),
            _ => (cs, cs),
        };
        let x = field(ish, 1, cin, sc);
        let g = field(osh, 2, cout, sc);
        let want = separable(sp, sc, &op, &x, cs);
        for &v in sop_variants(&op) {
            let run = |c: &mut Case, x: &ArrayD<C64>, g: &ArrayD<C64>| {
                c.step(1);
                with_guards(1, 0xFF, || catch_unwind(AssertUnwindSafe(|| s.op(op.clone(), v, x, Lay::C, if v.inplace() { Some((g, Lay::C)) } else { None }))).ok())
            };
            let mut wrongs = |right: &Vec<usize>| {
                let mut out = vec![];
                for ax in 0..d {
                    for dl in [-1i64, 1, right[ax] as i64] {
                        let mut w = right.clone();
                        w[ax] = (w[ax] as i64 + dl).max(0) as usize;
                        out.push(w);
                    }
                }
                if d > 1 {
                    let mut w = right.clone();
                    w.reverse();
                    if &w != right {
                        out.push(w);
                    }
                    out.push(right.iter().map(|x| x + 1).collect());
                }
                out
            };
            for w in wrongs(ish) {
                c.state(1);
                let r = run(c, &field(&w, 1, cin, sc), &g);
                c.check(r.is_none(), || format!("{} {v:?} accepted an input of shape {w:?}, the space has {ish:?}", sop_name(&op)));
            }
            if v.inplace() {
                for w in wrongs(osh) {
                    c.state(1);
                    let r = run(c, &x, &field(&w, 1, cout, sc));
                    c.check(r.is_none(), || format!("{} {v:?} accepted an output of shape {w:?}, the space has {osh:?}", sop_name(&op)));
                }
            }
            bail!(c);
            match run(c, &x, &g) {
                None => c.fail(format!("{} {v:?} panicked on arrays of the right shape", sop_name(&op))),
                Some((y, _)) => {
                    let kap: f64 = sp.iter().map(|x| kappa(Op::Fwd, x.0, x.1)).product();
                    if kap * sc.eps() < 1e-5 {
                        let s = norm_max(&flat(&want)).max(norm_max(&flat(&x)));
                        agree(c, "space_after_refusal", &sop_name(&op), &flat(&x), &flat(&y), &flat(&want), |_| s, sc.eps(), 200. * kap);
                    }
                }
            }
            c.trace(1);
            bail!(c);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C19
// ---------------------------------------------------------------------------------------------
pub fn c19(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let top = if th { 40 } else { 20 };
    ctx.group("approximate equality");
    for len in (0..=top).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]) {
        ctx.case(|| format!("slices f64 of length {len}"), |c| c19_slices::<f64>(c, len));
        ctx.case(|| format!("slices f32 of length {len}"), |c| c19_slices::<f32>(c, len));
    }
    let mut shapes: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![5], vec![64], vec![130]];
    for a in 0..=4 {
        for b in 0..=4 {
            shapes.push(vec![a, b]);
        }
    }
    shapes.extend([vec![7, 9], vec![33, 5], vec![2, 3, 4], vec![3, 1, 5], vec![0, 2, 2], vec![2, 2, 2, 2], vec![1, 3, 2, 2, 2]]);
    for sh in &shapes {
        ctx.case(|| format!("arrays f64 of shape {sh:?}"), |c| c19_arrays::<f64>(c, sh));
        ctx.case(|| format!("arrays f32 of shape {sh:?}"), |c| c19_arrays::<f32>(c, sh));
    }
    for b in BASES {
        ctx.case(|| format!("values f64 near {b}"), |c| c19_values::<f64>(c, b));
        ctx.case(|| format!("values f32 near {b}"), |c| c19_values::<f32>(c, b));
    }
    ctx.group("axis helpers");
    for sh in shapes.iter().filter(|s| !s.is_empty()) {
        ctx.case(|| format!("axis check and resize of shape {sh:?}"), |c| c19_axes(c, sh));
    }
}
fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
/// differences that must be accepted / rejected, around values small enough to represent them
const OK: [f64; 6] = [0., 1e-9, -5e-4, 9e-4, -9.9e-4, 9.99e-4];
const BAD: [f64; 9] = [1.01e-3, -1.1e-3, 2e-3, -5e-3, 0.1, -1., 50., -1e9, 1e30];
/// values around which differences are formed
const BASES: [f64; 15] = [0., 1e-30, 1e-4, -1., 37.5, -500.25, 2048., -5000., 9000., 1e5, -1e6, 1e9, -1e15, 1e30, 7e-3];
/// every pair of a value and one that differs from it by each of the differences, in every place of a short array
fn c19_values<A: Real + std::fmt::Display + num_traits::Float>(c: &mut Case, base: f64) {
    use funspace::utils::*;
    use num_complex::Complex;
    let f = |x: f64| A::of(C64::new(x, 0.));
    let g = |x: A| num_traits::ToPrimitive::to_f64(&x).unwrap();
    let a = f(base);
    for d in OK.into_iter().chain(BAD).chain([2e-2, -0.3, 4., 1e3, -1e6, f64::NAN]) {
        let b = f(base + d);
        // the difference that is there after rounding; NaN is not near anything
        let diff = g(b - a).abs();
        if !diff.is_nan() && (diff - 1e-3).abs() < 1e-6 {
            continue;
        }
        let reject = diff.is_nan() || diff > 1e-3;
        for at in 0..4 {
            for with in [0., base] {
                c.state(1);
                let x = vec![f(with); 4];
                let (mut p, mut q) = (x.clone(), x.clone());
                (p[at], q[at]) = (a, b);
                for (p, q) in [(&p, &q), (&q, &p)] {
                    c.step(6);
                    let what = |n: &str| format!("{n}: {base} and {} in place {at} of 4, the others {with}", g(b));
                    c.check(panics(|| approx_eq(p, q)) == reject, || what("approx_eq"));
                    c.check(panics(|| approx_eq_ndarray(&ndarray::Array1::from(p.clone()), &ndarray::Array1::from(q.clone()))) == reject, || what("approx_eq_ndarray"));
                    let re = |v: &[A]| v.iter().map(|x| Complex::new(*x, f(0.25))).collect::<Vec<_>>();
                    let im = |v: &[A]| v.iter().map(|x| Complex::new(f(-3.), *x)).collect::<Vec<_>>();
                    for (n, p, q) in [("real part", re(p), re(q)), ("imaginary part", im(p), im(q))] {
                        c.check(panics(|| approx_eq_complex(&p, &q)) == reject, || what(&format!("approx_eq_complex, {n}")));
                        c.check(panics(|| approx_eq_complex_ndarray(&ndarray::Array1::from(p.clone()), &ndarray::Array1::from(q.clone()))) == reject, || what(&format!("approx_eq_complex_ndarray, {n}")));
                    }
                }
            }
            bail!(c);
        }
    }
    c.trace(1);
}
fn c19_slices<A: Real + std::fmt::Display + num_traits::Float>(c: &mut Case, len: usize) {
    use funspace::utils::*;
    use num_complex::Complex;
    let f = |x: f64| A::of(C64::new(x, 0.));
    let a: Vec<f64> = (0..len).map(|i| [0., 0.25, -0.5, 1., -1.5][i % 5]).collect();
    let real = |v: &[f64]| v.iter().map(|x| f(*x)).collect::<Vec<A>>();
    let re_a = real(&a);
    let z_a: Vec<Complex<A>> = a.iter().map(|x| Complex::new(f(*x), f(0.5 - *x))).collect();
    for d in OK {
        let b: Vec<A> = a.iter().enumerate().map(|(i, x)| f(x + if i % 3 == 0 { d } else { -d })).collect();
        c.state(2);
        c.step(2);
        c.check(!panics(|| approx_eq(&re_a, &b)), || format!("approx_eq rejects a difference of {d}"));
        let zb: Vec<Complex<A>> = a.iter().map(|x| Complex::new(f(x + d), f(0.5 - x - d))).collect();
        c.check(!panics(|| approx_eq_complex(&z_a, &zb)), || format!("approx_eq_complex rejects a difference of {d} in both parts"));
    }
    for d in BAD {
        for i in positions(len, 40).into_iter().filter(|i| *i < len) {
            c.state(4);
            c.step(6);
            let mut b = re_a.clone();
            b[i] = f(a[i] + d);
            c.check(panics(|| approx_eq(&re_a, &b)), || format!("approx_eq accepts a difference of {d} at index {i} of {len}"));
            c.check(panics(|| approx_eq(&b, &re_a)), || format!("approx_eq accepts a difference of {d} at index {i} of {len} (arguments swapped)"));
            for part in 0..2 {
                let mut b = z_a.clone();
                if part == 0 {
                    b[i].re = f(a[i] + d)
                } else {
                    b[i].im = f(0.5 - a[i] + d)
                }
                c.check(panics(|| approx_eq_complex(&z_a, &b)), || format!("approx_eq_complex accepts a difference of {d} in part {part} at index {i} of {len}"));
                c.check(panics(|| approx_eq_complex(&b, &z_a)), || format!("approx_eq_complex accepts a difference of {d} in part {part} at index {i} of {len} (swapped)"));
            }
            bail!(c);
        }
    }
    c.trace(1);
}
fn c19_arrays<A: Real + std::fmt::Display + num_traits::Float>(c: &mut Case, sh: &[usize]) {
    use funspace::utils::*;
    use num_complex::Complex;
    let f = |x: f64| A::of(C64::new(x, 0.));
    let len: usize = sh.iter().product();
    let v: Vec<f64> = (0..len).map(|i| [0., 0.25, -0.5, 1., -1.5, 0.75, 1.25][i % 7]).collect();
    let a = ArrayD::from_shape_vec(IxDyn(sh), v.clone()).unwrap();
    // the same contents stored column by column
    let fortran = |x: &ArrayD<f64>| {
        let perm: Vec<usize> = (0..sh.len()).rev().collect();
        x.clone().permuted_axes(IxDyn(&perm)).as_standard_layout().into_owned().permuted_axes(IxDyn(&perm))
    };
    let (ra, rf) = (a.mapv(f), fortran(&a).mapv(f));
    let cz = |x: &ArrayD<f64>, y: &ArrayD<f64>| {
        let mut z = x.mapv(|v| Complex::new(f(v), f(0.)));
        z.zip_mut_with(y, |a, b| a.im = f(*b));
        z
    };
    let im = a.mapv(|x| 0.5 - x);
    let (za, zf) = (cz(&a, &im), cz(&fortran(&a), &fortran(&im)));
    for d in OK {
        c.state(1);
        c.step(6);
        let b = a.mapv(|x| f(x + d));
        let bf = fortran(&a).mapv(|x| f(x + d));
        c.check(!panics(|| approx_eq_ndarray(&ra, &b)), || format!("approx_eq_ndarray rejects a difference of {d}"));
        c.check(!panics(|| approx_eq_ndarray(&ra, &bf)), || format!("approx_eq_ndarray rejects equal arrays stored differently ({d})"));
        c.check(!panics(|| approx_eq_ndarray(&rf, &b)), || format!("approx_eq_ndarray rejects equal arrays stored differently ({d})"));
        let z = za.mapv(|z| Complex::new(z.re + f(d), z.im - f(d)));
        c.check(!panics(|| approx_eq_complex_ndarray(&za, &z)), || format!("approx_eq_complex_ndarray rejects a difference of {d}"));
        c.check(!panics(|| approx_eq_complex_ndarray(&zf, &z)), || format!("approx_eq_complex_ndarray rejects equal arrays stored differently ({d})"));
        c.check(!panics(|| approx_eq_complex_ndarray(&z, &zf)), || format!("approx_eq_complex_ndarray rejects equal arrays stored differently ({d})"));
    }
    for d in BAD {
        for i in positions(len, 40).into_iter().filter(|i| *i < len) {
            c.state(1);
            let mut b = ra.clone();
            b.as_slice_mut().unwrap()[i] = f(v[i] + d);
            for (x, y) in [(&ra, &b), (&b, &ra), (&rf, &b), (&b, &rf)] {
                c.step(1);
                c.check(panics(|| approx_eq_ndarray(x, y)), || format!("approx_eq_ndarray accepts a difference of {d} at flat index {i} of shape {sh:?}"));
            }
            for part in 0..2 {
                let mut b = za.clone();
                let e = &mut b.as_slice_mut().unwrap()[i];
                if part == 0 {
                    e.re = f(v[i] + d)
                } else {
                    e.im = f(0.5 - v[i] + d)
                }
                for (x, y) in [(&za, &b), (&b, &za), (&zf, &b), (&b, &zf)] {
                    c.step(1);
                    c.check(panics(|| approx_eq_complex_ndarray(x, y)), || format!("approx_eq_complex_ndarray accepts a difference of {d} in part {part} at flat index {i} of shape {sh:?}"));
                }
            }
            bail!(c);
        }
    }
    c.trace(1);
}
fn c19_axes(c: &mut Case, sh: &[usize]) {
    use funspace::utils::*;
    use num_complex::Complex;
    let len: usize = sh.iter().product();
    let a = ArrayD::from_shape_vec(IxDyn(sh), (0..len).map(|i| i as f64 + 1.).collect()).unwrap();
    let mut s = a.clone();
    s.invert_axis(ndarray::Axis(0));
    for a in [&a.view(), &s.view(), &a.t()] {
        let sh = a.shape().to_vec();
        for axis in 0..sh.len() {
            for m in (0..=12).chain([sh[axis] + 1, 2 * sh[axis], len, 33, 130, usize::MAX]) {
                c.state(1);
                c.step(1);
                let p = panics(|| check_array_axis(a, m, axis, "test"));
                c.check(p == (sh[axis] != m), || format!("check_array_axis on shape {sh:?}, axis {axis}, size {m}: panicked = {p}"));
            }
            for m in (0..=9).chain([33, 64]) {
                c.state(1);
                c.step(2);
                let mut want = sh.clone();
                want[axis] = m;
                let r: ArrayD<f64> = array_resized_axis(a, m, axis);
                c.check(r.shape() == &want[..] && r.iter().all(|x| *x == 0.), || format!("array_resized_axis of {sh:?} to {m} along {axis}: shape {:?}", r.shape()));
                let r: ArrayD<Complex<f32>> = array_resized_axis(a, m, axis);
                c.check(r.shape() == &want[..] && r.iter().all(|x| *x == Complex::new(0., 0.)), || format!("array_resized_axis of {sh:?} to {m} along {axis}: shape {:?}", r.shape()));
                if sh.len() == 2 {
                    let b = a.view().into_dimensionality::<ndarray::Ix2>().unwrap();
                    let r: ndarray::Array2<f32> = array_resized_axis(&b, m, axis);
                    c.check(r.shape() == &want[..] && r.iter().all(|x| *x == 0.), || format!("array_resized_axis of {sh:?} (2D) to {m} along {axis}: shape {:?}", r.shape()));
                }
            }
            bail!(c);
        }
    }
    c.trace(1);
}
