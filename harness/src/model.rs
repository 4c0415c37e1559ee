//! Reference model: the mathematical definition of every operation, evaluated densely.
use crate::erased::*;
use crate::num::*;
use ndarray::{Array2, ArrayD, Axis, IxDyn};
use std::f64::consts::PI;

/// Angles are reduced with integers before the trigonometric function is called.
pub struct Tab {
    pub k: Kind,
    pub n: usize,
    w: Vec<C64>,
}
impl Tab {
    pub fn new(k: Kind, n: usize) -> Self {
        // Chebyshev: period 2(n-1) of cos(pi t/(n-1)); Fourier: period n of exp(2 pi i t/n)
        let per = if k.fourier() { n } else { 2 * (n - 1) };
        let w = (0..per).map(|t| unit_root(t, per)).collect();
        Tab { k, n, w }
    }
    fn at(&self, t: usize) -> C64 {
        self.w[t % self.w.len()]
    }
    /// T_k at grid point j of the Chebyshev grid
    pub fn t(&self, k: usize, j: usize) -> f64 {
        self.at(k * (self.n - 1 - j)).re
    }
    pub fn grid(&self, j: usize) -> f64 {
        if self.k.fourier() {
            2. * PI * j as f64 / self.n as f64
        } else {
            -self.at(j).re
        }
    }
    /// physical values of orthogonal coefficients
    pub fn backward(&self, a: &[C64]) -> Vec<C64> {
        let n = self.n;
        let nz: Vec<usize> = (0..a.len()).filter(|&i| a[i] != C64::new(0., 0.)).collect();
        (0..n)
            .map(|j| match self.k {
                Kind::C2c => nz.iter().map(|&k| a[k] * self.at(k * j)).sum::<C64>() / n as f64,
                Kind::R2c => {
                    let mut s = 0.;
                    for &k in &nz {
                        if k == 0 || (n % 2 == 0 && k == n / 2) {
                            s += a[k].re * self.at(k * j).re;
                        } else {
                            s += 2. * (a[k] * self.at(k * j)).re;
                        }
                    }
                    C64::new(s / n as f64, 0.)
                }
                _ => nz.iter().map(|&k| a[k] * self.t(k, j)).sum::<C64>(),
            })
            .collect()
    }
    /// orthogonal coefficients of the interpolant of the samples
    pub fn forward(&self, u: &[C64]) -> Vec<C64> {
        let n = self.n;
        let nz: Vec<usize> = (0..n).filter(|&i| u[i] != C64::new(0., 0.)).collect();
        (0..self.k.orth(n))
            .map(|k| {
                if self.k.fourier() {
                    nz.iter().map(|&j| u[j] * self.at(k * j).conj()).sum::<C64>()
                } else {
                    let e = |i: usize| if i == 0 || i == n - 1 { 2. } else { 1. };
                    nz.iter().map(|&j| u[j] * (self.t(k, j) / e(j))).sum::<C64>() * (2. / ((n - 1) as f64 * e(k)))
                }
            })
            .collect()
    }
    /// one derivative of orthogonal coefficients
    pub fn diff1(&self, a: &[C64]) -> Vec<C64> {
        if self.k.fourier() {
            return a.iter().enumerate().map(|(k, x)| x * C64::new(0., self.wavenumber(k))).collect();
        }
        let n = a.len();
        let z = C64::new(0., 0.);
        let mut s = vec![z; n + 2];
        for k in (0..n).rev() {
            let up = if k + 1 < n { a[k + 1] * (k + 1) as f64 } else { z };
            s[k] = up + s[k + 2];
        }
        (0..n).map(|k| if k == 0 { s[0] } else { s[k] * 2. }).collect()
    }
    pub fn wavenumber(&self, k: usize) -> f64 {
        match self.k {
            Kind::C2c if k >= (self.n + 1) / 2 => k as f64 - self.n as f64,
            _ => k as f64,
        }
    }
    pub fn diff(&self, a: &[C64], d: usize) -> Vec<C64> {
        let mut v = a.to_vec();
        for _ in 0..d {
            v = self.diff1(&v);
        }
        v
    }
    /// sum of absolute values entering each output entry of `diff`
    pub fn diff_abs(&self, a: &[C64], d: usize) -> Vec<f64> {
        let mut v: Vec<C64> = a.iter().map(|x| C64::new(l1(*x), 0.)).collect();
        for _ in 0..d {
            v = if self.k.fourier() { v.iter().enumerate().map(|(k, x)| x * self.wavenumber(k).abs()).collect() } else { self.diff1(&v) };
        }
        v.into_iter().map(|x| x.re).collect()
    }
}
pub fn l1(c: C64) -> f64 {
    c.re.abs() + c.im.abs()
}
/// exp(2 pi i t / per), exactly symmetric
pub fn unit_root(t: usize, per: usize) -> C64 {
    let t = t % per;
    // octant reduction on 8t/per
    let (c, s);
    let o = 8 * t / per; // octant
    let ang = |num: usize| 2. * PI * num as f64 / per as f64;
    match o {
        0 => {
            c = ang(t).cos();
            s = ang(t).sin();
        }
        1 | 2 => {
            // around pi/2: t = per/4 + d  -> 4t - per over 4per
            let d = 4 * t as i64 - per as i64;
            let a = 2. * PI * d as f64 / (4. * per as f64);
            c = -a.sin();
            s = a.cos();
        }
        3 | 4 => {
            let d = 2 * t as i64 - per as i64;
            let a = 2. * PI * d as f64 / (2. * per as f64);
            c = -a.cos();
            s = -a.sin();
        }
        5 | 6 => {
            let d = 4 * t as i64 - 3 * per as i64;
            let a = 2. * PI * d as f64 / (4. * per as f64);
            c = a.sin();
            s = -a.cos();
        }
        _ => {
            let d = t as i64 - per as i64;
            let a = 2. * PI * d as f64 / per as f64;
            c = a.cos();
            s = a.sin();
        }
    }
    C64::new(c, s)
}

pub fn matvec(m: &Array2<C64>, x: &[C64]) -> Vec<C64> {
    m.rows().into_iter().map(|r| r.iter().zip(x).filter(|(a, _)| **a != C64::new(0., 0.)).map(|(a, b)| a * b).sum()).collect()
}
/// transpose times vector
pub fn tmatvec(m: &Array2<C64>, x: &[C64]) -> Vec<C64> {
    m.columns().into_iter().map(|r| r.iter().zip(x).filter(|(a, _)| **a != C64::new(0., 0.)).map(|(a, b)| a * b).sum()).collect()
}
pub fn matmul(a: &Array2<C64>, b: &Array2<C64>) -> Array2<C64> {
    let (n, m) = (a.nrows(), b.ncols());
    let mut r = Array2::zeros((n, m));
    for i in 0..n {
        for k in 0..a.ncols() {
            let x = a[[i, k]];
            if x != C64::new(0., 0.) {
                for j in 0..m {
                    r[[i, j]] += x * b[[k, j]];
                }
            }
        }
    }
    r
}
/// |a| |b|
pub fn matmul_abs(a: &Array2<C64>, b: &Array2<C64>) -> Array2<f64> {
    let f = |m: &Array2<C64>| m.mapv(|x| C64::new(l1(x), 0.));
    matmul(&f(a), &f(b)).mapv(|x| x.re)
}

/// Apply a 1D operation on every lane of `axis`, the definition of an array operation.
pub fn lanewise(x: &ArrayD<C64>, axis: usize, outlen: usize, mut f: impl FnMut(&[C64]) -> Vec<C64>) -> ArrayD<C64> {
    let mut sh = x.shape().to_vec();
    sh[axis] = outlen;
    let mut out = ArrayD::zeros(IxDyn(&sh));
    // index arithmetic written out instead of using ndarray's lane iterators
    let nd = x.ndim();
    let other: usize = (0..nd).filter(|&d| d != axis).map(|d| sh[d]).product();
    let inlen = x.shape()[axis];
    for l in 0..other {
        let mut idx = vec![0; nd];
        let mut r = l;
        for d in (0..nd).rev() {
            if d != axis {
                idx[d] = r % sh[d];
                r /= sh[d];
            }
        }
        let lane: Vec<C64> = (0..inlen)
            .map(|i| {
                idx[axis] = i;
                x[IxDyn(&idx)]
            })
            .collect();
        let y = f(&lane);
        for (i, v) in y.into_iter().enumerate() {
            idx[axis] = i;
            out[IxDyn(&idx)] = v;
        }
    }
    let _ = Axis(0);
    out
}

/// Round to the real type of the scalar under test (so inputs are exactly representable).
pub fn q(sc: Sc, x: C64) -> C64 {
    if sc.f64ish() {
        x
    } else {
        C64::new(x.re as f32 as f64, x.im as f32 as f64)
    }
}
/// drop the imaginary part where the scalar is real
pub fn fit(x: &[C64], cplx: bool) -> Vec<C64> {
    x.iter().map(|v| if cplx { *v } else { C64::new(v.re, 0.) }).collect()
}

/// Worst |got-want| / scale over all entries; NaN and infinities count as infinite.
pub fn dist(got: &[C64], want: &[C64], scale: impl Fn(usize) -> f64) -> (f64, usize) {
    if got.len() != want.len() {
        return (f64::INFINITY, usize::MAX);
    }
    let mut worst = (0., 0);
    for i in 0..got.len() {
        let d = got[i] - want[i];
        let e = d.re.abs().max(d.im.abs());
        let s = scale(i);
        let r = if e == 0. {
            0.
        } else if s > 0. && e.is_finite() {
            e / s
        } else {
            f64::INFINITY
        };
        if !(r <= worst.0) {
            worst = (if r.is_nan() { f64::INFINITY } else { r }, i);
        }
    }
    worst
}

/// Deterministic dense vectors: small integers with no symmetry.
pub fn dense(n: usize, which: usize, cplx: bool) -> Vec<C64> {
    (0..n)
        .map(|j| {
            let (re, im): (f64, f64) = match which {
                0 => (1., 0.5),
                1 => (if j % 2 == 0 { 1. } else { -1. }, if j % 3 == 0 { 1. } else { -1. }),
                2 => (j as f64 - 2., 3. - 2. * j as f64),
                3 => (((j * 7 + 3) % 11) as f64 - 5., ((j * 5 + 2) % 13) as f64 - 6.),
                _ => (((j * j * 3 + j * which + 1) % 17) as f64 - 8., ((j * j + 5 * j + which) % 19) as f64 - 9.),
            };
            C64::new(re, if cplx { im } else { 0. })
        })
        .collect()
}
pub fn garbage(n: usize) -> Vec<C64> {
    (0..n).map(|i| C64::new(1234.5 + 3. * i as f64, -777.25 - i as f64)).collect()
}
pub fn unit(n: usize, k: usize, v: C64) -> Vec<C64> {
    let mut x = vec![C64::new(0., 0.); n];
    x[k] = v;
    x
}
pub fn norm1(x: &[C64]) -> f64 {
    x.iter().map(|c| l1(*c)).sum()
}
pub fn norm_max(x: &[C64]) -> f64 {
    x.iter().map(|c| l1(*c)).fold(0., f64::max)
}
pub fn scaled(x: &[C64], s: f64) -> Vec<C64> {
    x.iter().map(|c| c * s).collect()
}
/// all vectors over a small alphabet
pub fn alphabet(n: usize, letters: &[C64]) -> Vec<Vec<C64>> {
    let mut out = vec![];
    let total = letters.len().pow(n as u32);
    for t in 0..total {
        let mut r = t;
        out.push(
            (0..n)
                .map(|_| {
                    let l = letters[r % letters.len()];
                    r /= letters.len();
                    l
                })
                .collect(),
        );
    }
    out
}
pub fn letters(cplx: bool) -> Vec<C64> {
    if cplx {
        vec![C64::new(0., 0.), C64::new(1., -1.), C64::new(-2., 3.)]
    } else {
        vec![C64::new(0., 0.), C64::new(1., 0.), C64::new(-2., 0.)]
    }
}
pub fn show(x: &[C64]) -> String {
    let nz: Vec<String> = x.iter().enumerate().filter(|(_, c)| **c != C64::new(0., 0.)).take(6).map(|(i, c)| format!("[{i}]={c}")).collect();
    format!("len {} {}", x.len(), nz.join(" "))
}
pub fn arrd(shape: &[usize], v: Vec<C64>) -> ArrayD<C64> {
    ArrayD::from_shape_vec(IxDyn(shape), v).unwrap()
}
pub fn flat(a: &ArrayD<C64>) -> Vec<C64> {
    a.iter().copied().collect()
}
