//! C14: the distributed space against the serial one.
use crate::arr::*;
use crate::fw::*;
use crate::num::{Num, Real};
use crate::world::*;
use funspace::space_mpi::{BaseSpaceMpi, Communicator, Space2Mpi, Universe};
use funspace::*;
use ndarray::Array2;
use num_complex::Complex;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Cheb,
    Dir,
    Neu,
    DirNeu,
    BihA,
    BihB,
    R2c,
    C2c,
}
use K::*;
const R2R: [K; 6] = [Cheb, Dir, Neu, DirNeu, BihA, BihB];
impl K {
    pub fn min_n(self) -> usize {
        match self {
            Cheb => 2,
            Dir | Neu => 5,
            DirNeu => 6,
            BihA | BihB => 10,
            R2c | C2c => 1,
        }
    }
    pub fn spec(self, n: usize) -> usize {
        match self {
            Cheb | C2c => n,
            Dir | Neu | DirNeu => n - 2,
            BihA | BihB => n - 4,
            R2c => n / 2 + 1,
        }
    }
    /// smallest size whose shortest representation has at least p entries
    pub fn for_ranks(self, p: usize) -> usize {
        (self.min_n()..).find(|n| self.spec(*n).min(*n) >= p).unwrap()
    }
}
pub fn r2r<A: FloatNum>(k: K, n: usize) -> BaseR2r<A> {
    match k {
        Cheb => chebyshev(n),
        Dir => cheb_dirichlet(n),
        Neu => cheb_neumann(n),
        DirNeu => cheb_dirichlet_neumann(n),
        BihA => cheb_biharmonic_a(n),
        BihB => cheb_biharmonic_b(n),
        _ => unreachable!(),
    }
}
/// every admissible base pair
pub fn pairs() -> Vec<(K, K)> {
    let mut v = vec![];
    for b in R2R {
        for a in R2R {
            v.push((a, b));
        }
    }
    for b in R2R {
        v.push((R2c, b));
    }
    v.extend([(C2c, R2c), (C2c, C2c)]);
    v
}

/// Call `$f(distributed space, serial space)` with the types that belong to the pair.
macro_rules! with_spaces {
    ($a:ty, $k0:expr, $n0:expr, $k1:expr, $n1:expr, $u:expr, |$m:ident, $s:ident| $body:expr) => {{
        let (k0, n0, k1, n1) = ($k0, $n0, $k1, $n1);
        match (k0, k1) {
            (crate::spaces::K::R2c, _) => {
                let (b0, b1) = (fourier_r2c::<$a>(n0), crate::spaces::r2r::<$a>(k1, n1));
                let ($m, $s) = (Space2Mpi::new(&b0, &b1, $u), Space2::new(&b0, &b1));
                $body
            }
            (crate::spaces::K::C2c, crate::spaces::K::R2c) => {
                let (b0, b1) = (fourier_c2c::<$a>(n0), fourier_r2c::<$a>(n1));
                let ($m, $s) = (Space2Mpi::new(&b0, &b1, $u), Space2::new(&b0, &b1));
                $body
            }
            (crate::spaces::K::C2c, crate::spaces::K::C2c) => {
                let (b0, b1) = (fourier_c2c::<$a>(n0), fourier_c2c::<$a>(n1));
                let ($m, $s) = (Space2Mpi::new(&b0, &b1, $u), Space2::new(&b0, &b1));
                $body
            }
            _ => {
                let (b0, b1) = (crate::spaces::r2r::<$a>(k0, n0), crate::spaces::r2r::<$a>(k1, n1));
                let ($m, $s) = (Space2Mpi::new(&b0, &b1, $u), Space2::new(&b0, &b1));
                $body
            }
        }
    }};
}
pub(crate) use with_spaces;

/// Field contents: 0.. different dense fields, magnitudes, sparse fields.
pub const FIELDS: usize = 8;
pub fn field<T: Num>(sh: [usize; 2], which: usize) -> Array2<T> {
    Array2::from_shape_fn(sh, |(i, j)| {
        let k = i * sh[1] + j;
        let a = ((k * k * 7 + k * 13 + which * 5 + 3) % 101) as f64 - 50.5;
        let b = ((k * k * 3 + k * 29 + which * 11 + 7) % 97) as f64 - 48.25;
        let z = Complex::new(a, if T::COMPLEX { b } else { 0. });
        let small = if T::EPS > 1e-10 { 1e-12 } else { 1e-90 };
        let s = match which {
            0 | 1 => 1.,
            2 => small,
            3 => 1. / small,
            // zero on the first, middle or last part of each axis
            4 => (i * 2 >= sh[0]) as u8 as f64,
            5 => (j * 2 < sh[1]) as u8 as f64,
            6 => (k == sh[0] * sh[1] - 1) as u8 as f64,
            _ => 0.,
        };
        T::of(z * s)
    })
}

fn norm<T: Num>(a: &Array2<T>) -> f64 {
    a.iter().map(|x| x.to().re.abs().max(x.to().im.abs())).fold(0., f64::max)
}
/// `got` is the pencil `want`, up to rounding relative to the global result
fn near<T: Num>(what: &str, got: &Array2<T>, want: &Array2<T>, global: f64, eps: f64) -> Res {
    if got.shape() != want.shape() {
        return Err(format!("{what}: pencil of shape {:?} instead of {:?}", got.shape(), want.shape()));
    }
    for ((i, j), w) in want.indexed_iter() {
        let (g, w) = (got[[i, j]].to(), w.to());
        let d = (g - w).re.abs().max((g - w).im.abs());
        if !(d <= 1e4 * eps * global || g == w) {
            return Err(format!("{what}: element [{i}, {j}] of the rank's pencil {:?} is {g} instead of {w} (serial space)", want.shape()));
        }
    }
    Ok(())
}
fn cut<T: Copy>(g: &Array2<T>, d: &funspace::space_mpi::decomp2d::Distribution<2>) -> Array2<T> {
    g.slice(ndarray::s![d.st[0]..d.st[0] + d.sz[0], d.st[1]..d.st[1] + d.sz[1]]).to_owned()
}
pub fn derivs(full: bool) -> Vec<[usize; 2]> {
    if full {
        // every mixed derivative up to order five along each axis, some higher ones
        let mut v: Vec<[usize; 2]> = (0..36).map(|k| [k / 6, k % 6]).filter(|[a, b]| a + b <= 7).collect();
        v.extend([[6, 0], [0, 6], [7, 1], [1, 7], [8, 0], [0, 8]]);
        v
    } else {
        vec![[0, 0], [1, 0], [0, 1], [2, 1], [1, 2]]
    }
}

/// Everything the distributed space `m` does on this rank, against the serial space `s`.
#[allow(clippy::too_many_lines)]
fn compare<A, M, S>(m: &M, s: &S, u: &Universe, p: usize, r: usize, full: bool, fields: &[usize], lays: (Lay, Lay)) -> Result<u64, String>
where
    A: Real,
    M: BaseSpaceMpi<A, 2>,
    S: BaseSpace<A, 2, Physical = M::Physical, Spectral = M::Spectral>,
    M::Physical: Num + El,
    M::Spectral: Num + El,
{
    let eps = A::EPS;
    let mut ops = 0u64;
    let (ph, sp, or) = (s.shape_physical(), s.shape_spectral(), s.shape_spectral_ortho());
    let dp = m.get_decomp_from_global_shape(&ph);
    let ds = m.get_decomp_from_global_shape(&sp);
    let dor = m.get_decomp_from_global_shape(&or);
    for (d, n) in [(dp, ph), (ds, sp), (dor, or)] {
        if d.n_global != n || d.nprocs as usize != p || d.nrank as usize != r {
            return Err(format!("the decomposition of {n:?} is of {:?}, rank {} of {}", d.n_global, d.nrank, d.nprocs));
        }
    }
    if m.get_nprocs() != p || m.get_nrank() != r || !std::ptr::eq(m.get_universe(), u) || u.world().size() as usize != p {
        return Err(format!("the space reports rank {} of {}", m.get_nrank(), m.get_nprocs()));
    }
    for (n, g, w) in [
        ("shape_physical_x_pen", m.shape_physical_x_pen(), dp.x_pencil.sz),
        ("shape_physical_y_pen", m.shape_physical_y_pen(), dp.y_pencil.sz),
        ("shape_spectral_x_pen", m.shape_spectral_x_pen(), ds.x_pencil.sz),
        ("shape_spectral_y_pen", m.shape_spectral_y_pen(), ds.y_pencil.sz),
    ] {
        if g != w {
            return Err(format!("{n} is {g:?} but the decomposition's pencil is {w:?}"));
        }
    }
    same("ndarray_physical_x_pen", &m.ndarray_physical_x_pen(), &Array2::zeros(dp.x_pencil.sz))?;
    same("ndarray_physical_y_pen", &m.ndarray_physical_y_pen(), &Array2::zeros(dp.y_pencil.sz))?;
    same("ndarray_spectral_x_pen", &m.ndarray_spectral_x_pen(), &Array2::zeros(ds.x_pencil.sz))?;
    same("ndarray_spectral_y_pen", &m.ndarray_spectral_y_pen(), &Array2::zeros(ds.y_pencil.sz))?;
    // the serial interface of the distributed space
    if m.shape_physical() != ph || m.shape_spectral() != sp || m.shape_spectral_ortho() != or {
        return Err(format!("global shapes {:?} {:?} {:?} instead of {ph:?} {sp:?} {or:?}", m.shape_physical(), m.shape_spectral(), m.shape_spectral_ortho()));
    }
    for ax in 0..2 {
        let tk = |t: enums::TransformKind| match t {
            enums::TransformKind::R2r => 0,
            enums::TransformKind::R2c => 1,
            enums::TransformKind::C2c => 2,
        };
        if format!("{:?}", m.base_kind(ax)) != format!("{:?}", s.base_kind(ax)) || tk(m.transform_kind(ax)) != tk(s.transform_kind(ax)) {
            return Err(format!("axis {ax} is reported as {:?}, serially as {:?}", m.base_kind(ax), s.base_kind(ax)));
        }
        if m.coords_axis(ax) != s.coords_axis(ax) || m.coords()[ax] != s.coords()[ax] {
            return Err(format!("coordinates of axis {ax} differ from the serial space's"));
        }
        if full && ph[0].min(ph[1]) >= 5 {
            if m.stencil(ax) != s.stencil(ax) || m.stencil_inv(ax) != s.stencil_inv(ax) || m.laplacian(ax) != s.laplacian(ax) || m.laplacian_pinv(ax) != s.laplacian_pinv(ax) {
                return Err(format!("matrices of axis {ax} differ from the serial space's"));
            }
        }
    }
    let scales: [Option<[A; 2]>; 4] = [None, Some([A::of(Complex::new(2., 0.)), A::of(Complex::new(0.5, 0.))]), Some([A::of(Complex::new(-0.7, 0.)), A::of(Complex::new(3., 0.))]), Some([A::of(Complex::new(1., 0.)), A::of(Complex::new(-1.25, 0.))])];
    let (li, lo) = lays;
    for &f in fields {
        let phys: Array2<M::Physical> = field(ph, f);
        let spec: Array2<M::Spectral> = field(sp, f);
        let orth: Array2<M::Spectral> = field(or, f);
        macro_rules! op {
            ($name:expr, $in:ident, $din:expr, $dout:expr, $ser:expr, |$v:ident| $al:expr, |$w:ident, $o:ident| $ip:expr) => {{
                let want = $ser;
                let g = norm(&want);
                let pen = cut(&$in, $din);
                let wp = cut(&want, $dout);
                let h = Held::new(&pen, li);
                let $v = h.view();
                let got = $al;
                near($name, &got, &wp, g, eps)?;
                h.expect(&format!("{}: the input", $name), &pen)?;
                let mut out = Held::new(&stale($dout.sz), lo);
                {
                    let $w = h.view();
                    let mut o = out.view_mut();
                    let $o = &mut o;
                    $ip;
                }
                near(&format!("{} in place", $name), &out.view().to_owned(), &wp, g, eps)?;
                let now = out.view().to_owned();
                out.expect($name, &now)?; // nothing outside the view was written
                h.expect(&format!("{} in place: the input", $name), &pen)?;
                ops += 2;
            }};
        }
        op!("forward", phys, &dp.y_pencil, &ds.x_pencil, s.forward(&phys), |v| m.forward_mpi(&v), |v, o| m.forward_inplace_mpi(&v, o));
        op!("backward", spec, &ds.x_pencil, &dp.y_pencil, s.backward(&spec), |v| m.backward_mpi(&v), |v, o| m.backward_inplace_mpi(&v, o));
        op!("to_ortho", spec, &ds.x_pencil, &dor.x_pencil, { let mut w = Array2::zeros(or); s.to_ortho_inplace(&spec, &mut w); w }, |v| m.to_ortho_mpi(&v), |v, o| m.to_ortho_inplace_mpi(&v, o));
        op!("from_ortho", orth, &dor.x_pencil, &ds.x_pencil, s.from_ortho(&orth), |v| m.from_ortho_mpi(&v), |v, o| m.from_ortho_inplace_mpi(&v, o));
        for (k, dv) in derivs(full && f == 0).into_iter().enumerate() {
            for (q, sc) in scales.iter().enumerate() {
                if f != 0 && (k + q + f) % 3 != 0 {
                    continue;
                }
                let want = s.gradient(&spec, dv, *sc);
                let pen = cut(&spec, &ds.x_pencil);
                let h = Held::new(&pen, li);
                let got = m.gradient_mpi(&h.view(), dv, *sc);
                near(&format!("gradient {dv:?} with scales {:?}", sc.map(|s| [s[0].to().re, s[1].to().re])), &got, &cut(&want, &dor.x_pencil), norm(&want), eps)?;
                h.expect("gradient: the input", &pen)?;
                ops += 1;
            }
        }
        if f == 0 && full {
            // every pair of scales
            let alpha = [1., 2., -0.5, -1., 0.1, 3., 1e3];
            for (a, b) in (0..alpha.len() * alpha.len()).map(|k| (alpha[k / alpha.len()], alpha[k % alpha.len()])) {
                for dv in [[1, 0], [0, 1], [1, 1], [2, 1], [3, 2]] {
                    let sc = Some([A::of(Complex::new(a, 0.)), A::of(Complex::new(b, 0.))]);
                    let want = s.gradient(&spec, dv, sc);
                    let got = m.gradient_mpi(&cut(&spec, &ds.x_pencil), dv, sc);
                    near(&format!("gradient {dv:?} with scales {a}, {b}"), &got, &cut(&want, &dor.x_pencil), norm(&want), eps)?;
                    ops += 1;
                }
            }
        }
        if f == 0 {
            // the serial operations of the distributed space
            let ser = |n: &str, a: Array2<Complex<f64>>, b: Array2<Complex<f64>>| near(n, &a, &b, norm(&b), eps);
            let cv = |a: &Array2<M::Spectral>| a.mapv(Num::to);
            let cp = |a: &Array2<M::Physical>| a.mapv(Num::to);
            ser("serial forward", cv(&m.forward(&phys)), cv(&s.forward(&phys)))?;
            ser("serial forward_par", cv(&m.forward_par(&phys)), cv(&s.forward(&phys)))?;
            ser("serial backward", cp(&m.backward(&spec)), cp(&s.backward(&spec)))?;
            ser("serial backward_par", cp(&m.backward_par(&spec)), cp(&s.backward(&spec)))?;
            ser("serial from_ortho", cv(&m.from_ortho(&orth)), cv(&s.from_ortho(&orth)))?;
            ser("serial from_ortho_par", cv(&m.from_ortho_par(&orth)), cv(&s.from_ortho(&orth)))?;
            let mut w = stale::<M::Spectral>(or);
            m.to_ortho_inplace(&spec, &mut w);
            let mut w2 = stale::<M::Spectral>(or);
            m.to_ortho_inplace_par(&spec, &mut w2);
            let mut w3 = Array2::zeros(or);
            s.to_ortho_inplace(&spec, &mut w3);
            ser("serial to_ortho", cv(&w), cv(&w3))?;
            ser("serial to_ortho_par", cv(&w2), cv(&w3))?;
            let mut w = stale::<M::Spectral>(sp);
            m.forward_inplace(&phys, &mut w);
            ser("serial forward_inplace", cv(&w), cv(&s.forward(&phys)))?;
            let mut w = stale::<M::Spectral>(sp);
            m.forward_inplace_par(&phys, &mut w);
            ser("serial forward_inplace_par", cv(&w), cv(&s.forward(&phys)))?;
            let mut w = stale::<M::Spectral>(sp);
            m.from_ortho_inplace(&orth, &mut w);
            ser("serial from_ortho_inplace", cv(&w), cv(&s.from_ortho(&orth)))?;
            let mut w = stale::<M::Spectral>(sp);
            m.from_ortho_inplace_par(&orth, &mut w);
            ser("serial from_ortho_inplace_par", cv(&w), cv(&s.from_ortho(&orth)))?;
            let mut w = stale::<M::Physical>(ph);
            m.backward_inplace(&spec, &mut w);
            ser("serial backward_inplace", cp(&w), cp(&s.backward(&spec)))?;
            let mut w = stale::<M::Physical>(ph);
            m.backward_inplace_par(&spec, &mut w);
            ser("serial backward_inplace_par", cp(&w), cp(&s.backward(&spec)))?;
            for (dv, sc) in [([1, 0], scales[0]), ([1, 2], scales[1]), ([0, 3], scales[2]), ([2, 1], scales[3])] {
                ser("serial gradient", cv(&m.gradient(&spec, dv, sc)), cv(&s.gradient(&spec, dv, sc)))?;
                ser("serial gradient_par", cv(&m.gradient_par(&spec, dv, sc)), cv(&s.gradient(&spec, dv, sc)))?;
            }
        }
    }
    // a cloned space does the same
    let k = m.clone();
    let pen = cut(&field::<M::Physical>(ph, 1), &dp.y_pencil);
    let (a, b) = (k.forward_mpi(&pen), m.forward_mpi(&pen));
    same("forward of a cloned space", &a, &b)?;
    Ok(ops)
}

fn wrong_shapes<A, M>(m: &M) -> Res
where
    A: Real,
    M: BaseSpaceMpi<A, 2>,
    M::Physical: Num + El,
    M::Spectral: Num + El,
{
    let dp = m.get_decomp_from_global_shape(&m.shape_physical());
    let ds = m.get_decomp_from_global_shape(&m.shape_spectral());
    let dor = m.get_decomp_from_global_shape(&m.shape_spectral_ortho());
    let bad = |s: [usize; 2]| -> Vec<[usize; 2]> {
        let mut v = vec![[s[0] + 1, s[1]], [s[0], s[1] + 1], [s[0] - 1, s[1]], [s[0], s[1] - 1], [s[1], s[0]], [s[0] + 1, s[1] - 1], [s[0] * 2, s[1]], [s[0], s[1] * 2]];
        v.retain(|w| *w != s);
        v
    };
    macro_rules! no {
        ($n:expr, $sh:expr, $e:expr) => {
            if let Ok(_) = catch_unwind(AssertUnwindSafe(|| {
                let _ = $e;
            })) {
                return Err(format!("{} accepts a pencil of shape {:?} (physical {:?}, spectral {:?})", $n, $sh, dp.y_pencil.sz, ds.x_pencil.sz));
            }
        };
    }
    let one = |s: [usize; 2]| Array2::<M::Spectral>::zeros(s);
    let onep = |s: [usize; 2]| Array2::<M::Physical>::zeros(s);
    for w in bad(dp.y_pencil.sz) {
        no!("forward_mpi", w, m.forward_mpi(&onep(w)));
        no!("forward_inplace_mpi", w, m.forward_inplace_mpi(&onep(w), &mut one(ds.x_pencil.sz)));
        no!("backward_inplace_mpi (output)", w, m.backward_inplace_mpi(&one(ds.x_pencil.sz), &mut onep(w)));
    }
    for w in bad(ds.x_pencil.sz) {
        no!("backward_mpi", w, m.backward_mpi(&one(w)));
        no!("backward_inplace_mpi", w, m.backward_inplace_mpi(&one(w), &mut onep(dp.y_pencil.sz)));
        no!("forward_inplace_mpi (output)", w, m.forward_inplace_mpi(&onep(dp.y_pencil.sz), &mut one(w)));
        no!("to_ortho_mpi", w, m.to_ortho_mpi(&one(w)));
        no!("to_ortho_inplace_mpi", w, m.to_ortho_inplace_mpi(&one(w), &mut one(dor.x_pencil.sz)));
        no!("from_ortho_inplace_mpi (output)", w, m.from_ortho_inplace_mpi(&one(dor.x_pencil.sz), &mut one(w)));
        no!("gradient_mpi", w, m.gradient_mpi(&one(w), [1, 1], None));
    }
    for w in bad(dor.x_pencil.sz) {
        no!("from_ortho_mpi", w, m.from_ortho_mpi(&one(w)));
        no!("from_ortho_inplace_mpi", w, m.from_ortho_inplace_mpi(&one(w), &mut one(ds.x_pencil.sz)));
        no!("to_ortho_inplace_mpi (output)", w, m.to_ortho_inplace_mpi(&one(ds.x_pencil.sz), &mut one(w)));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn case<A: Real>(c: &mut Case, k0: K, n0: usize, k1: K, n1: usize, p: usize, full: bool, fields: &[usize], lays: (Lay, Lay))
where
    Complex<A>: Num + El + ScalarNum,
    A: El,
    (A, Complex<A>): Both<A>,
{
    let name = format!("{k0:?}({n0}) x {k1:?}({n1})");
    for compl in [Completion::Eager, Completion::Sync] {
        let ops = std::sync::atomic::AtomicU64::new(0);
        let ok = world(c, &one(), p, compl, &name, &|u, r| {
            let k = <(A, Complex<A>)>::run(k0, n0, k1, n1, u, p, r, full && compl == Completion::Eager, fields, lays)?;
            ops.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
            Ok(())
        });
        c.step(ops.into_inner());
        if !ok {
            return;
        }
    }
}
/// Instantiations per scalar type.
pub trait Both<A> {
    #[allow(clippy::too_many_arguments)]
    fn run(k0: K, n0: usize, k1: K, n1: usize, u: &Universe, p: usize, r: usize, full: bool, fields: &[usize], lays: (Lay, Lay)) -> Result<u64, String>;
    fn refuse(k0: K, n0: usize, k1: K, n1: usize, u: &Universe) -> Res;
}
macro_rules! both {
    ($a:ty) => {
        impl Both<$a> for ($a, Complex<$a>) {
            fn run(k0: K, n0: usize, k1: K, n1: usize, u: &Universe, p: usize, r: usize, full: bool, fields: &[usize], lays: (Lay, Lay)) -> Result<u64, String> {
                with_spaces!($a, k0, n0, k1, n1, u, |m, s| compare::<$a, _, _>(&m, &s, u, p, r, full, fields, lays))
            }
            fn refuse(k0: K, n0: usize, k1: K, n1: usize, u: &Universe) -> Res {
                with_spaces!($a, k0, n0, k1, n1, u, |m, _s| wrong_shapes::<$a, _>(&m))
            }
        }
    };
}
both!(f64);
both!(f32);

pub fn c14(ctx: &mut Ctx) {
    let th = ctx.thorough();
    for (k0, k1) in pairs() {
        ctx.group(&format!("{k0:?} x {k1:?}"));
        for p in 1..=if th { 5 } else { 4 } {
            let (a, b) = (k0.for_ranks(p), k1.for_ranks(p));
            let d = if th { 5 } else { 3 };
            for i in 0..d {
                for j in 0..d {
                    if !th && i + j > 3 {
                        continue;
                    }
                    let (n0, n1) = (a + i, b + j);
                    let l = [(Lay::C, Lay::C), (Lay::Rows, Lay::C), (Lay::C, Lay::Rows), (Lay::Rows, Lay::Rows)][(i * 3 + j + p) % 4];
                    ctx.case(
                        || format!("{k0:?}({n0}) x {k1:?}({n1}) over {p} ranks"),
                        |c| case::<f64>(c, k0, n0, k1, n1, p, i + j <= 1, if i + j <= 1 { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 4] }, l),
                    );
                }
            }
            ctx.case(|| format!("{k0:?}({}) x {k1:?}({}) over {p} ranks, f32", a + 1, b + 2), |c| case::<f32>(c, k0, a + 1, k1, b + 2, p, true, &[0, 2, 3, 5], (Lay::C, Lay::C)));
        }
        // larger grids
        let big = [(17, 24, 5), (32, 18, 3), (21, 33, 8), (40, 16, 6), (16, 16, 2), (64, 10, 2), (11, 65, 7), (130, 14, 2), (13, 131, 3), (66, 70, 4), (50, 100, 2), (24, 24, 12)];
        for (n0, n1, p) in big {
            let f = |k: K, n: usize| n.max(k.for_ranks(p));
            let (n0, n1) = (f(k0, n0), f(k1, n1));
            ctx.case(|| format!("{k0:?}({n0}) x {k1:?}({n1}) over {p} ranks"), |c| case::<f64>(c, k0, n0, k1, n1, p, false, &[0, 1, 5], (Lay::C, Lay::C)));
        }
        for (i, j) in [(0, 0), (1, 2), (2, 1)] {
            let (n0, n1) = (k0.for_ranks(2) + 1 + i, k1.for_ranks(2) + 1 + j);
            ctx.case(
                || format!("wrong shapes, {k0:?}({n0}) x {k1:?}({n1}), one rank"),
                |c| {
                    c.step(80);
                    c.trace(1);
                    match alone(1, 0, &|u| <(f64, Complex<f64>)>::refuse(k0, n0, k1, n1, u)) {
                        Ok(Ok(())) => {}
                        Ok(Err(m)) | Err(m) => c.fail(m),
                    }
                },
            );
        }
    }
    ctx.group("arrival orders");
    for (k0, k1) in pairs() {
        for (p, b) in [(2, usize::MAX), (3, 0), (3, 1), (4, 0)] {
            for op in 0..5 {
                if !th && ((p, b) == (3, 1) && (k0 != k1 || op > 1) || p == 4) {
                    continue;
                }
                let (n0, n1) = (k0.for_ranks(p) + 1, k1.for_ranks(p));
                ctx.case(
                    || format!("arrival orders of operation {op} of {k0:?}({n0}) x {k1:?}({n1}), {p} ranks, {} preemptions", if b == usize::MAX { "all".into() } else { format!("up to {b}") }),
                    |c| {
                        world(c, &cfg(b, 300_000), p, Completion::Choose, "arrival orders", &|u, _r| with_spaces!(f64, k0, n0, k1, n1, u, |m, s| one_op::<f64, _, _>(&m, &s, op, 0)));
                    },
                );
            }
        }
    }
}

/// One distributed operation against the serial space.
pub fn one_op<A, M, S>(m: &M, s: &S, op: usize, f: usize) -> Res
where
    A: Real,
    M: BaseSpaceMpi<A, 2>,
    S: BaseSpace<A, 2, Physical = M::Physical, Spectral = M::Spectral>,
    M::Physical: Num + El,
    M::Spectral: Num + El,
{
    let (ph, sp, or) = (s.shape_physical(), s.shape_spectral(), s.shape_spectral_ortho());
    let dp = m.get_decomp_from_global_shape(&ph);
    let ds = m.get_decomp_from_global_shape(&sp);
    let dor = m.get_decomp_from_global_shape(&or);
    let phys: Array2<M::Physical> = field(ph, f);
    let spec: Array2<M::Spectral> = field(sp, f);
    let orth: Array2<M::Spectral> = field(or, f);
    let eps = A::EPS;
    match op {
        0 => {
            let w = s.forward(&phys);
            near("forward", &m.forward_mpi(&cut(&phys, &dp.y_pencil)), &cut(&w, &ds.x_pencil), norm(&w), eps)
        }
        1 => {
            let w = s.backward(&spec);
            near("backward", &m.backward_mpi(&cut(&spec, &ds.x_pencil)), &cut(&w, &dp.y_pencil), norm(&w), eps)
        }
        2 => {
            let mut w = Array2::zeros(or);
            s.to_ortho_inplace(&spec, &mut w);
            near("to_ortho", &m.to_ortho_mpi(&cut(&spec, &ds.x_pencil)), &cut(&w, &dor.x_pencil), norm(&w), eps)
        }
        3 => {
            let w = s.from_ortho(&orth);
            near("from_ortho", &m.from_ortho_mpi(&cut(&orth, &dor.x_pencil)), &cut(&w, &ds.x_pencil), norm(&w), eps)
        }
        _ => {
            let sc = Some([A::of(Complex::new(2., 0.)), A::of(Complex::new(0.5, 0.))]);
            let w = s.gradient(&spec, [1, 2], sc);
            near("gradient", &m.gradient_mpi(&cut(&spec, &ds.x_pencil), [1, 2], sc), &cut(&w, &dor.x_pencil), norm(&w), eps)
        }
    }
}
