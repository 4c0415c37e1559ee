//! C13: distributed data movement.
use crate::arr::*;
use crate::fw::*;
use crate::world::*;
use funspace::space_mpi::{BaseSpaceMpi, Decomp2d, Space2Mpi, Universe};
use funspace::*;
use ndarray::Array2;
use num_complex::Complex;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Every movement between pencils of one decomposition, once, on this rank.
/// `d`: the decomposition; `g`: the global array; `mv`: the operations.
pub trait Mover<T> {
    fn decomp(&self) -> Decomp2d<'_>;
    fn x_to_y(&self, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>);
    fn y_to_x(&self, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>);
    fn gather(&self, x: bool, s: &ndarray::ArrayView2<T>);
    fn gather_root(&self, x: bool, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>);
    fn gather_root_alloc(&self, x: bool, s: &ndarray::ArrayView2<T>) -> Option<Array2<T>>;
    fn all_gather(&self, x: bool, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>);
    fn scatter(&self, x: bool, o: &mut ndarray::ArrayViewMut2<T>);
    fn scatter_root(&self, x: bool, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>);
    fn scatter_alloc(&self, x: bool) -> Option<Array2<T>>;
    fn scatter_root_alloc(&self, x: bool, s: &ndarray::ArrayView2<T>) -> Option<Array2<T>>;
}
impl<T: El> Mover<T> for Decomp2d<'_> {
    fn decomp(&self) -> Decomp2d<'_> {
        self.clone()
    }
    fn x_to_y(&self, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>) {
        self.transpose_x_to_y(s, o)
    }
    fn y_to_x(&self, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>) {
        self.transpose_y_to_x(s, o)
    }
    fn gather(&self, x: bool, s: &ndarray::ArrayView2<T>) {
        if x {
            self.gather_x(s)
        } else {
            self.gather_y(s)
        }
    }
    fn gather_root(&self, x: bool, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>) {
        if x {
            self.gather_x_inplace_root(s, o)
        } else {
            self.gather_y_inplace_root(s, o)
        }
    }
    fn gather_root_alloc(&self, x: bool, s: &ndarray::ArrayView2<T>) -> Option<Array2<T>> {
        Some(if x { self.gather_x_root(s) } else { self.gather_y_root(s) })
    }
    fn all_gather(&self, x: bool, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>) {
        if x {
            self.all_gather_x(s, o)
        } else {
            self.all_gather_y(s, o)
        }
    }
    fn scatter(&self, x: bool, o: &mut ndarray::ArrayViewMut2<T>) {
        if x {
            self.scatter_x_inplace(o)
        } else {
            self.scatter_y_inplace(o)
        }
    }
    fn scatter_root(&self, x: bool, s: &ndarray::ArrayView2<T>, o: &mut ndarray::ArrayViewMut2<T>) {
        if x {
            self.scatter_x_inplace_root(s, o)
        } else {
            self.scatter_y_inplace_root(s, o)
        }
    }
    fn scatter_alloc(&self, x: bool) -> Option<Array2<T>> {
        Some(if x { self.scatter_x() } else { self.scatter_y() })
    }
    fn scatter_root_alloc(&self, x: bool, s: &ndarray::ArrayView2<T>) -> Option<Array2<T>> {
        Some(if x { self.scatter_x_root(s) } else { self.scatter_y_root(s) })
    }
}
/// The movements of a space, of physical (`P`) or spectral arrays.
pub struct SpaceMover<'s, S, A, const P: bool>(pub &'s S, pub std::marker::PhantomData<A>);
macro_rules! space_mover {
    ($p:literal, $ty:ident, $shape:ident, $x2y:ident, $y2x:ident, $gx:ident, $gy:ident, $gxr:ident, $gyr:ident, $agx:ident, $agy:ident, $sx:ident, $sy:ident, $sxr:ident, $syr:ident) => {
        impl<'s, A, S> Mover<<S as BaseSpaceTransform<A, 2>>::$ty> for SpaceMover<'s, S, A, $p>
        where
            A: FloatNum,
            S: BaseSpaceMpi<A, 2>,
        {
            fn decomp(&self) -> Decomp2d<'_> {
                self.0.get_decomp_from_global_shape(&self.0.$shape()).clone()
            }
            fn x_to_y(&self, s: &ndarray::ArrayView2<S::$ty>, o: &mut ndarray::ArrayViewMut2<S::$ty>) {
                self.0.$x2y(s, o)
            }
            fn y_to_x(&self, s: &ndarray::ArrayView2<S::$ty>, o: &mut ndarray::ArrayViewMut2<S::$ty>) {
                self.0.$y2x(s, o)
            }
            fn gather(&self, x: bool, s: &ndarray::ArrayView2<S::$ty>) {
                if x {
                    self.0.$gx(s)
                } else {
                    self.0.$gy(s)
                }
            }
            fn gather_root(&self, x: bool, s: &ndarray::ArrayView2<S::$ty>, o: &mut ndarray::ArrayViewMut2<S::$ty>) {
                if x {
                    self.0.$gxr(s, o)
                } else {
                    self.0.$gyr(s, o)
                }
            }
            fn gather_root_alloc(&self, _x: bool, _s: &ndarray::ArrayView2<S::$ty>) -> Option<Array2<S::$ty>> {
                None
            }
            fn all_gather(&self, x: bool, s: &ndarray::ArrayView2<S::$ty>, o: &mut ndarray::ArrayViewMut2<S::$ty>) {
                if x {
                    self.0.$agx(s, o)
                } else {
                    self.0.$agy(s, o)
                }
            }
            fn scatter(&self, x: bool, o: &mut ndarray::ArrayViewMut2<S::$ty>) {
                if x {
                    self.0.$sx(o)
                } else {
                    self.0.$sy(o)
                }
            }
            fn scatter_root(&self, x: bool, s: &ndarray::ArrayView2<S::$ty>, o: &mut ndarray::ArrayViewMut2<S::$ty>) {
                if x {
                    self.0.$sxr(s, o)
                } else {
                    self.0.$syr(s, o)
                }
            }
            fn scatter_alloc(&self, _x: bool) -> Option<Array2<S::$ty>> {
                None
            }
            fn scatter_root_alloc(&self, _x: bool, _s: &ndarray::ArrayView2<S::$ty>) -> Option<Array2<S::$ty>> {
                None
            }
        }
    };
}
space_mover!(
    true, Physical, shape_physical, transpose_x_to_y_phys, transpose_y_to_x_phys, gather_from_x_pencil_phys, gather_from_y_pencil_phys, gather_from_x_pencil_phys_root, gather_from_y_pencil_phys_root,
    all_gather_from_x_pencil_phys, all_gather_from_y_pencil_phys, scatter_to_x_pencil_phys, scatter_to_y_pencil_phys, scatter_to_x_pencil_phys_root, scatter_to_y_pencil_phys_root
);
space_mover!(
    false, Spectral, shape_spectral, transpose_x_to_y_spec, transpose_y_to_x_spec, gather_from_x_pencil_spec, gather_from_y_pencil_spec, gather_from_x_pencil_spec_root, gather_from_y_pencil_spec_root,
    all_gather_from_x_pencil_spec, all_gather_from_y_pencil_spec, scatter_to_x_pencil_spec, scatter_to_y_pencil_spec, scatter_to_x_pencil_spec_root, scatter_to_y_pencil_spec_root
);

/// Every movement of the global array `g` in the given memory layouts.
pub fn all_moves<T: El, M: Mover<T>>(m: &M, r: usize, g: &Array2<T>, li: Lay, lo: Lay) -> Res {
    let d = m.decomp();
    let (gx, gy) = g.dim();
    let (xs, ys) = (d.x_pencil.sz, d.y_pencil.sz);
    let xp = block(g, d.x_pencil.st, xs);
    let yp = block(g, d.y_pencil.st, ys);
    let root = r == 0;
    // transposes, forth and back
    let (hx, hy) = (Held::new(&xp, li), Held::new(&yp, li));
    let mut oy = Held::new(&stale::<T>(ys), lo);
    m.x_to_y(&hx.view(), &mut oy.view_mut());
    oy.expect("x-pencil to y-pencil", &yp)?;
    hx.expect("the sent x-pencil", &xp)?;
    let mut ox = Held::new(&stale::<T>(xs), lo);
    m.y_to_x(&oy.view(), &mut ox.view_mut());
    ox.expect("x-pencil to y-pencil and back", &xp)?;
    oy.expect("the sent y-pencil", &yp)?;
    let mut ox = Held::new(&stale::<T>(xs), lo);
    m.y_to_x(&hy.view(), &mut ox.view_mut());
    ox.expect("y-pencil to x-pencil", &xp)?;
    hy.expect("the sent y-pencil", &yp)?;
    let mut oy = Held::new(&stale::<T>(ys), lo);
    m.x_to_y(&ox.view(), &mut oy.view_mut());
    oy.expect("y-pencil to x-pencil and back", &yp)?;
    for x in [true, false] {
        let (n, h, p, sz) = if x { ("x-pencil", &hx, &xp, xs) } else { ("y-pencil", &hy, &yp, ys) };
        // gather on the root
        if root {
            let mut o = Held::new(&stale::<T>([gx, gy]), lo);
            m.gather_root(x, &h.view(), &mut o.view_mut());
            o.expect(&format!("gather of {n}s on the root"), g)?;
        } else {
            m.gather(x, &h.view());
        }
        h.expect(&format!("the gathered {n}"), p)?;
        if root {
            if let Some(o) = m.gather_root_alloc(x, &h.view()) {
                same(&format!("gather of {n}s on the root (allocating)"), &o, g)?;
            } else {
                let mut o = Held::new(&stale::<T>([gx, gy]), lo);
                m.gather_root(x, &h.view(), &mut o.view_mut());
            }
        } else {
            m.gather(x, &h.view());
        }
        h.expect(&format!("the gathered {n}"), p)?;
        // gather everywhere
        let mut o = Held::new(&stale::<T>([gx, gy]), lo);
        m.all_gather(x, &h.view(), &mut o.view_mut());
        o.expect(&format!("gather of {n}s on all ranks"), g)?;
        h.expect(&format!("the gathered {n}"), p)?;
        // scatter from the root
        let hg = Held::new(g, li);
        let mut o = Held::new(&stale::<T>(sz), lo);
        if root {
            m.scatter_root(x, &hg.view(), &mut o.view_mut());
            hg.expect("the scattered array", g)?;
        } else {
            m.scatter(x, &mut o.view_mut());
        }
        o.expect(&format!("scatter to {n}s"), p)?;
        if root {
            if let Some(o) = m.scatter_root_alloc(x, &hg.view()) {
                same(&format!("scatter to {n}s (allocating)"), &o, p)?;
            } else {
                m.scatter_root(x, &hg.view(), &mut o.view_mut());
            }
            hg.expect("the scattered array", g)?;
        } else if let Some(o) = m.scatter_alloc(x) {
            same(&format!("scatter to {n}s (allocating)"), &o, p)?;
        } else {
            m.scatter(x, &mut o.view_mut());
        }
    }
    Ok(())
}
pub const MOVES: u64 = 14;

pub fn c13(ctx: &mut Ctx) {
    let th = ctx.thorough();
    ctx.group("every grid and number of ranks");
    let m = if th { 11 } else { 8 };
    for nx in 1..=m {
        for ny in 1..=m {
            for p in 1..=nx.min(ny) {
                ctx.case(|| format!("move {nx} x {ny} over {p} ranks"), |c| grid::<f64>(c, nx, ny, p, &[0, 1, 2], if p <= 3 { 5 } else { 2 }));
            }
        }
    }
    for (nx, ny, p) in [(17, 12, 5), (12, 17, 5), (33, 9, 7), (9, 33, 9), (40, 40, 8), (64, 16, 16), (31, 47, 11), (129, 65, 4), (65, 129, 3), (128, 128, 2), (5, 1000, 5), (1000, 5, 4), (300, 300, 1), (2, 70, 2), (70, 2, 2), (16, 16, 16), (12, 12, 12)] {
        ctx.case(|| format!("move {nx} x {ny} over {p} ranks"), |c| grid::<f64>(c, nx, ny, p, &[0, 3], 1));
    }
    ctx.group("element types");
    macro_rules! types {
        ($($t:ty),*) => { $(
            for (nx, ny, p) in [(1, 1, 1), (3, 2, 1), (3, 2, 2), (5, 7, 2), (7, 5, 3), (4, 6, 4), (9, 8, 3)] {
                ctx.case(|| format!("move {nx} x {ny} over {p} ranks, {}", <$t>::NAME), |c| grid::<$t>(c, nx, ny, p, &[0, 1, 3, 4], 2));
            }
        )* };
    }
    types!(f32, Complex<f64>, Complex<f32>, i32, u8, i8, u16, i16, u32, i64, u64);
    ctx.group("spaces");
    let mut sh = vec![(10, 12), (13, 10), (11, 11)];
    if th {
        sh.extend([(10, 10), (12, 13), (16, 10), (17, 20)]);
    }
    for (n0, n1) in sh {
        for p in 1..=4 {
            ctx.case(
                || format!("movements of spaces, {n0} x {n1} over {p} ranks"),
                |c| {
                    for k in 0..6 {
                        space_moves(c, k, n0, n1, p);
                        if c.failed() {
                            return;
                        }
                    }
                },
            );
        }
    }
    ctx.group("refusals");
    let m = if th { 6 } else { 5 };
    for nx in 1..=m {
        for ny in 1..=m {
            for p in 1..=nx.min(ny).min(4) {
                ctx.case(|| format!("wrong shapes and ranks, {nx} x {ny} over {p} ranks"), |c| refusals(c, nx, ny, p));
            }
        }
    }
    ctx.group("arrival orders");
    for (nx, ny, p, b) in [(2, 2, 2, usize::MAX), (3, 2, 2, usize::MAX), (3, 4, 3, 1), (4, 3, 3, 1), (5, 3, 3, 0)] {
        for op in 0..8 {
            ctx.case(|| format!("arrival orders of two movements, first {op}, {nx} x {ny} over {p} ranks"), |c| orders(c, nx, ny, p, op, if th && p == 3 { b + 2 } else { b }, true));
        }
    }
    for (nx, ny, p, b) in [(4, 5, 4, if th { 2 } else { 1 }), (5, 4, 4, if th { 2 } else { 1 }), (5, 6, 5, 0)] {
        if p == 5 && !th {
            continue;
        }
        for op in 0..8 {
            ctx.case(|| format!("arrival orders of movement {op}, {nx} x {ny} over {p} ranks"), |c| orders(c, nx, ny, p, op, b, false));
        }
    }
}

fn grid<T: El>(c: &mut Case, nx: usize, ny: usize, p: usize, contents: &[usize], lays: usize) {
    for &content in contents {
        let g = global::<T>(nx, ny, content);
        for l in 0..lays {
            // pairs of layouts of the sent and received arrays
            let (li, lo) = (LAYS[l % 5], LAYS[(l * 2 + content) % 5]);
            for compl in [Completion::Eager, Completion::Sync] {
                c.step(MOVES * p as u64);
                if !world(c, &one(), p, compl, &format!("{nx} x {ny} {}, content {content}, layouts {li:?} {lo:?}", T::NAME), &|u, r| all_moves(&Decomp2d::new(u, [nx, ny]), r, &g, li, lo)) {
                    return;
                }
            }
        }
    }
}

fn moves_of<A, S>(sp: &S, r: usize, which: usize) -> Res
where
    A: FloatNum,
    S: BaseSpaceMpi<A, 2>,
    S::Physical: El,
    S::Spectral: El,
{
    let l = [(Lay::C, Lay::C), (Lay::F, Lay::C), (Lay::C, Lay::F), (Lay::Block, Lay::Stride), (Lay::Rev, Lay::Block), (Lay::Stride, Lay::Rev)][which % 6];
    let [a, b] = sp.shape_physical();
    all_moves(&SpaceMover::<S, A, true>(sp, std::marker::PhantomData), r, &global::<S::Physical>(a, b, 0), l.0, l.1).map_err(|m| format!("physical arrays: {m}"))?;
    let [a, b] = sp.shape_spectral();
    all_moves(&SpaceMover::<S, A, false>(sp, std::marker::PhantomData), r, &global::<S::Spectral>(a, b, 0), l.0, l.1).map_err(|m| format!("spectral arrays: {m}"))
}
fn space_moves(c: &mut Case, k: usize, n0: usize, n1: usize, p: usize) {
    c.step(2 * MOVES * p as u64);
    let name = ["dirichlet x neumann", "biharmonic x chebyshev", "r2c x dirichlet", "c2c x r2c", "c2c x c2c", "r2c x dirichlet f32"][k];
    world(c, &one(), p, Completion::Eager, &format!("{name} {n0} x {n1}"), &|u: &Universe, r| match k {
        0 => moves_of::<f64, _>(&Space2Mpi::new(&cheb_dirichlet(n0), &cheb_neumann(n1), u), r, k),
        1 => moves_of::<f64, _>(&Space2Mpi::new(&cheb_biharmonic_a(n0), &chebyshev(n1), u), r, k),
        2 => moves_of::<f64, _>(&Space2Mpi::new(&fourier_r2c(n0), &cheb_dirichlet(n1), u), r, k),
        3 => moves_of::<f64, _>(&Space2Mpi::new(&fourier_c2c(n0), &fourier_r2c(n1), u), r, k),
        4 => moves_of::<f64, _>(&Space2Mpi::new(&fourier_c2c(n0), &fourier_c2c(n1), u), r, k),
        _ => moves_of::<f32, _>(&Space2Mpi::new(&fourier_r2c(n0), &cheb_dirichlet(n1), u), r, k),
    });
}

/// Single movements, to explore their arrival orders.
pub fn one_move<T: El, M: Mover<T>>(m: &M, r: usize, g: &Array2<T>, op: usize) -> Res {
    let d = m.decomp();
    let xp = block(g, d.x_pencil.st, d.x_pencil.sz);
    let yp = block(g, d.y_pencil.st, d.y_pencil.sz);
    let sh = [g.shape()[0], g.shape()[1]];
    match op {
        0 => {
            let mut o = stale::<T>(d.y_pencil.sz);
            m.x_to_y(&xp.view(), &mut o.view_mut());
            same("x-pencil to y-pencil", &o, &yp)
        }
        1 => {
            let mut o = stale::<T>(d.x_pencil.sz);
            m.y_to_x(&yp.view(), &mut o.view_mut());
            same("y-pencil to x-pencil", &o, &xp)
        }
        2 | 3 => {
            let v = if op == 2 { &xp } else { &yp };
            if r == 0 {
                let mut o = stale::<T>(sh);
                m.gather_root(op == 2, &v.view(), &mut o.view_mut());
                same("gather on the root", &o, g)
            } else {
                m.gather(op == 2, &v.view());
                Ok(())
            }
        }
        4 | 5 => {
            let v = if op == 4 { &xp } else { &yp };
            let mut o = stale::<T>([v.shape()[0], v.shape()[1]]);
            if r == 0 {
                m.scatter_root(op == 4, &g.view(), &mut o.view_mut());
            } else {
                m.scatter(op == 4, &mut o.view_mut());
            }
            same("scatter", &o, v)
        }
        _ => {
            let v = if op == 6 { &xp } else { &yp };
            let mut o = stale::<T>(sh);
            m.all_gather(op == 6, &v.view(), &mut o.view_mut());
            same("gather on all ranks", &o, g)
        }
    }
}
fn orders(c: &mut Case, nx: usize, ny: usize, p: usize, op: usize, bound: usize, two: bool) {
    let g = global::<f64>(nx, ny, 0);
    // the movement, then one of the other kind: consecutive operations must not be mixed up
    world(c, &cfg(bound, 2_000_000), p, Completion::Choose, "arrival orders", &|u, r| {
        let d = Decomp2d::new(u, [nx, ny]);
        one_move(&d, r, &g, op)?;
        if two {
            one_move(&d, r, &g, [1, 0, 7, 6, 2, 3, 4, 5][op])?;
        }
        Ok(())
    });
}

/// Wrong shapes and wrong ranks.
fn refusals(c: &mut Case, nx: usize, ny: usize, p: usize) {
    type T = f64;
    let g = global::<T>(nx, ny, 0);
    for r in 0..p {
        // (expected shapes of the two array arguments) of every operation
        for op in 0..16usize {
            let x = op % 2 == 0;
            let shapes = |d: &Decomp2d| -> ([usize; 2], Option<[usize; 2]>) {
                let (a, b) = if x { (d.x_pencil.sz, d.y_pencil.sz) } else { (d.y_pencil.sz, d.x_pencil.sz) };
                match op / 2 {
                    0 => (a, Some(b)),            // transpose
                    1 => (a, None),               // gather
                    2 => (a, Some([nx, ny])),     // gather in place on the root
                    3 => (a, None),               // gather on the root
                    4 => (a, Some([nx, ny])),     // gather everywhere
                    5 => (a, None),               // scatter (receiving)
                    6 => ([nx, ny], Some(a)),     // scatter in place on the root
                    _ => ([nx, ny], None),        // scatter on the root
                }
            };
            let needs_root = matches!(op / 2, 2 | 3 | 6 | 7);
            let needs_other = matches!(op / 2, 1 | 5);
            let run = |u: &Universe, s1: [usize; 2], s2: Option<[usize; 2]>| {
                let d = Decomp2d::new(u, [nx, ny]);
                let a = Array2::<T>::zeros(s1);
                let mut a2 = a.clone();
                let mut b = Array2::<T>::zeros(s2.unwrap_or([1, 1]));
                match (op / 2, x) {
                    (0, true) => d.transpose_x_to_y(&a, &mut b),
                    (0, false) => d.transpose_y_to_x(&a, &mut b),
                    (1, true) => d.gather_x(&a),
                    (1, false) => d.gather_y(&a),
                    (2, true) => d.gather_x_inplace_root(&a, &mut b),
                    (2, false) => d.gather_y_inplace_root(&a, &mut b),
                    (3, true) => drop(d.gather_x_root(&a)),
                    (3, false) => drop(d.gather_y_root(&a)),
                    (4, true) => d.all_gather_x(&a, &mut b),
                    (4, false) => d.all_gather_y(&a, &mut b),
                    (5, true) => d.scatter_x_inplace(&mut a2),
                    (5, false) => d.scatter_y_inplace(&mut a2),
                    (6, true) => d.scatter_x_inplace_root(&a, &mut b),
                    (6, false) => d.scatter_y_inplace_root(&a, &mut b),
                    (_, true) => drop(d.scatter_x_root(&a)),
                    (_, false) => drop(d.scatter_y_root(&a)),
                }
            };
            let name = ["transpose_x_to_y", "transpose_y_to_x", "gather_x", "gather_y", "gather_x_inplace_root", "gather_y_inplace_root", "gather_x_root", "gather_y_root", "all_gather_x", "all_gather_y", "scatter_x_inplace", "scatter_y_inplace", "scatter_x_inplace_root", "scatter_y_inplace_root", "scatter_x_root", "scatter_y_root"][op];
            let Ok((s1, s2)) = alone(p, r, &|u| shapes(&Decomp2d::new(u, [nx, ny]))) else {
                return c.fail("no decomposition");
            };
            let wrong_rank = (needs_root && r != 0) || (needs_other && r == 0);
            let mut trials: Vec<([usize; 2], Option<[usize; 2]>)> = vec![];
            if wrong_rank {
                trials.push((s1, s2));
            } else {
                for w in wrong(s1, nx, ny) {
                    trials.push((w, s2));
                }
                if let Some(s2) = s2 {
                    for w in wrong(s2, nx, ny) {
                        trials.push((s1, Some(w)));
                    }
                }
            }
            for (t1, t2) in trials {
                c.step(1);
                c.state(1);
                let res = alone(p, r, &|u| run(u, t1, t2));
                match refused(&res) {
                    Some(true) => {}
                    Some(false) => return c.fail(format!("{name} on rank {r} of {p} for a {nx} x {ny} grid accepts arrays of shape {t1:?} and {t2:?}")),
                    // it communicates before it refuses: let the others take part
                    None if !wrong_rank => {
                        let ok = world(c, &one(), p, Completion::Eager, name, &|u, q| {
                            let d = Decomp2d::new(u, [nx, ny]);
                            if q == r {
                                return match catch_unwind(AssertUnwindSafe(|| run(u, t1, t2))) {
                                    Ok(()) => Err(format!("{name} for a {nx} x {ny} grid accepts arrays of shape {t1:?} and {t2:?}")),
                                    Err(e) => {
                                        let m = simrt::panic_msg(&*e);
                                        if m.starts_with("MPI:") {
                                            Err(format!("{name} for a {nx} x {ny} grid with arrays of shape {t1:?} and {t2:?}: {m}"))
                                        } else {
                                            Ok(())
                                        }
                                    }
                                };
                            }
                            // the matching operation of the other ranks
                            let k = match op / 2 {
                                0 => op,
                                1 | 2 | 3 => 2 + op % 2,
                                4 => 6 + op % 2,
                                _ => 4 + op % 2,
                            };
                            let _ = one_move(&d, q, &g, k);
                            Ok(())
                        });
                        if !ok {
                            return;
                        }
                    }
                    None => return c.fail(format!("{name} on rank {r} of {p}: communicates instead of refusing: {:?}", res)),
                }
            }
            // and the right call is not refused (root and non-root calls take part in C13's other cases)
        }
    }
    c.trace(1);
}
/// shapes that are not `s`: neighbours, transposed, same number of elements, the global shape
fn wrong(s: [usize; 2], nx: usize, ny: usize) -> Vec<[usize; 2]> {
    let mut v = vec![[s[1], s[0]], [nx, ny], [ny, nx], [1, s[0] * s[1]], [s[0] * s[1], 1], [0, s[1]], [s[0], 0], [s[0] * 2, s[1]], [s[0], s[1] * 2]];
    for a in 0..=2usize {
        for b in 0..=2usize {
            v.push([(s[0] + a).saturating_sub(1), (s[1] + b).saturating_sub(1)]);
        }
    }
    if s[1] % 2 == 0 {
        v.push([s[0] * 2, s[1] / 2]);
    }
    v.sort();
    v.dedup();
    v.retain(|w| *w != s);
    v
}
