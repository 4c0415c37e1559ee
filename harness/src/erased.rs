//! Type-erased access to the bases and spaces under test: every value crosses as `C64`.
use crate::num::*;
use funspace::traits::*;
use funspace::*;
use ndarray::{Array, Array2, ArrayD, Axis, Dimension, Ix1, Ix2, Ix3, IxDyn};
use num_complex::Complex;
use std::ops::{Add, Div, Mul, Sub};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Cheb,
    Dir,
    Neu,
    DirNeu,
    BihA,
    BihB,
    R2c,
    C2c,
}
use Kind::*;
pub const KINDS: [Kind; 8] = [Cheb, Dir, Neu, DirNeu, BihA, BihB, R2c, C2c];
pub const R2R: [Kind; 6] = [Cheb, Dir, Neu, DirNeu, BihA, BihB];
pub const COMPOSITE: [Kind; 5] = [Dir, Neu, DirNeu, BihA, BihB];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Cheb => "chebyshev",
            Dir => "cheb_dirichlet",
            Neu => "cheb_neumann",
            DirNeu => "cheb_dirichlet_neumann",
            BihA => "cheb_biharmonic_a",
            BihB => "cheb_biharmonic_b",
            R2c => "fourier_r2c",
            C2c => "fourier_c2c",
        }
    }
    pub fn composite(self) -> bool {
        COMPOSITE.contains(&self)
    }
    pub fn fourier(self) -> bool {
        matches!(self, R2c | C2c)
    }
    pub fn r2r(self) -> bool {
        !self.fourier()
    }
    /// smallest size on which every operation works
    pub fn min_n(self) -> usize {
        match self {
            Cheb => 2,
            Dir | Neu => 5,
            DirNeu => 6,
            BihA | BihB => 10,
            R2c | C2c => 1,
        }
    }
    /// smallest size on which everything but the transform to composite coefficients works
    pub fn min_n_ortho(self) -> usize {
        match self {
            Cheb => 2,
            Dir | Neu | DirNeu => 4,
            BihA | BihB => 8,
            R2c | C2c => 1,
        }
    }
    pub fn spec(self, n: usize) -> usize {
        match self {
            Cheb | C2c => n,
            Dir | Neu | DirNeu => n - 2,
            BihA | BihB => n - 4,
            R2c => n / 2 + 1,
        }
    }
    pub fn orth(self, n: usize) -> usize {
        match self {
            R2c => n / 2 + 1,
            _ => n,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Fwd,
    Bwd,
    To,
    From,
    Grad(usize),
}
impl Op {
    pub fn name(self) -> String {
        match self {
            Op::Fwd => "forward".into(),
            Op::Bwd => "backward".into(),
            Op::To => "to_ortho".into(),
            Op::From => "from_ortho".into(),
            Op::Grad(d) => format!("gradient({d})"),
        }
    }
    /// does it act on physical values
    pub fn in_phys(self) -> bool {
        self == Op::Fwd
    }
    pub fn out_phys(self) -> bool {
        self == Op::Bwd
    }
    /// (input, output) length of the op on a base
    pub fn lens(self, k: Kind, n: usize) -> (usize, usize) {
        let (p, s, o) = (n, k.spec(n), k.orth(n));
        match self {
            Op::Fwd => (p, s),
            Op::Bwd => (s, p),
            Op::To => (s, o),
            Op::From => (o, s),
            Op::Grad(_) => (s, o),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Var {
    Alloc,
    Inplace,
    Par,
    InplacePar,
}
pub const VARS: [Var; 4] = [Var::Alloc, Var::Inplace, Var::Par, Var::InplacePar];
impl Var {
    pub fn inplace(self) -> bool {
        matches!(self, Var::Inplace | Var::InplacePar)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mat {
    Diff(usize),
    DiffPinv(usize),
    Stencil,
    StencilInv,
    Lap,
    LapPinv,
}

/// Memory arrangement of an array handed to the code under test.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lay {
    C,
    /// column-major
    F,
    /// a sub-view of a larger array: trailing axes complete, first axis a range (standard layout)
    Sub,
    /// every second element of the last axis (not standard)
    Strided,
    /// last axis reversed (not standard)
    Reversed,
}

pub trait Bs: Send + Sync {
    fn len(&self) -> (usize, usize, usize);
    fn coords(&self) -> Vec<f64>;
    fn kind_name(&self) -> String;
    fn kind_debug(&self) -> String;
    fn tkind(&self) -> u8;
    /// coefficients (physical values) are complex
    fn cplx(&self) -> (bool, bool);
    fn eps(&self) -> f64;
    /// operation on slices; the output is prefilled
    fn slice(&self, op: Op, x: &[C64], out: &mut [C64]);
    /// operation on arrays; `out`: shape and contents of the output for in-place variants.
    /// Returns (output, input afterwards).
    fn arr(&self, op: Op, v: Var, x: &ArrayD<C64>, lay: Lay, out: Option<(&ArrayD<C64>, Lay)>, axis: usize, dynamic: bool) -> (ArrayD<C64>, ArrayD<C64>);
    fn mat(&self, m: Mat) -> (Array2<C64>, Option<Array2<C64>>);
    fn boxed(&self) -> Box<dyn Bs>;
    /// raw slice operations on caller-provided memory (bytes), for out-of-bounds checks
    unsafe fn raw(&self, op: Op, x: *const u8, nx: usize, y: *mut u8, ny: usize);
    /// element size and alignment of (input, output)
    fn elem(&self, op: Op) -> ((usize, usize), (usize, usize));
    /// encode values into raw memory / decode
    unsafe fn enc(&self, op: Op, input: bool, x: &[C64], p: *mut u8);
    unsafe fn dec(&self, op: Op, input: bool, p: *const u8, n: usize) -> Vec<C64>;
}

/// A base together with the scalar type `T` of the coefficients given to to_ortho, from_ortho and
/// gradient (the base's own spectral type, or a complex type for real bases).
pub struct W<B, T> {
    pub b: B,
    pub t: std::marker::PhantomData<fn() -> T>,
}

pub fn lay_array<T: Num, D: Dimension>(x: &ArrayD<C64>, lay: Lay) -> (Array<T, D>, Vec<usize>) {
    // returns storage from which `view_of` takes a view of the wanted layout
    let nd = x.ndim();
    let shape = x.shape().to_vec();
    let conv = |a: ArrayD<C64>| a.mapv(T::of).into_dimensionality::<D>().unwrap();
    match lay {
        Lay::C => (conv(x.as_standard_layout().into_owned()), shape),
        Lay::F => {
            let mut perm: Vec<usize> = (0..nd).collect();
            perm.reverse();
            let r = x.clone().permuted_axes(IxDyn(&perm)).as_standard_layout().into_owned();
            let a = r.mapv(T::of).permuted_axes(IxDyn(&perm));
            (a.into_dimensionality::<D>().unwrap(), shape)
        }
        Lay::Sub => {
            let mut big = shape.clone();
            big[0] += 2;
            let mut a = ArrayD::from_elem(IxDyn(&big), C64::new(7.25, -3.5));
            a.slice_axis_mut(Axis(0), (1..1 + shape[0]).into()).assign(x);
            (conv(a), shape)
        }
        Lay::Strided => {
            let mut big = shape.clone();
            big[nd - 1] *= 2;
            let mut a = ArrayD::from_elem(IxDyn(&big), C64::new(7.25, -3.5));
            a.slice_axis_mut(Axis(nd - 1), ndarray::Slice::new(0, None, 2)).assign(x);
            (conv(a), shape)
        }
        Lay::Reversed => {
            let mut a = x.clone();
            a.invert_axis(Axis(nd - 1));
            (conv(a.as_standard_layout().into_owned()), shape)
        }
    }
}
pub fn lay_view<'a, T, D: Dimension>(a: &'a Array<T, D>, lay: Lay) -> ndarray::ArrayView<'a, T, D> {
    let nd = a.ndim();
    let n0 = a.shape()[0];
    let mut v = a.view();
    match lay {
        Lay::C | Lay::F => {}
        Lay::Sub => v.slice_axis_inplace(Axis(0), (1..n0 as isize - 1).into()),
        Lay::Strided => v.slice_axis_inplace(Axis(nd - 1), ndarray::Slice::new(0, None, 2)),
        Lay::Reversed => v.invert_axis(Axis(nd - 1)),
    }
    v
}
pub fn lay_view_mut<'a, T, D: Dimension>(a: &'a mut Array<T, D>, lay: Lay) -> ndarray::ArrayViewMut<'a, T, D> {
    let nd = a.ndim();
    let n0 = a.shape()[0];
    let mut v = a.view_mut();
    match lay {
        Lay::C | Lay::F => {}
        Lay::Sub => v.slice_axis_inplace(Axis(0), (1..n0 as isize - 1).into()),
        Lay::Strided => v.slice_axis_inplace(Axis(nd - 1), ndarray::Slice::new(0, None, 2)),
        Lay::Reversed => v.invert_axis(Axis(nd - 1)),
    }
    v
}
pub fn to_dyn<T: Num, S: ndarray::Data<Elem = T>, D: Dimension>(a: &ndarray::ArrayBase<S, D>) -> ArrayD<C64> {
    a.view().into_dyn().mapv(|x| x.to())
}
/// elements of the storage outside the view that changed from the filler
fn margins_ok<T: Num, D: Dimension>(store: &Array<T, D>, lay: Lay) -> bool {
    let f = T::of(C64::new(7.25, -3.5)).to();
    let a = store.view().into_dyn();
    let nd = a.ndim();
    match lay {
        Lay::Sub => {
            let n0 = a.shape()[0];
            a.index_axis(Axis(0), 0).iter().all(|x| x.to() == f) && a.index_axis(Axis(0), n0 - 1).iter().all(|x| x.to() == f)
        }
        Lay::Strided => a.slice_axis(Axis(nd - 1), ndarray::Slice::new(1, None, 2)).iter().all(|x| x.to() == f),
        _ => true,
    }
}

impl<A, B, T> W<B, T>
where
    A: Real,
    T: Num + ScalarNum,
    B: BaseSize + BaseElements<RealNum = A> + BaseTransform + BaseFromOrtho<T> + BaseGradient<T> + BaseMatOpDiffmat + BaseMatOpStencil<NumType = A> + BaseMatOpLaplacian<NumType = A> + Clone + Send + Sync,
    B::Physical: Num,
    B::Spectral: Num,
    <B as BaseMatOpDiffmat>::NumType: Num,
{
    fn arr_d<D: Dimension>(&self, op: Op, v: Var, x: &ArrayD<C64>, lay: Lay, out: Option<(&ArrayD<C64>, Lay)>, axis: usize) -> (ArrayD<C64>, ArrayD<C64>) {
        let b = &self.b;
        macro_rules! go {
            ($i:ty, $o:ty, $al:ident, $ip:ident, $pa:ident, $ipa:ident $(, $d:expr)?) => {{
                let (xs, _) = simrt::uncontrolled(|| lay_array::<$i, D>(x, lay));
                let xv = lay_view(&xs, lay);
                let r = match v {
                    Var::Alloc => { let r = b.$al(&xv, $($d,)? axis); simrt::uncontrolled(|| to_dyn(&r)) },
                    Var::Par => { let r = b.$pa(&xv, $($d,)? axis); simrt::uncontrolled(|| to_dyn(&r)) },
                    Var::Inplace | Var::InplacePar => {
                        let (o, olay) = out.expect("output for an in-place call");
                        let (mut os, _) = simrt::uncontrolled(|| lay_array::<$o, D>(o, olay));
                        {
                            let mut ov = lay_view_mut(&mut os, olay);
                            if v == Var::Inplace {
                                b.$ip(&xv, &mut ov, $($d,)? axis);
                            } else {
                                b.$ipa(&xv, &mut ov, $($d,)? axis);
                            }
                        }
                        assert!(margins_ok(&os, olay), "memory outside the output view was written");
                        let r = simrt::uncontrolled(|| to_dyn(&lay_view(&os, olay)));
                        r
                    }
                };
                assert!(margins_ok(&xs, lay), "memory outside the input view was written");
                let xv = simrt::uncontrolled(|| to_dyn(&lay_view(&xs, lay)));
                (r, xv)
            }};
        }
        match op {
            Op::Fwd => go!(B::Physical, B::Spectral, forward, forward_inplace, forward_par, forward_inplace_par),
            Op::Bwd => go!(B::Spectral, B::Physical, backward, backward_inplace, backward_par, backward_inplace_par),
            Op::To => go!(T, T, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
            Op::From => go!(T, T, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
            Op::Grad(d) => go!(T, T, gradient, gradient_inplace, gradient_par, gradient_inplace_par, d),
        }
    }
}

fn cvm<T: Num>(a: Array2<T>) -> Array2<C64> {
    a.mapv(|x| x.to())
}

impl<A, B, T> Bs for W<B, T>
where
    A: Real,
    T: Num + ScalarNum,
    B: BaseSize + BaseElements<RealNum = A> + BaseTransform + BaseFromOrtho<T> + BaseGradient<T> + BaseMatOpDiffmat + BaseMatOpStencil<NumType = A> + BaseMatOpLaplacian<NumType = A> + Clone + Send + Sync + 'static,
    B::Physical: Num,
    B::Spectral: Num,
    <B as BaseMatOpDiffmat>::NumType: Num,
{
    fn len(&self) -> (usize, usize, usize) {
        (self.b.len_phys(), self.b.len_spec(), self.b.len_orth())
    }
    fn coords(&self) -> Vec<f64> {
        self.b.coords().into_iter().map(|x| x.to().re).collect()
    }
    fn kind_name(&self) -> String {
        self.b.base_kind().to_string()
    }
    fn kind_debug(&self) -> String {
        format!("{:?}", self.b.base_kind())
    }
    fn tkind(&self) -> u8 {
        match self.b.transform_kind() {
            enums::TransformKind::R2r => 0,
            enums::TransformKind::R2c => 1,
            enums::TransformKind::C2c => 2,
        }
    }
    fn cplx(&self) -> (bool, bool) {
        (T::COMPLEX, B::Physical::COMPLEX)
    }
    fn eps(&self) -> f64 {
        A::EPS
    }
    fn slice(&self, op: Op, x: &[C64], out: &mut [C64]) {
        let b = &self.b;
        macro_rules! go {
            ($i:ty, $o:ty, $f:ident $(, $d:expr)?) => {{
                let xi: Vec<$i> = simrt::uncontrolled(|| x.iter().map(|v| <$i>::of(*v)).collect());
                let mut yo: Vec<$o> = simrt::uncontrolled(|| out.iter().map(|v| <$o>::of(*v)).collect());
                b.$f(&xi, &mut yo $(, $d)?);
                simrt::uncontrolled(|| for (o, y) in out.iter_mut().zip(yo) {
                    *o = y.to();
                });
            }};
        }
        match op {
            Op::Fwd => go!(B::Physical, B::Spectral, forward_slice),
            Op::Bwd => go!(B::Spectral, B::Physical, backward_slice),
            Op::To => go!(T, T, to_ortho_slice),
            Op::From => go!(T, T, from_ortho_slice),
            Op::Grad(d) => go!(T, T, gradient_slice, d),
        }
    }
    fn arr(&self, op: Op, v: Var, x: &ArrayD<C64>, lay: Lay, out: Option<(&ArrayD<C64>, Lay)>, axis: usize, dynamic: bool) -> (ArrayD<C64>, ArrayD<C64>) {
        if A::WIDE && !dynamic {
            match x.ndim() {
                1 => return self.arr_d::<Ix1>(op, v, x, lay, out, axis),
                2 => return self.arr_d::<Ix2>(op, v, x, lay, out, axis),
                3 => return self.arr_d::<Ix3>(op, v, x, lay, out, axis),
                _ => {}
            }
        }
        self.arr_d::<IxDyn>(op, v, x, lay, out, axis)
    }
    fn mat(&self, m: Mat) -> (Array2<C64>, Option<Array2<C64>>) {
        let b = &self.b;
        match m {
            Mat::Diff(d) => (cvm(b.diffmat(d)), None),
            Mat::DiffPinv(d) => {
                let (p, i) = b.diffmat_pinv(d);
                (cvm(p), Some(cvm(i)))
            }
            Mat::Stencil => (cvm(b.stencil()), None),
            Mat::StencilInv => (cvm(b.stencil_inv()), None),
            Mat::Lap => (cvm(b.laplacian()), None),
            Mat::LapPinv => {
                let (p, i) = b.laplacian_pinv();
                (cvm(p), Some(cvm(i)))
            }
        }
    }
    fn boxed(&self) -> Box<dyn Bs> {
        Box::new(W::<B, T> { b: self.b.clone(), t: self.t })
    }
    unsafe fn raw(&self, op: Op, x: *const u8, nx: usize, y: *mut u8, ny: usize) {
        let b = &self.b;
        macro_rules! go {
            ($i:ty, $o:ty, $f:ident $(, $d:expr)?) => {{
                let xi = std::slice::from_raw_parts(x as *const $i, nx);
                let yo = std::slice::from_raw_parts_mut(y as *mut $o, ny);
                b.$f(xi, yo $(, $d)?);
            }};
        }
        match op {
            Op::Fwd => go!(B::Physical, B::Spectral, forward_slice),
            Op::Bwd => go!(B::Spectral, B::Physical, backward_slice),
            Op::To => go!(T, T, to_ortho_slice),
            Op::From => go!(T, T, from_ortho_slice),
            Op::Grad(d) => go!(T, T, gradient_slice, d),
        }
    }
    fn elem(&self, op: Op) -> ((usize, usize), (usize, usize)) {
        fn sa<X>() -> (usize, usize) {
            (std::mem::size_of::<X>(), std::mem::align_of::<X>())
        }
        match op {
            Op::Fwd => (sa::<B::Physical>(), sa::<B::Spectral>()),
            Op::Bwd => (sa::<B::Spectral>(), sa::<B::Physical>()),
            _ => (sa::<T>(), sa::<T>()),
        }
    }
    unsafe fn enc(&self, op: Op, input: bool, x: &[C64], p: *mut u8) {
        unsafe fn w<X: Num>(x: &[C64], p: *mut u8) {
            for (i, v) in x.iter().enumerate() {
                std::ptr::write((p as *mut X).add(i), X::of(*v));
            }
        }
        match (op, input) {
            (Op::Fwd, true) | (Op::Bwd, false) => w::<B::Physical>(x, p),
            (Op::Fwd, false) | (Op::Bwd, true) => w::<B::Spectral>(x, p),
            _ => w::<T>(x, p),
        }
    }
    unsafe fn dec(&self, op: Op, input: bool, p: *const u8, n: usize) -> Vec<C64> {
        unsafe fn r<X: Num>(p: *const u8, n: usize) -> Vec<C64> {
            (0..n).map(|i| std::ptr::read((p as *const X).add(i)).to()).collect()
        }
        match (op, input) {
            (Op::Fwd, true) | (Op::Bwd, false) => r::<B::Physical>(p, n),
            (Op::Fwd, false) | (Op::Bwd, true) => r::<B::Spectral>(p, n),
            _ => r::<T>(p, n),
        }
    }
}

pub fn r2r<A: Real>(k: Kind, n: usize) -> BaseR2r<A> {
    match k {
        Cheb => chebyshev(n),
        Dir => cheb_dirichlet(n),
        Neu => cheb_neumann(n),
        DirNeu => cheb_dirichlet_neumann(n),
        BihA => cheb_biharmonic_a(n),
        BihB => cheb_biharmonic_b(n),
        _ => unreachable!(),
    }
}

/// scalar type of the base under test
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sc {
    F64,
    F32,
    /// f64 base, complex coefficients (real-to-real bases only)
    Z64,
    Z32,
}
impl Sc {
    pub fn name(self) -> &'static str {
        match self {
            Sc::F64 => "f64",
            Sc::F32 => "f32",
            Sc::Z64 => "c64",
            Sc::Z32 => "c32",
        }
    }
    pub fn eps(self) -> f64 {
        match self {
            Sc::F64 | Sc::Z64 => f64::EPSILON,
            _ => f32::EPSILON as f64,
        }
    }
    pub fn f64ish(self) -> bool {
        matches!(self, Sc::F64 | Sc::Z64)
    }
}
/// scalar choices a kind admits
pub fn scalars(k: Kind) -> &'static [Sc] {
    if k.r2r() {
        &[Sc::F64, Sc::F32, Sc::Z64, Sc::Z32]
    } else {
        &[Sc::F64, Sc::F32]
    }
}

fn w<B, T>(b: B) -> W<B, T> {
    W { b, t: std::marker::PhantomData }
}
pub fn base(k: Kind, sc: Sc, n: usize) -> Box<dyn Bs> {
    match (k, sc) {
        (R2c, Sc::F64) => Box::new(w::<_, Complex<f64>>(fourier_r2c::<f64>(n))),
        (R2c, Sc::F32) => Box::new(w::<_, Complex<f32>>(fourier_r2c::<f32>(n))),
        (C2c, Sc::F64) => Box::new(w::<_, Complex<f64>>(fourier_c2c::<f64>(n))),
        (C2c, Sc::F32) => Box::new(w::<_, Complex<f32>>(fourier_c2c::<f32>(n))),
        (_, Sc::F64) if k.r2r() => Box::new(w::<_, f64>(r2r::<f64>(k, n))),
        (_, Sc::F32) if k.r2r() => Box::new(w::<_, f32>(r2r::<f32>(k, n))),
        (_, Sc::Z64) if k.r2r() => Box::new(w::<_, Complex<f64>>(r2r::<f64>(k, n))),
        (_, Sc::Z32) if k.r2r() => Box::new(w::<_, Complex<f32>>(r2r::<f32>(k, n))),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------------------------------
// spaces
// ------------------------------------------------------------------------------------------
pub trait Sp: Send + Sync {
    fn ndim(&self) -> usize;
    fn shapes(&self) -> (Vec<usize>, Vec<usize>, Vec<usize>);
    fn arrays(&self) -> (ArrayD<C64>, ArrayD<C64>);
    fn kind_name(&self, axis: usize) -> String;
    fn kind_debug(&self, axis: usize) -> String;
    fn tkind(&self, axis: usize) -> u8;
    fn coords_axis(&self, axis: usize) -> Vec<f64>;
    fn coords(&self) -> Vec<Vec<f64>>;
    fn mat(&self, m: Mat, axis: usize) -> (Array2<C64>, Option<Array2<C64>>);
    /// for Op::Grad the orders come from `deriv`
    fn op(&self, op: SOp, v: Var, x: &ArrayD<C64>, lay: Lay, out: Option<(&ArrayD<C64>, Lay)>) -> (ArrayD<C64>, ArrayD<C64>);
    fn eps(&self) -> f64;
    /// (spectral, physical) are complex
    fn cplx(&self) -> (bool, bool);
    fn boxed(&self) -> Box<dyn Sp>;
}
#[derive(Clone, PartialEq, Debug)]
pub enum SOp {
    Fwd,
    Bwd,
    To,
    From,
    Grad(Vec<usize>, Option<Vec<f64>>),
}

/// Coefficient scalar used for to_ortho/from_ortho/gradient.
pub struct WS<S, T, const N: usize> {
    pub s: S,
    pub t: std::marker::PhantomData<fn() -> T>,
}

macro_rules! impl_sp {
    ($n:literal) => {
        impl<A, S, T> Sp for WS<S, T, $n>
        where
            A: Real,
            T: Num + ScalarNum,
            S: Clone
                + Send
                + Sync
                + 'static
                + BaseSpaceSize<$n>
                + BaseSpaceElements<$n, RealNum = A>
                + BaseSpaceMatOpStencil<NumType = A>
                + BaseSpaceMatOpLaplacian<NumType = A>
                + BaseSpaceFromOrtho<A, T, $n>
                + BaseSpaceGradient<A, T, $n>
                + BaseSpaceTransform<A, $n>,
            S::Physical: Num,
            S::Spectral: Num,
        {
            fn ndim(&self) -> usize {
                $n
            }
            fn shapes(&self) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
                (self.s.shape_physical().to_vec(), self.s.shape_spectral().to_vec(), self.s.shape_spectral_ortho().to_vec())
            }
            fn arrays(&self) -> (ArrayD<C64>, ArrayD<C64>) {
                (to_dyn(&self.s.ndarray_physical()), to_dyn(&self.s.ndarray_spectral()))
            }
            fn kind_name(&self, axis: usize) -> String {
                self.s.base_kind(axis).to_string()
            }
            fn kind_debug(&self, axis: usize) -> String {
                format!("{:?}", self.s.base_kind(axis))
            }
            fn tkind(&self, axis: usize) -> u8 {
                match self.s.transform_kind(axis) {
                    enums::TransformKind::R2r => 0,
                    enums::TransformKind::R2c => 1,
                    enums::TransformKind::C2c => 2,
                }
            }
            fn coords_axis(&self, axis: usize) -> Vec<f64> {
                self.s.coords_axis(axis).iter().map(|x| x.to().re).collect()
            }
            fn coords(&self) -> Vec<Vec<f64>> {
                self.s.coords().iter().map(|c| c.iter().map(|x| x.to().re).collect()).collect()
            }
            fn mat(&self, m: Mat, axis: usize) -> (Array2<C64>, Option<Array2<C64>>) {
                match m {
                    Mat::Stencil => (cvm(self.s.stencil(axis)), None),
                    Mat::StencilInv => (cvm(self.s.stencil_inv(axis)), None),
                    Mat::Lap => (cvm(self.s.laplacian(axis)), None),
                    Mat::LapPinv => {
                        let (p, i) = self.s.laplacian_pinv(axis);
                        (cvm(p), Some(cvm(i)))
                    }
                    _ => unreachable!(),
                }
            }
            fn op(&self, op: SOp, v: Var, x: &ArrayD<C64>, lay: Lay, out: Option<(&ArrayD<C64>, Lay)>) -> (ArrayD<C64>, ArrayD<C64>) {
                type D = ndarray::Dim<[usize; $n]>;
                let b = &self.s;
                macro_rules! go {
                    ($i:ty, $o:ty, $al:ident, $ip:ident, $pa:ident, $ipa:ident) => {{
                        let (xs, _) = simrt::uncontrolled(|| lay_array::<$i, D>(x, lay));
                        let xv = lay_view(&xs, lay);
                        let r = match v {
                            Var::Alloc => { let r = b.$al(&xv); simrt::uncontrolled(|| to_dyn(&r)) },
                            Var::Par => { let r = b.$pa(&xv); simrt::uncontrolled(|| to_dyn(&r)) },
                            Var::Inplace | Var::InplacePar => {
                                let (o, olay) = out.expect("output for an in-place call");
                                let (mut os, _) = simrt::uncontrolled(|| lay_array::<$o, D>(o, olay));
                                {
                                    let mut ov = lay_view_mut(&mut os, olay);
                                    if v == Var::Inplace {
                                        b.$ip(&xv, &mut ov);
                                    } else {
                                        b.$ipa(&xv, &mut ov);
                                    }
                                }
                                assert!(margins_ok(&os, olay), "memory outside the output view was written");
                                let r = simrt::uncontrolled(|| to_dyn(&lay_view(&os, olay)));
                                r
                            }
                        };
                        let xv = simrt::uncontrolled(|| to_dyn(&lay_view(&xs, lay)));
                        (r, xv)
                    }};
                }
                match op {
                    SOp::Fwd => go!(S::Physical, S::Spectral, forward, forward_inplace, forward_par, forward_inplace_par),
                    SOp::Bwd => go!(S::Spectral, S::Physical, backward, backward_inplace, backward_par, backward_inplace_par),
                    #[cfg(not(feature = "no_space_to_ortho"))]
                    SOp::To => go!(T, T, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                    #[cfg(feature = "no_space_to_ortho")]
                    SOp::To => go!(T, T, from_ortho, to_ortho_inplace, from_ortho_par, to_ortho_inplace_par),
                    SOp::From => go!(T, T, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
                    SOp::Grad(d, s) => {
                        let (xs, _) = simrt::uncontrolled(|| lay_array::<T, D>(x, lay));
                        let xv = lay_view(&xs, lay);
                        let mut dd = [0usize; $n];
                        dd.copy_from_slice(&d);
                        let ss = s.map(|s| {
                            let mut r = [A::of(C64::new(1., 0.)); $n];
                            for (r, s) in r.iter_mut().zip(s) {
                                *r = A::of(C64::new(s, 0.));
                            }
                            r
                        });
                        let r = match v {
                            Var::Alloc => b.gradient(&xv, dd, ss),
                            _ => b.gradient_par(&xv, dd, ss),
                        };
                        let xv = simrt::uncontrolled(|| to_dyn(&lay_view(&xs, lay)));
                        (simrt::uncontrolled(|| to_dyn(&r)), xv)
                    }
                }
            }
            fn eps(&self) -> f64 {
                A::EPS
            }
            fn cplx(&self) -> (bool, bool) {
                (T::COMPLEX, S::Physical::COMPLEX)
            }
            fn boxed(&self) -> Box<dyn Sp> {
                Box::new(WS::<S, T, $n> { s: self.s.clone(), t: self.t })
            }
        }
    };
}
impl_sp!(1);
impl_sp!(2);
impl_sp!(3);

fn ws<S, T, const N: usize>(s: S) -> WS<S, T, N> {
    WS { s, t: std::marker::PhantomData }
}

/// Space over the bases `b` (first axis first); None if the combination is not admissible.
pub fn space_t<A: Real>(b: &[(Kind, usize)]) -> Option<Box<dyn Sp>>
where
    Complex<A>: Num + ScalarNum + From<A> + Add<A, Output = Complex<A>> + Mul<A, Output = Complex<A>> + Div<A, Output = Complex<A>> + Sub<A, Output = Complex<A>>,
    A: From<A> + Add<A, Output = A>,
{
    fn f(k: Kind) -> u8 {
        match k {
            R2c => 1,
            C2c => 2,
            _ => 0,
        }
    }
    type Z<A> = Complex<A>;
    let p: Vec<u8> = b.iter().map(|x| f(x.0)).collect();
    let r = |i: usize| r2r::<A>(b[i].0, b[i].1);
    let rc = |i: usize| fourier_r2c::<A>(b[i].1);
    let cc = |i: usize| fourier_c2c::<A>(b[i].1);
    Some(match &p[..] {
        [0] => Box::new(ws::<_, A, 1>(Space1::new(&r(0)))),
        [1] => Box::new(ws::<_, Z<A>, 1>(Space1::new(&rc(0)))),
        [2] => Box::new(ws::<_, Z<A>, 1>(Space1::new(&cc(0)))),
        [0, 0] => Box::new(ws::<_, A, 2>(Space2::new(&r(0), &r(1)))),
        [1, 0] => Box::new(ws::<_, Z<A>, 2>(Space2::new(&rc(0), &r(1)))),
        [2, 1] => Box::new(ws::<_, Z<A>, 2>(Space2::new(&cc(0), &rc(1)))),
        [2, 2] => Box::new(ws::<_, Z<A>, 2>(Space2::new(&cc(0), &cc(1)))),
        [0, 0, 0] => Box::new(ws::<_, A, 3>(Space3::new(&r(0), &r(1), &r(2)))),
        [1, 0, 0] => Box::new(ws::<_, Z<A>, 3>(Space3::new(&rc(0), &r(1), &r(2)))),
        [2, 1, 0] => Box::new(ws::<_, Z<A>, 3>(Space3::new(&cc(0), &rc(1), &r(2)))),
        [2, 2, 1] => Box::new(ws::<_, Z<A>, 3>(Space3::new(&cc(0), &cc(1), &rc(2)))),
        [2, 2, 2] => Box::new(ws::<_, Z<A>, 3>(Space3::new(&cc(0), &cc(1), &cc(2)))),
        _ => return None,
    })
}
pub fn space(b: &[(Kind, usize)], sc: Sc) -> Option<Box<dyn Sp>> {
    match sc {
        Sc::F32 => space_t::<f32>(b),
        _ => space_t::<f64>(b),
    }
}

// ------------------------------------------------------------------------------------------
// the types behind the enums
// ------------------------------------------------------------------------------------------
fn compo<A: Real>(k: Kind, n: usize) -> chebyshev::ChebyshevComposite<A> {
    use chebyshev::ChebyshevComposite as X;
    match k {
        Dir => X::dirichlet(n),
        Neu => X::neumann(n),
        DirNeu => X::dirichlet_neumann(n),
        BihA => X::biharmonic_a(n),
        BihB => X::biharmonic_b(n),
        _ => unreachable!(),
    }
}
/// The same base as `base`, made by the constructor of its own type and not wrapped in an enum.
pub fn concrete(k: Kind, sc: Sc, n: usize) -> Box<dyn Bs> {
    use chebyshev::Chebyshev;
    use fourier::{FourierC2c, FourierR2c};
    match (k, sc) {
        (R2c, Sc::F64) => Box::new(w::<_, Complex<f64>>(FourierR2c::<f64>::new(n))),
        (R2c, Sc::F32) => Box::new(w::<_, Complex<f32>>(FourierR2c::<f32>::new(n))),
        (C2c, Sc::F64) => Box::new(w::<_, Complex<f64>>(FourierC2c::<f64>::new(n))),
        (C2c, Sc::F32) => Box::new(w::<_, Complex<f32>>(FourierC2c::<f32>::new(n))),
        (Cheb, Sc::F64) => Box::new(w::<_, f64>(Chebyshev::<f64>::new(n))),
        (Cheb, Sc::F32) => Box::new(w::<_, f32>(Chebyshev::<f32>::new(n))),
        (Cheb, Sc::Z64) => Box::new(w::<_, Complex<f64>>(Chebyshev::<f64>::new(n))),
        (Cheb, Sc::Z32) => Box::new(w::<_, Complex<f32>>(Chebyshev::<f32>::new(n))),
        (_, Sc::F64) => Box::new(w::<_, f64>(compo::<f64>(k, n))),
        (_, Sc::F32) => Box::new(w::<_, f32>(compo::<f32>(k, n))),
        (_, Sc::Z64) => Box::new(w::<_, Complex<f64>>(compo::<f64>(k, n))),
        (_, Sc::Z32) => Box::new(w::<_, Complex<f32>>(compo::<f32>(k, n))),
    }
}
/// Wrapped by hand in the enum, the variant being public.
pub fn wrapped(k: Kind, n: usize) -> Box<dyn Bs> {
    match k {
        R2c => Box::new(w::<_, Complex<f64>>(BaseR2c::FourierR2c(fourier::FourierR2c::<f64>::new(n)))),
        C2c => Box::new(w::<_, Complex<f64>>(BaseC2c::FourierC2c(fourier::FourierC2c::<f64>::new(n)))),
        Cheb => Box::new(w::<_, f64>(BaseR2r::Chebyshev(chebyshev::Chebyshev::<f64>::new(n)))),
        _ => Box::new(w::<_, f64>(BaseR2r::ChebyshevComposite(compo::<f64>(k, n)))),
    }
}
/// What the orthogonal types offer without an instance: grid, wavenumbers (Fourier).
pub fn static_grid(k: Kind, sc: Sc, n: usize) -> (Vec<f64>, Option<Vec<C64>>) {
    fn go<A: Real>(k: Kind, n: usize) -> (Vec<f64>, Option<Vec<C64>>) {
        use fourier::{FourierC2c, FourierR2c};
        let re = |v: Vec<A>| v.into_iter().map(|x| x.to().re).collect();
        let cp = |v: Vec<Complex<A>>| Some(v.into_iter().map(|x| C64::new(x.re.to().re, x.im.to().re)).collect());
        match k {
            R2c => (re(FourierR2c::<A>::nodes(n)), cp(FourierR2c::<A>::wavenumber(n))),
            C2c => (re(FourierC2c::<A>::nodes(n)), cp(FourierC2c::<A>::wavenumber(n))),
            _ => (re(chebyshev::Chebyshev::<A>::nodes(n)), None),
        }
    }
    if sc.f64ish() {
        go::<f64>(k, n)
    } else {
        go::<f32>(k, n)
    }
}
/// ... and the Chebyshev matrices: derivative, pseudo-inverse, pseudo-identity
pub fn static_mats(sc: Sc, n: usize, d: usize) -> (Array2<C64>, Option<(Array2<C64>, Array2<C64>)>) {
    fn go<A: Real>(n: usize, d: usize) -> (Array2<C64>, Option<(Array2<C64>, Array2<C64>)>) {
        use chebyshev::Chebyshev as X;
        (cvm(X::<A>::_dmat(n, d)), (n > d).then(|| (cvm(X::<A>::_pinv(n, d)), cvm(X::<A>::_pinv_eye(n, d)))))
    }
    if sc.f64ish() {
        go::<f64>(n, d)
    } else {
        go::<f32>(n, d)
    }
}
