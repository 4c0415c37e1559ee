//! Arrays in several memory layouts and element types with position-coded contents.
use mpi_crate::traits::Equivalence;
use ndarray::{s, Array2, ArrayView2, ArrayViewMut2, Axis};
use num_complex::Complex;
use num_traits::Zero;
use std::fmt::Debug;

pub trait El: Copy + Zero + Equivalence + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn of(k: usize) -> Self;
    fn special(k: usize) -> Self {
        Self::of(k)
    }
    fn bits(self) -> u128;
}
macro_rules! el_int {
    ($($t:ty),*) => { $(impl El for $t {
        const NAME: &'static str = stringify!($t);
        fn of(k: usize) -> Self { (k + 1) as $t }
        fn bits(self) -> u128 { self as u128 }
    })* };
}
el_int!(u8, i8, u16, i16, i32, u32, i64, u64);
macro_rules! el_float {
    ($($t:ident),*) => { $(impl El for $t {
        const NAME: &'static str = stringify!($t);
        fn of(k: usize) -> Self { (k as $t + 1.) * 0.5 }
        fn special(k: usize) -> Self {
            match k % 5 { 0 => $t::NAN, 1 => -0.0, 2 => $t::INFINITY, 3 => $t::MIN_POSITIVE / 8., _ => Self::of(k) }
        }
        fn bits(self) -> u128 { self.to_bits() as u128 }
    })* };
}
el_float!(f32, f64);
impl El for Complex<f64> {
    const NAME: &'static str = "Complex<f64>";
    fn of(k: usize) -> Self {
        Complex::new(f64::of(k), -f64::of(3 * k + 1))
    }
    fn special(k: usize) -> Self {
        Complex::new(f64::special(k), f64::special(k / 2))
    }
    fn bits(self) -> u128 {
        (self.re.bits() << 64) | self.im.bits()
    }
}
impl El for Complex<f32> {
    const NAME: &'static str = "Complex<f32>";
    fn of(k: usize) -> Self {
        Complex::new(f32::of(k), -f32::of(3 * k + 1))
    }
    fn special(k: usize) -> Self {
        Complex::new(f32::special(k), f32::special(k / 2))
    }
    fn bits(self) -> u128 {
        (self.re.bits() << 64) | self.im.bits()
    }
}

/// Memory arrangement
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lay {
    C,
    F,
    /// block inside a larger array
    Block,
    /// every second element of both axes
    Stride,
    /// both axes reversed
    Rev,
    /// whole rows of a larger array
    Rows,
}
pub const LAYS: [Lay; 5] = [Lay::C, Lay::F, Lay::Block, Lay::Stride, Lay::Rev];

/// filler outside views
const FILL: usize = 90;

/// Storage with a view of the wanted layout whose contents are `a`.
pub struct Held<T> {
    store: Array2<T>,
    lay: Lay,
}
impl<T: El> Held<T> {
    pub fn new(a: &Array2<T>, lay: Lay) -> Self {
        let (n, m) = a.dim();
        let f = T::of(FILL);
        let store = match lay {
            Lay::C => a.clone(),
            Lay::F => a.t().as_standard_layout().into_owned().reversed_axes(),
            Lay::Block => Array2::from_elem((n + 2, m + 3), f),
            Lay::Stride => Array2::from_elem((2 * n, 2 * m), f),
            Lay::Rows => Array2::from_elem((n + 3, m), f),
            Lay::Rev => a.clone(),
        };
        let mut h = Held { store, lay };
        h.view_mut().assign(a);
        h
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        let (n, m) = self.store.dim();
        match self.lay {
            Lay::C | Lay::F => self.store.view(),
            Lay::Block => self.store.slice(s![1..n - 1, 2..m - 1]),
            Lay::Rows => self.store.slice(s![2..n - 1, ..]),
            Lay::Stride => self.store.slice(s![..;2, 1..;2]),
            Lay::Rev => self.store.slice(s![..;-1, ..;-1]),
        }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        let (n, m) = self.store.dim();
        match self.lay {
            Lay::C | Lay::F => self.store.view_mut(),
            Lay::Block => self.store.slice_mut(s![1..n - 1, 2..m - 1]),
            Lay::Rows => self.store.slice_mut(s![2..n - 1, ..]),
            Lay::Stride => self.store.slice_mut(s![..;2, 1..;2]),
            Lay::Rev => self.store.slice_mut(s![..;-1, ..;-1]),
        }
    }
    /// nothing outside the view was written
    fn margins(&self) -> bool {
        let total = self.store.iter().filter(|x| x.bits() == T::of(FILL).bits()).count();
        let inside = self.view().iter().filter(|x| x.bits() == T::of(FILL).bits()).count();
        total - inside == self.store.len() - self.view().len()
    }
    /// compare the contents
    pub fn expect(&self, what: &str, want: &Array2<T>) -> Result<(), String> {
        if !self.margins() {
            return Err(format!("{what}: memory outside the array view was written"));
        }
        same(what, &self.view(), want)
    }
}
pub fn same<T: El, S: ndarray::Data<Elem = T>>(what: &str, got: &ndarray::ArrayBase<S, ndarray::Ix2>, want: &Array2<T>) -> Result<(), String> {
    if got.shape() != want.shape() {
        return Err(format!("{what}: shape {:?} instead of {:?}", got.shape(), want.shape()));
    }
    for ((i, j), w) in want.indexed_iter() {
        let g = got[[i, j]];
        if g.bits() != w.bits() {
            return Err(format!("{what}: element [{i}, {j}] of shape {:?} is {g:?} instead of {w:?}", want.shape()));
        }
    }
    Ok(())
}
/// the block of `g` a pencil stands for
pub fn block<T: El>(g: &Array2<T>, st: [usize; 2], sz: [usize; 2]) -> Array2<T> {
    g.slice(s![st[0]..st[0] + sz[0], st[1]..st[1] + sz[1]]).to_owned()
}
/// Global array. `content`: 0 position coded; 1 special values; 2 position coded on one
/// half of the rows, zero elsewhere; 3 all elements equal; 4 all zero but one
pub fn global<T: El>(nx: usize, ny: usize, content: usize) -> Array2<T> {
    Array2::from_shape_fn((nx, ny), |(i, j)| {
        let k = i * ny + j;
        match content {
            0 => T::of(k),
            1 => T::special(k),
            2 => {
                if i >= nx / 2 && j >= ny / 2 {
                    T::of(k)
                } else {
                    T::zero()
                }
            }
            3 => T::of(4),
            _ => {
                if k == nx * ny / 2 {
                    T::of(k)
                } else {
                    T::zero()
                }
            }
        }
    })
}
/// previous contents of a receiving array
pub fn stale<T: El>(sh: [usize; 2]) -> Array2<T> {
    let mut a = Array2::from_shape_fn(sh, |(i, j)| T::of(40 + 3 * i + j));
    if let Some(mut l) = (sh[0] > 0).then(|| a.index_axis_mut(Axis(0), sh[0] - 1)) {
        l.fill(T::of(7));
    }
    a
}
