//! Conversions between the scalar types of the code under test and the reference scalar `C64`.
use num_complex::Complex;
pub type C64 = Complex<f64>;

pub trait Num: Copy + Send + Sync + 'static + num_traits::Zero + std::fmt::Debug {
    /// unit roundoff of the real part's type
    const EPS: f64;
    const COMPLEX: bool;
    fn to(self) -> C64;
    fn of(c: C64) -> Self;
}
impl Num for f64 {
    const EPS: f64 = f64::EPSILON;
    const COMPLEX: bool = false;
    fn to(self) -> C64 {
        C64::new(self, 0.)
    }
    fn of(c: C64) -> Self {
        c.re
    }
}
impl Num for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const COMPLEX: bool = false;
    fn to(self) -> C64 {
        C64::new(self as f64, 0.)
    }
    fn of(c: C64) -> Self {
        c.re as f32
    }
}
impl Num for Complex<f64> {
    const EPS: f64 = f64::EPSILON;
    const COMPLEX: bool = true;
    fn to(self) -> C64 {
        self
    }
    fn of(c: C64) -> Self {
        c
    }
}
impl Num for Complex<f32> {
    const EPS: f64 = f32::EPSILON as f64;
    const COMPLEX: bool = true;
    fn to(self) -> C64 {
        C64::new(self.re as f64, self.im as f64)
    }
    fn of(c: C64) -> Self {
        Complex::new(c.re as f32, c.im as f32)
    }
}
/// Real scalar types of the code under test.
pub trait Real: Num + funspace::FloatNum + funspace::ScalarNum {
    const NAME: &'static str;
    /// instantiate every dimensionality and space combination (f32 only runs a selection)
    const WIDE: bool;
}
impl Real for f64 {
    const NAME: &'static str = "f64";
    const WIDE: bool = true;
}
impl Real for f32 {
    const NAME: &'static str = "f32";
    const WIDE: bool = false;
}
