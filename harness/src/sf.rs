//! `Sf`: an f64 whose every arithmetic operation is a scheduling point, so that the explorer can
//! preempt a task between any two operations of the code under test.  `Zs` is the complex number
//! type used as a coefficient scalar with it.
use crate::num::*;
use num_complex::Complex;
use num_traits::*;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct Sf(pub f64);

macro_rules! binop {
    ($($tr:ident $f:ident $op:tt $atr:ident $af:ident;)*) => {$(
        impl $tr for Sf {
            type Output = Sf;
            #[inline]
            fn $f(self, o: Sf) -> Sf { simrt::point(); Sf(self.0 $op o.0) }
        }
        impl $atr for Sf {
            #[inline]
            fn $af(&mut self, o: Sf) { simrt::point(); self.0 = self.0 $op o.0; }
        }
    )*};
}
binop! { Add add + AddAssign add_assign; Sub sub - SubAssign sub_assign; Mul mul * MulAssign mul_assign; Div div / DivAssign div_assign; Rem rem % RemAssign rem_assign; }
impl Neg for Sf {
    type Output = Sf;
    #[inline]
    fn neg(self) -> Sf {
        simrt::point();
        Sf(-self.0)
    }
}
impl std::iter::Sum for Sf {
    fn sum<I: Iterator<Item = Sf>>(i: I) -> Sf {
        i.fold(Sf(0.), |a, b| a + b)
    }
}
impl Zero for Sf {
    fn zero() -> Sf {
        Sf(0.)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.
    }
}
impl One for Sf {
    fn one() -> Sf {
        Sf(1.)
    }
}
impl num_traits::Num for Sf {
    type FromStrRadixErr = <f64 as num_traits::Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Sf, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Sf)
    }
}
impl ToPrimitive for Sf {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl FromPrimitive for Sf {
    fn from_i64(n: i64) -> Option<Sf> {
        Some(Sf(n as f64))
    }
    fn from_u64(n: u64) -> Option<Sf> {
        Some(Sf(n as f64))
    }
    fn from_f64(n: f64) -> Option<Sf> {
        Some(Sf(n))
    }
}
impl NumCast for Sf {
    fn from<T: ToPrimitive>(n: T) -> Option<Sf> {
        n.to_f64().map(Sf)
    }
}
impl Signed for Sf {
    fn abs(&self) -> Sf {
        Sf(self.0.abs())
    }
    fn abs_sub(&self, o: &Sf) -> Sf {
        Sf((self.0 - o.0).max(0.))
    }
    fn signum(&self) -> Sf {
        Sf(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_negative(&self) -> bool {
        self.0.is_sign_negative()
    }
}
macro_rules! consts {
    ($($c:ident)*) => { impl FloatConst for Sf { $(fn $c() -> Sf { Sf(<f64 as FloatConst>::$c()) })* } };
}
consts! { E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2 }
macro_rules! floats {
    (c: $($c:ident)*; u: $($u:ident)*; p: $($p:ident)*; b: $($b:ident)*) => {
        impl Float for Sf {
            $(fn $c() -> Sf { Sf(<f64 as Float>::$c()) })*
            $(fn $u(self) -> Sf { simrt::point(); Sf(<f64 as Float>::$u(self.0)) })*
            $(fn $p(self) -> bool { <f64 as Float>::$p(self.0) })*
            $(fn $b(self, o: Sf) -> Sf { simrt::point(); Sf(<f64 as Float>::$b(self.0, o.0)) })*
            fn classify(self) -> FpCategory { self.0.classify() }
            fn mul_add(self, a: Sf, b: Sf) -> Sf { simrt::point(); Sf(self.0.mul_add(a.0, b.0)) }
            fn powi(self, n: i32) -> Sf { simrt::point(); Sf(self.0.powi(n)) }
            fn sin_cos(self) -> (Sf, Sf) { let (a, b) = self.0.sin_cos(); (Sf(a), Sf(b)) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
        }
    };
}
floats! {
    c: infinity neg_infinity nan neg_zero min_value min_positive_value epsilon max_value;
    u: floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
    p: is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative;
    b: powf log max min abs_sub hypot atan2
}
impl funspace::FloatNum for Sf {}
impl funspace::ScalarNum for Sf {}
impl crate::num::Num for Sf {
    const EPS: f64 = f64::EPSILON;
    const COMPLEX: bool = false;
    fn to(self) -> C64 {
        C64::new(self.0, 0.)
    }
    fn of(c: C64) -> Sf {
        Sf(c.re)
    }
}
impl Real for Sf {
    const NAME: &'static str = "instrumented";
    const WIDE: bool = false;
}
impl crate::num::Num for Complex<Sf> {
    const EPS: f64 = f64::EPSILON;
    const COMPLEX: bool = true;
    fn to(self) -> C64 {
        C64::new(self.re.0, self.im.0)
    }
    fn of(c: C64) -> Self {
        Complex::new(Sf(c.re), Sf(c.im))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Zs(pub Complex<Sf>);
macro_rules! zop {
    ($($tr:ident $f:ident $atr:ident $af:ident;)*) => {$(
        impl $tr for Zs { type Output = Zs; #[inline] fn $f(self, o: Zs) -> Zs { Zs($tr::$f(self.0, o.0)) } }
        impl $tr<Complex<Sf>> for Zs { type Output = Zs; #[inline] fn $f(self, o: Complex<Sf>) -> Zs { Zs($tr::$f(self.0, o)) } }
        impl $tr<Sf> for Zs { type Output = Zs; #[inline] fn $f(self, o: Sf) -> Zs { Zs($tr::$f(self.0, o)) } }
        impl $atr for Zs { #[inline] fn $af(&mut self, o: Zs) { $atr::$af(&mut self.0, o.0) } }
    )*};
}
zop! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; }
impl Zero for Zs {
    fn zero() -> Zs {
        Zs(Complex::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl One for Zs {
    fn one() -> Zs {
        Zs(Complex::one())
    }
}
impl FromPrimitive for Zs {
    fn from_i64(n: i64) -> Option<Zs> {
        Some(Zs(Complex::new(Sf(n as f64), Sf(0.))))
    }
    fn from_u64(n: u64) -> Option<Zs> {
        Some(Zs(Complex::new(Sf(n as f64), Sf(0.))))
    }
    fn from_f64(n: f64) -> Option<Zs> {
        Some(Zs(Complex::new(Sf(n), Sf(0.))))
    }
}
impl From<Sf> for Zs {
    fn from(x: Sf) -> Zs {
        Zs(Complex::new(x, Sf(0.)))
    }
}
impl From<Complex<Sf>> for Zs {
    fn from(x: Complex<Sf>) -> Zs {
        Zs(x)
    }
}
impl funspace::ScalarNum for Zs {}
impl crate::num::Num for Zs {
    const EPS: f64 = f64::EPSILON;
    const COMPLEX: bool = true;
    fn to(self) -> C64 {
        self.0.to()
    }
    fn of(c: C64) -> Zs {
        Zs(crate::num::Num::of(c))
    }
}
