//! C16: broadcast and sums.
use crate::fw::*;
use crate::world::*;
use funspace::space_mpi::{all_gather_sum, broadcast_scalar, gather_sum, Universe};
use mpi_crate::traits::Equivalence;
use num_complex::Complex;
use num_traits::Zero;
use std::fmt::Debug;

pub trait Sc: Zero + Equivalence + Copy + std::iter::Sum + Debug + Send + Sync + PartialEq + 'static {
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn letters() -> Vec<Self>;
    /// values of very different magnitude
    fn wild() -> Vec<Self> {
        vec![]
    }
    /// (value, sum of moduli, roundoff) for comparisons
    fn near(self, o: Self, mag: f64) -> bool;
    fn mag(self) -> f64;
    fn ident(self, o: Self) -> bool {
        self == o
    }
}
macro_rules! sc_int {
    ($($t:ty: [$($l:expr),*]),*) => { $(impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        fn of(x: f64) -> Self { x as $t }
        fn letters() -> Vec<Self> { vec![$($l),*] }
        fn near(self, o: Self, _m: f64) -> bool { self == o }
        fn mag(self) -> f64 { (self as f64).abs() }
    })* };
}
sc_int!(u8: [0, 1, 7, 15], i8: [0, -3, 5, 12], u16: [0, 1, 700, 4000], i16: [0, -1, 700, -2000], i32: [0, 1, -20, 100_000_000], u32: [0, 1, 300, 500_000_000], i64: [0, -1, 1 << 40, 17], u64: [0, 1, 1 << 40, 3]);
macro_rules! sc_float {
    ($($t:ident),*) => { $(impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        fn of(x: f64) -> Self { x as $t }
        fn letters() -> Vec<Self> { vec![0., 1., -2.5, 1024.25] }
        fn wild() -> Vec<Self> { vec![1e18, -1e18, 1e-12, $t::NAN, $t::INFINITY, -0.0, 3.] }
        fn near(self, o: Self, m: f64) -> bool {
            if o.is_nan() { return self.is_nan(); }
            self == o || ((self - o) as f64).abs() <= 16. * $t::EPSILON as f64 * m
        }
        fn mag(self) -> f64 { (self as f64).abs() }
        fn ident(self, o: Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
    }
    impl Sc for Complex<$t> {
        const NAME: &'static str = concat!("Complex<", stringify!($t), ">");
        fn of(x: f64) -> Self { Complex::new(x as $t, -2. * x as $t) }
        fn letters() -> Vec<Self> { vec![Complex::new(0., 0.), Complex::new(1., 0.), Complex::new(0., -2.5), Complex::new(-3., 512.5)] }
        fn wild() -> Vec<Self> { vec![Complex::new(1e18, 1.), Complex::new(-1e18, 1e-12), Complex::new($t::NAN, 2.), Complex::new(1., $t::INFINITY), Complex::new(0., -1e18)] }
        fn near(self, o: Self, m: f64) -> bool { self.re.near(o.re, m) && self.im.near(o.im, m) }
        fn mag(self) -> f64 { self.re.mag() + self.im.mag() }
        fn ident(self, o: Self) -> bool { self.re.ident(o.re) && self.im.ident(o.im) }
    })* };
}
sc_float!(f32, f64);

fn total<T: Sc>(v: &[T]) -> (T, f64) {
    let mut s = T::zero();
    for x in v {
        s = s + *x;
    }
    (s, v.iter().map(|x| x.mag()).sum())
}

/// broadcast, sum on the root, sum everywhere, for the ranks' contributions `rounds[k]` in round k
fn program<T: Sc>(u: &Universe, r: usize, rounds: &[Vec<T>], parts: u8) -> Res {
    let mut last = T::of(55.);
    for (k, v) in rounds.iter().enumerate() {
        let (want, mag) = total(v);
        let mut b = v[r];
        if parts & 1 != 0 {
            broadcast_scalar(u, &mut b);
        } else {
            b = v[0];
        }
        if !b.ident(v[0]) {
            return Err(format!("round {k}: after the broadcast the value is {b:?}, the root has {:?}", v[0]));
        }
        let old = T::of(99. + r as f64);
        let mut res = old;
        let data = v[r];
        if parts & 2 != 0 {
            gather_sum(u, &data, &mut res);
        } else if r == 0 {
            res = want;
        }
        if r == 0 && !res.near(want, mag) {
            return Err(format!("round {k}: gather_sum of {v:?} gives {res:?} instead of {want:?}"));
        }
        if r != 0 && !res.ident(old) {
            return Err(format!("round {k}: gather_sum changed this rank's result from {old:?} to {res:?}"));
        }
        if !data.ident(v[r]) {
            return Err("gather_sum changed the contribution".into());
        }
        // the result keeps its contents between rounds: calls do not accumulate
        let mut res = last;
        if parts & 4 != 0 {
            all_gather_sum(u, &data, &mut res);
        } else {
            res = want;
        }
        if !res.near(want, mag) {
            return Err(format!("round {k}: all_gather_sum of {v:?} gives {res:?} instead of {want:?}"));
        }
        if !data.ident(v[r]) {
            return Err("all_gather_sum changed the contribution".into());
        }
        last = res;
    }
    Ok(())
}
fn tuples<T: Copy>(l: &[T], p: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..p {
        out = out.into_iter().flat_map(|v| l.iter().map(move |x| [v.clone(), vec![*x]].concat())).collect();
    }
    out
}

pub fn c16(ctx: &mut Ctx) {
    macro_rules! go {
        ($($t:ty),*) => { $(typed::<$t>(ctx);)* };
    }
    go!(f64, f32, Complex<f64>, Complex<f32>, i32, i64, u32, u64, u8, i8, u16, i16);
}
fn typed<T: Sc>(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let wide = T::NAME == "f64" || T::NAME == "i32";
    ctx.group(T::NAME);
    let l = T::letters();
    // every tuple of contributions
    for p in 1..=if wide || th { 4 } else { 3 } {
        for first in 0..l.len() {
            ctx.case(
                || format!("{}: every contribution of {p} ranks, root {:?}", T::NAME, l[first]),
                |c| {
                    for t in tuples(&l, p - 1) {
                        let v = [vec![l[first]], t].concat();
                        c.state(1);
                        c.step(3 * p as u64);
                        if !world(c, &one(), p, Completion::Eager, T::NAME, &|u, r| program(u, r, std::slice::from_ref(&v), 7)) {
                            return;
                        }
                    }
                },
            );
        }
    }
    // many ranks, very different magnitudes, repeated calls
    for p in 1..=if th { 16 } else { 9 } {
        ctx.case(
            || format!("{}: {p} ranks, repeated calls", T::NAME),
            |c| {
                let w = [l.clone(), T::wild()].concat();
                for shift in 0..w.len() {
                    for mult in [1, 2, 3] {
                        let v: Vec<T> = (0..p).map(|i| if T::wild().is_empty() { T::of(((i * mult + shift) % 6) as f64) } else { w[(shift + i * mult) % w.len()] }).collect();
                        c.step(9 * p as u64);
                        // the same contributions again, then others
                        let o: Vec<T> = (0..p).map(|i| l[(i * mult + shift + 1) % l.len()]).collect();
                        let rounds = [v.clone(), v, o.clone(), o];
                        for compl in [Completion::Eager, Completion::Sync] {
                            if !world(c, &one(), p, compl, T::NAME, &|u, r| program(u, r, &rounds, 7)) {
                                return;
                            }
                        }
                    }
                }
            },
        );
    }
    // arrival orders
    let b = |quick: usize, thorough: usize| if th { thorough } else { quick };
    let any = usize::MAX;
    for (p, bound, parts, rounds) in [
        (2, any, 7, 1),
        (2, b(2, 4), 7, 2),
        (3, b(1, 3), 7, 1),
        (3, b(1, 2), 1, 2),
        (3, b(1, 2), 2, 2),
        (3, b(1, 2), 4, 2),
        (4, b(1, 2), 1, 1),
        (4, b(1, 2), 2, 1),
        (4, b(1, 2), 4, 1),
    ] {
        if !wide && (p != 2 || rounds != 1) && !th {
            continue;
        }
        ctx.case(
            || format!("{}: every arrival order of {p} ranks, {} preemptions, functions {parts:03b}, {rounds} calls", T::NAME, if bound == usize::MAX { "any number of".to_string() } else { bound.to_string() }),
            |c| {
                let v: Vec<Vec<T>> = (0..rounds).map(|k| (0..p).map(|i| l[(i + 1 + 2 * k) % l.len()]).collect()).collect();
                world(c, &cfg(bound, 3_000_000), p, Completion::Choose, T::NAME, &|u, r| program(u, r, &v, parts));
            },
        );
    }
}
