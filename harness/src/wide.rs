//! `W`: a real scalar type with an 80-bit significand, for running the crate in a type wider than f64.
//!
//! Every operation is a double-double operation rounded to 80 bits, so that the double-double reference
//! model is ~24 bits more precise than the type under test.
use crate::dd::D;
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use nalgebra::{ComplexField, RealField, SimdValue};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{Field, SubsetOf};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Default, PartialEq, PartialOrd)]
pub struct W(pub D);

pub const W_EPS: f64 = 1.0 / (1u128 << 79) as f64;

/// Round to 80 bits.
pub fn w(x: D) -> W {
    if !x.hi.is_finite() || x.hi == 0.0 {
        return W(D::new(x.hi));
    }
    let e = ((x.hi.to_bits() >> 52) & 0x7ff) as i32;
    if e < 100 {
        return W(D::new(x.hi));
    }
    // 1.5 * 2^52 * (2^(exponent - 79))
    let magic = f64::from_bits((((e - 27) as u64) << 52) | (1u64 << 51));
    let lo = (x.lo + magic) - magic;
    W(D::parts(x.hi, lo))
}
pub fn wf(x: f64) -> W {
    W(D::new(x))
}

macro_rules! op {
    ($T:ident, $f:ident, $A:ident, $g:ident) => {
        impl $T for W {
            type Output = W;
            #[inline]
            fn $f(self, o: W) -> W {
                w($T::$f(self.0, o.0))
            }
        }
        impl $A for W {
            #[inline]
            fn $g(&mut self, o: W) {
                *self = w($T::$f(self.0, o.0))
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign);
op!(Sub, sub, SubAssign, sub_assign);
op!(Mul, mul, MulAssign, mul_assign);
op!(Div, div, DivAssign, div_assign);
impl Rem for W {
    type Output = W;
    fn rem(self, o: W) -> W {
        let q = self.0 / o.0;
        let t = if q.hi < 0.0 { -(-q).floor() } else { q.floor() };
        w(self.0 - t * o.0)
    }
}
impl RemAssign for W {
    fn rem_assign(&mut self, o: W) {
        *self = *self % o
    }
}
impl Neg for W {
    type Output = W;
    #[inline]
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl Zero for W {
    fn zero() -> W {
        wf(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0.hi == 0.0
    }
}
impl One for W {
    fn one() -> W {
        wf(1.0)
    }
}
impl Num for W {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _radix: u32) -> Result<W, ()> {
        s.parse::<f64>().map(wf).map_err(|_| ())
    }
}
impl Signed for W {
    fn abs(&self) -> W {
        W(self.0.abs())
    }
    fn abs_sub(&self, o: &W) -> W {
        if *self <= *o {
            wf(0.0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> W {
        if self.0.is_nan() {
            *self
        } else {
            wf(1f64.copysign(self.0.hi))
        }
    }
    fn is_positive(&self) -> bool {
        self.0.hi > 0.0
    }
    fn is_negative(&self) -> bool {
        self.0.hi < 0.0
    }
}
impl FromPrimitive for W {
    fn from_i64(n: i64) -> Option<W> {
        let hi = n as f64;
        Some(w(D::parts(hi, (n as i128 - hi as i128) as f64)))
    }
    fn from_u64(n: u64) -> Option<W> {
        let hi = n as f64;
        Some(w(D::parts(hi, (n as i128 - hi as i128) as f64)))
    }
    fn from_f64(n: f64) -> Option<W> {
        Some(wf(n))
    }
}
impl std::fmt::Debug for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl SimdValue for W {
    const LANES: usize = 1;
    type Element = W;
    type SimdBool = bool;
    fn splat(val: W) -> W {
        val
    }
    fn extract(&self, _: usize) -> W {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> W {
        *self
    }
    fn replace(&mut self, _: usize, val: W) {
        *self = val
    }
    unsafe fn replace_unchecked(&mut self, _: usize, val: W) {
        *self = val
    }
    fn select(self, cond: bool, other: W) -> W {
        if cond {
            self
        } else {
            other
        }
    }
}
impl Field for W {}
impl SubsetOf<W> for W {
    fn to_superset(&self) -> W {
        *self
    }
    fn from_superset_unchecked(e: &W) -> W {
        *e
    }
    fn is_in_subset(_: &W) -> bool {
        true
    }
}
impl SubsetOf<W> for f64 {
    fn to_superset(&self) -> W {
        wf(*self)
    }
    fn from_superset_unchecked(e: &W) -> f64 {
        e.0.f()
    }
    fn is_in_subset(_: &W) -> bool {
        true
    }
}
impl SubsetOf<W> for f32 {
    fn to_superset(&self) -> W {
        wf(*self as f64)
    }
    fn from_superset_unchecked(e: &W) -> f32 {
        e.0.f() as f32
    }
    fn is_in_subset(_: &W) -> bool {
        true
    }
}
impl AbsDiffEq for W {
    type Epsilon = W;
    fn default_epsilon() -> W {
        wf(W_EPS)
    }
    fn abs_diff_eq(&self, o: &W, eps: W) -> bool {
        self == o || Signed::abs(&(*self - *o)) <= eps
    }
}
impl RelativeEq for W {
    fn default_max_relative() -> W {
        wf(W_EPS)
    }
    fn relative_eq(&self, o: &W, eps: W, max_relative: W) -> bool {
        if self == o {
            return true;
        }
        if !self.0.is_finite() || !o.0.is_finite() {
            return false;
        }
        let d = Signed::abs(&(*self - *o));
        if d <= eps {
            return true;
        }
        let (a, b) = (Signed::abs(self), Signed::abs(o));
        d <= (if b > a { b } else { a }) * max_relative
    }
}
impl UlpsEq for W {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &W, eps: W, max_ulps: u32) -> bool {
        self.relative_eq(o, eps, wf(W_EPS * max_ulps as f64))
    }
}

fn f(x: D) -> W {
    w(x)
}
impl ComplexField for W {
    type RealField = W;
    fn from_real(re: W) -> W {
        re
    }
    fn real(self) -> W {
        self
    }
    fn imaginary(self) -> W {
        wf(0.0)
    }
    fn modulus(self) -> W {
        W(self.0.abs())
    }
    fn modulus_squared(self) -> W {
        self * self
    }
    fn argument(self) -> W {
        if self.0.hi >= 0.0 {
            wf(0.0)
        } else {
            f(D::PI)
        }
    }
    fn norm1(self) -> W {
        W(self.0.abs())
    }
    fn scale(self, factor: W) -> W {
        self * factor
    }
    fn unscale(self, factor: W) -> W {
        self / factor
    }
    fn floor(self) -> W {
        f(self.0.floor())
    }
    fn ceil(self) -> W {
        -f((-self.0).floor())
    }
    fn round(self) -> W {
        f(self.0.round())
    }
    fn trunc(self) -> W {
        if self.0.hi < 0.0 {
            ComplexField::ceil(self)
        } else {
            ComplexField::floor(self)
        }
    }
    fn fract(self) -> W {
        self - ComplexField::trunc(self)
    }
    fn mul_add(self, a: W, b: W) -> W {
        f(self.0 * a.0 + b.0)
    }
    fn abs(self) -> W {
        W(self.0.abs())
    }
    fn hypot(self, o: W) -> W {
        f(crate::dd::norm([self.0, o.0, D::ZERO]))
    }
    fn recip(self) -> W {
        f(D::ONE / self.0)
    }
    fn conjugate(self) -> W {
        self
    }
    fn sin(self) -> W {
        f(self.0.sin_cos().0)
    }
    fn cos(self) -> W {
        f(self.0.sin_cos().1)
    }
    fn sin_cos(self) -> (W, W) {
        let (s, c) = self.0.sin_cos();
        (f(s), f(c))
    }
    fn tan(self) -> W {
        let (s, c) = self.0.sin_cos();
        f(s / c)
    }
    fn asin(self) -> W {
        f(self.0.atan2((D::ONE - self.0 * self.0).sqrt()))
    }
    fn acos(self) -> W {
        f((D::ONE - self.0 * self.0).sqrt().atan2(self.0))
    }
    fn atan(self) -> W {
        f(self.0.atan2(D::ONE))
    }
    fn sinh(self) -> W {
        f((self.0.exp() - (-self.0).exp()) / D::new(2.0))
    }
    fn cosh(self) -> W {
        f((self.0.exp() + (-self.0).exp()) / D::new(2.0))
    }
    fn tanh(self) -> W {
        ComplexField::sinh(self) / ComplexField::cosh(self)
    }
    fn asinh(self) -> W {
        f((self.0 + (self.0 * self.0 + D::ONE).sqrt()).ln())
    }
    fn acosh(self) -> W {
        f((self.0 + (self.0 * self.0 - D::ONE).sqrt()).ln())
    }
    fn atanh(self) -> W {
        f(((D::ONE + self.0) / (D::ONE - self.0)).ln() / D::new(2.0))
    }
    fn log(self, base: W) -> W {
        f(self.0.ln() / base.0.ln())
    }
    fn log2(self) -> W {
        f(self.0.ln() / D::LN2)
    }
    fn log10(self) -> W {
        f(self.0.ln() / D::new(10.0).ln())
    }
    fn ln(self) -> W {
        f(self.0.ln())
    }
    fn ln_1p(self) -> W {
        f((self.0 + D::ONE).ln())
    }
    fn sqrt(self) -> W {
        f(self.0.sqrt())
    }
    fn try_sqrt(self) -> Option<W> {
        if self.0.hi >= 0.0 {
            Some(f(self.0.sqrt()))
        } else {
            None
        }
    }
    fn exp(self) -> W {
        f(self.0.exp())
    }
    fn exp2(self) -> W {
        f((self.0 * D::LN2).exp())
    }
    fn exp_m1(self) -> W {
        f(self.0.exp() - D::ONE)
    }
    fn powi(self, n: i32) -> W {
        f(self.0.powi(n))
    }
    fn powf(self, n: W) -> W {
        f((self.0.ln() * n.0).exp())
    }
    fn powc(self, n: W) -> W {
        ComplexField::powf(self, n)
    }
    fn cbrt(self) -> W {
        let mut a = D::new(self.0.hi.cbrt());
        if a.hi == 0.0 || !a.is_finite() {
            return W(a);
        }
        for _ in 0..2 {
            a = a - (a * a * a - self.0) / (D::new(3.0) * a * a);
        }
        f(a)
    }
    fn is_finite(&self) -> bool {
        self.0.hi.is_finite()
    }
}
impl RealField for W {
    fn is_sign_positive(&self) -> bool {
        self.0.hi.is_sign_positive()
    }
    fn is_sign_negative(&self) -> bool {
        self.0.hi.is_sign_negative()
    }
    fn copysign(self, sign: W) -> W {
        if self.0.hi.is_sign_negative() == sign.0.hi.is_sign_negative() {
            self
        } else {
            -self
        }
    }
    fn max(self, o: W) -> W {
        match self.partial_cmp(&o) {
            Some(Ordering::Less) => o,
            None if self.0.is_nan() => o,
            _ => self,
        }
    }
    fn min(self, o: W) -> W {
        match self.partial_cmp(&o) {
            Some(Ordering::Greater) => o,
            None if self.0.is_nan() => o,
            _ => self,
        }
    }
    fn clamp(self, lo: W, hi: W) -> W {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    fn atan2(self, x: W) -> W {
        f(self.0.atan2(x.0))
    }
    fn min_value() -> Option<W> {
        Some(wf(f64::MIN))
    }
    fn max_value() -> Option<W> {
        Some(wf(f64::MAX))
    }
    fn pi() -> W {
        f(D::PI)
    }
    fn two_pi() -> W {
        f(D::PI * D::new(2.0))
    }
    fn frac_pi_2() -> W {
        f(D::PI / D::new(2.0))
    }
    fn frac_pi_3() -> W {
        f(D::PI / D::new(3.0))
    }
    fn frac_pi_4() -> W {
        f(D::PI / D::new(4.0))
    }
    fn frac_pi_6() -> W {
        f(D::PI / D::new(6.0))
    }
    fn frac_pi_8() -> W {
        f(D::PI / D::new(8.0))
    }
    fn frac_1_pi() -> W {
        f(D::ONE / D::PI)
    }
    fn frac_2_pi() -> W {
        f(D::new(2.0) / D::PI)
    }
    fn frac_2_sqrt_pi() -> W {
        f(D::new(2.0) / D::PI.sqrt())
    }
    fn e() -> W {
        f(D::E)
    }
    fn log2_e() -> W {
        f(D::ONE / D::LN2)
    }
    fn log10_e() -> W {
        f(D::ONE / D::new(10.0).ln())
    }
    fn ln_2() -> W {
        f(D::LN2)
    }
    fn ln_10() -> W {
        f(D::new(10.0).ln())
    }
}
