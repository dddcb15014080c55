//! Scalar types the crate is run with.
use crate::dd::{D, V3};
use crate::wide::{w, W, W_EPS};
use nalgebra::RealField;

pub trait Sc: RealField + Copy + Default {
    const NAME: &'static str;
    /// Distance from one to the next larger number.
    const EPS: f64;
    /// Decades around one in which squares and products of a few numbers neither overflow nor underflow.
    const DEC: f64;
    /// Decades around one of the lengths of direction vectors.
    const DIRDEC: f64;
    /// Exact value.
    fn d(self) -> D;
    /// Rounded value.
    fn of(x: D) -> Self;
    /// The exact bits, for histories and comparisons of identity.
    fn key(self) -> u128;
    fn f(x: f64) -> Self {
        Self::of(D::new(x))
    }
    fn rd(x: D) -> D {
        Self::of(x).d()
    }
    fn v(x: V3) -> [Self; 3] {
        [Self::of(x[0]), Self::of(x[1]), Self::of(x[2])]
    }
    fn fin(self) -> bool {
        self.d().is_finite()
    }
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const DEC: f64 = 3.0;
    const DIRDEC: f64 = 12.0;
    fn d(self) -> D {
        D::new(self as f64)
    }
    fn of(x: D) -> f32 {
        // avoid the double rounding of hi alone
        let h = x.hi as f32;
        let r = (x - D::new(h as f64)).f();
        let h2 = h + r as f32;
        if h2.is_finite() {
            h2
        } else {
            h
        }
    }
    fn key(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const DEC: f64 = 6.0;
    const DIRDEC: f64 = 60.0;
    fn d(self) -> D {
        D::new(self)
    }
    fn of(x: D) -> f64 {
        x.f()
    }
    fn key(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Sc for W {
    const NAME: &'static str = "wide";
    const EPS: f64 = W_EPS;
    const DEC: f64 = 6.0;
    const DIRDEC: f64 = 60.0;
    fn d(self) -> D {
        self.0
    }
    fn of(x: D) -> W {
        w(x)
    }
    fn key(self) -> u128 {
        ((self.0.hi.to_bits() as u128) << 64) | self.0.lo.to_bits() as u128
    }
}
