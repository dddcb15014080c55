//! Double-double arithmetic: `D` has a significand of about 106 bits.
//!
//! It is the arithmetic of the reference model.  Every f32, f64 and `W` (see `wide.rs`) is exact in it.
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

#[derive(Clone, Copy, Default)]
pub struct D {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a; // 2^27 + 1
    let hi = t - (t - a);
    (hi, a - hi)
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    if !p.is_finite() || a.abs() > 1e290 || b.abs() > 1e290 {
        return (p, 0.0);
    }
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl D {
    pub const ZERO: D = D { hi: 0.0, lo: 0.0 };
    pub const ONE: D = D { hi: 1.0, lo: 0.0 };
    pub const PI: D = D { hi: 3.141592653589793, lo: 1.2246467991473532e-16 };
    pub const LN2: D = D { hi: 0.6931471805599453, lo: 2.3190468138462996e-17 };
    pub const E: D = D { hi: 2.718281828459045, lo: 1.4456468917292502e-16 };

    #[inline]
    pub const fn new(x: f64) -> D {
        D { hi: x, lo: 0.0 }
    }
    #[inline]
    pub fn parts(hi: f64, lo: f64) -> D {
        let (hi, lo) = two_sum(hi, lo);
        D { hi, lo }.fix()
    }
    /// Infinite and NaN values have no low part.
    #[inline]
    fn fix(self) -> D {
        if self.hi.is_finite() {
            self
        } else {
            D { hi: self.hi, lo: 0.0 }
        }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    #[inline]
    pub fn abs(self) -> D {
        if self.hi < 0.0 || (self.hi == 0.0 && self.hi.is_sign_negative()) {
            -self
        } else {
            self
        }
    }
    #[inline]
    pub fn a(self) -> f64 {
        self.f().abs()
    }
    #[inline]
    pub fn is_finite(self) -> bool {
        self.hi.is_finite()
    }
    #[inline]
    pub fn is_nan(self) -> bool {
        self.hi.is_nan()
    }
    pub fn sqrt(self) -> D {
        if self.hi == 0.0 || !self.hi.is_finite() || self.hi < 0.0 {
            return D::new(self.hi.sqrt());
        }
        let x = 1.0 / self.hi.sqrt();
        let ax = self.hi * x;
        let (p, e) = two_prod(ax, ax);
        let r = (self - D { hi: p, lo: e }).hi;
        let (hi, lo) = two_sum(ax, r * (x * 0.5));
        // one more step for the last bits
        let y = D { hi, lo };
        (y + (self - y * y) * D::new(0.5 / hi)).fix()
    }
    #[inline]
    pub fn sq(self) -> D {
        self * self
    }
    pub fn powi(self, n: i32) -> D {
        let mut r = D::ONE;
        let mut b = self;
        let mut k = n.unsigned_abs();
        while k > 0 {
            if k & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            k >>= 1;
        }
        if n < 0 {
            D::ONE / r
        } else {
            r
        }
    }
    pub fn floor(self) -> D {
        let f = self.hi.floor();
        if f == self.hi {
            D::parts(f, self.lo.floor())
        } else {
            D::new(f)
        }
    }
    pub fn round(self) -> D {
        if self.hi < 0.0 {
            -(-self + D::new(0.5)).floor()
        } else {
            (self + D::new(0.5)).floor()
        }
    }
    pub fn sin_cos(self) -> (D, D) {
        if !self.hi.is_finite() {
            return (D::new(f64::NAN), D::new(f64::NAN));
        }
        // reduce to |r| <= pi/4, then to r/16
        let half_pi = D::PI * D::new(0.5);
        let k = (self / half_pi).round();
        let r = self - k * half_pi;
        let r = r * D::new(1.0 / 16.0);
        let r2 = r * r;
        let mut s = r;
        let mut t = r;
        let mut c1 = -(r2 * D::new(0.5)); // cos(r) - 1
        let mut tc = c1;
        for i in 1..14 {
            let n = (2 * i) as f64;
            t = -(t * r2) / D::new(n * (n + 1.0));
            s = s + t;
            tc = -(tc * r2) / D::new((n + 1.0) * (n + 2.0));
            c1 = c1 + tc;
        }
        // double the angle four times, on sin and cos - 1
        for _ in 0..4 {
            let ns = (s + s * c1) * D::new(2.0);
            c1 = -(s * s) * D::new(2.0);
            s = ns;
        }
        let c = D::ONE + c1;
        match (k.f().rem_euclid(4.0)) as i32 {
            0 => (s, c),
            1 => (c, -s),
            2 => (-s, -c),
            _ => (-c, s),
        }
    }
    pub fn atan2(self, x: D) -> D {
        let y = self;
        let a0 = y.hi.atan2(x.hi);
        if !a0.is_finite() || (y.hi == 0.0 && x.hi >= 0.0) || !y.hi.is_finite() || !x.hi.is_finite() {
            return D::new(a0);
        }
        if y.hi == 0.0 {
            return if y.hi.is_sign_negative() { -D::PI } else { D::PI };
        }
        let r = (x * x + y * y).sqrt();
        let mut a = D::new(a0);
        for _ in 0..2 {
            let (s, c) = a.sin_cos();
            // sin(true - a), with the radius divided out
            let e = (y * c - x * s) / r;
            a = a + e;
        }
        a
    }
    pub fn exp(self) -> D {
        let x = self;
        if x.hi > 709.0 {
            return D::new(x.hi.exp());
        }
        if x.hi < -740.0 {
            return D::ZERO;
        }
        let k = (x / D::LN2).round().f();
        let r = (x - D::LN2 * D::new(k)) * D::new(1.0 / 256.0);
        let mut s = D::ZERO;
        let mut t = D::ONE;
        for i in 1..16 {
            t = t * r / D::new(i as f64);
            s = s + t;
        }
        for _ in 0..8 {
            s = s * D::new(2.0) + s * s;
        }
        let v = s + D::ONE;
        let h = 2f64.powi((k / 2.0).floor() as i32);
        let g = 2f64.powi((k - (k / 2.0).floor()) as i32);
        D { hi: v.hi * h * g, lo: v.lo * h * g }.fix()
    }
    pub fn ln(self) -> D {
        if !(self.hi > 0.0) || !self.hi.is_finite() {
            return D::new(self.hi.ln());
        }
        let mut a = D::new(self.hi.ln());
        for _ in 0..2 {
            a = a + self * (-a).exp() - D::ONE;
        }
        a
    }
}

impl Neg for D {
    type Output = D;
    #[inline]
    fn neg(self) -> D {
        D { hi: -self.hi, lo: -self.lo }
    }
}
impl Add for D {
    type Output = D;
    #[inline]
    fn add(self, o: D) -> D {
        let (s1, s2) = two_sum(self.hi, o.hi);
        if !s1.is_finite() {
            return D { hi: s1, lo: 0.0 };
        }
        let (t1, t2) = two_sum(self.lo, o.lo);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (hi, lo) = quick_two_sum(s1, s2 + t2);
        D { hi, lo }
    }
}
impl Sub for D {
    type Output = D;
    #[inline]
    fn sub(self, o: D) -> D {
        self + (-o)
    }
}
impl Mul for D {
    type Output = D;
    #[inline]
    fn mul(self, o: D) -> D {
        let (p, e) = two_prod(self.hi, o.hi);
        if !p.is_finite() || p == 0.0 {
            return D { hi: p, lo: 0.0 };
        }
        let (hi, lo) = quick_two_sum(p, e + (self.hi * o.lo + self.lo * o.hi));
        D { hi, lo }
    }
}
impl Div for D {
    type Output = D;
    #[inline]
    fn div(self, o: D) -> D {
        let q1 = self.hi / o.hi;
        if !q1.is_finite() || q1 == 0.0 || !o.hi.is_finite() {
            return D { hi: q1, lo: 0.0 };
        }
        let r = self - o * D::new(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * D::new(q2);
        let q3 = r.hi / o.hi;
        let (hi, lo) = quick_two_sum(q1, q2);
        D { hi, lo } + D::new(q3)
    }
}
impl AddAssign for D {
    #[inline]
    fn add_assign(&mut self, o: D) {
        *self = *self + o
    }
}
impl SubAssign for D {
    #[inline]
    fn sub_assign(&mut self, o: D) {
        *self = *self - o
    }
}
impl PartialEq for D {
    #[inline]
    fn eq(&self, o: &D) -> bool {
        self.hi == o.hi && self.lo == o.lo
    }
}
impl PartialOrd for D {
    #[inline]
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        match self.hi.partial_cmp(&o.hi) {
            Some(Ordering::Equal) => self.lo.partial_cmp(&o.lo),
            x => x,
        }
    }
}
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}{:+e}", self.hi, self.lo)
    }
}
impl From<f64> for D {
    fn from(x: f64) -> D {
        D::new(x)
    }
}

/// Exact value of sums and products over vectors, in double-double.
pub type V3 = [D; 3];
pub type M3 = [V3; 3];

pub fn v(a: [f64; 3]) -> V3 {
    [D::new(a[0]), D::new(a[1]), D::new(a[2])]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(k: D, a: V3) -> V3 {
    [k * a[0], k * a[1], k * a[2]]
}
pub fn dot(a: V3, b: V3) -> D {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
/// Norm, scaled so that it cannot overflow or underflow.
pub fn norm(a: V3) -> D {
    let m = a[0].a().max(a[1].a()).max(a[2].a());
    if m == 0.0 || !m.is_finite() {
        return D::new(m);
    }
    let e = 2f64.powi(-(m.log2().floor() as i32).clamp(-1000, 1000));
    let b = [a[0] * D::new(e), a[1] * D::new(e), a[2] * D::new(e)];
    dot(b, b).sqrt() / D::new(e)
}
pub fn n(a: V3) -> f64 {
    norm(a).f()
}
pub fn unit(a: V3) -> V3 {
    let k = D::ONE / norm(a);
    scale(k, a)
}
pub fn mv(m: &M3, x: V3) -> V3 {
    [dot(m[0], x), dot(m[1], x), dot(m[2], x)]
}
/// transpose(m) * x
pub fn mtv(m: &M3, x: V3) -> V3 {
    add(add(scale(x[0], m[0]), scale(x[1], m[1])), scale(x[2], m[2]))
}
pub fn mt(m: &M3) -> M3 {
    [
        [m[0][0], m[1][0], m[2][0]],
        [m[0][1], m[1][1], m[2][1]],
        [m[0][2], m[1][2], m[2][2]],
    ]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let bt = mt(b);
    [mv(&bt, a[0]), mv(&bt, a[1]), mv(&bt, a[2])]
}
pub fn det(m: &M3) -> D {
    dot(m[0], cross(m[1], m[2]))
}
/// Inverse by cofactors (in double-double this is accurate enough for any condition number met here).
pub fn inv(m: &M3) -> M3 {
    let c0 = cross(m[1], m[2]);
    let c1 = cross(m[2], m[0]);
    let c2 = cross(m[0], m[1]);
    let k = D::ONE / dot(m[0], c0);
    mt(&[scale(k, c0), scale(k, c1), scale(k, c2)])
}
/// Frobenius norm.
pub fn mn(m: &M3) -> f64 {
    let s = [norm(m[0]), norm(m[1]), norm(m[2])];
    norm(s).f()
}
/// Angle between directions, by its sine and the sign of the cosine; accurate for small angles.
pub fn angle(a: V3, b: V3) -> f64 {
    let (a, b) = (unit(a), unit(b));
    let s = n(cross(a, b));
    let c = dot(a, b).f();
    s.atan2(c)
}
