//! C24, for a scalar type that is not `Copy` and owns heap memory, as arbitrary-precision numbers do.
//!
//! It is the 80-bit type in a box, so every result must be bit for bit what the 80-bit type itself gives, and when all
//! objects are gone no box may be left.
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use monitors::prelude::*;
use monitors::rays::ename;
use monitors::wide::{wf, W};
use nalgebra::{ComplexField, RealField, SimdValue};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{Field, SubsetOf};
use std::cell::Cell;
use std::ops::*;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}
/// Live from `bx` on until dropped; poisoned then.
pub struct B(Box<W>);
fn bx(x: W) -> B {
    LIVE.set(LIVE.get() + 1);
    MADE.set(MADE.get() + 1);
    B(Box::new(x))
}
impl Drop for B {
    fn drop(&mut self) {
        LIVE.set(LIVE.get() - 1);
        *self.0 = wf(f64::NAN);
    }
}
impl Clone for B {
    fn clone(&self) -> B {
        bx(*self.0)
    }
}
impl Default for B {
    fn default() -> B {
        bx(wf(0.0))
    }
}
impl PartialEq for B {
    fn eq(&self, o: &B) -> bool {
        *self.0 == *o.0
    }
}
impl PartialOrd for B {
    fn partial_cmp(&self, o: &B) -> Option<std::cmp::Ordering> {
        (*self.0).partial_cmp(&*o.0)
    }
}
macro_rules! op {
    ($T:ident, $f:ident, $A:ident, $g:ident) => {
        impl $T for B {
            type Output = B;
            fn $f(self, o: B) -> B {
                bx($T::$f(*self.0, *o.0))
            }
        }
        impl $A for B {
            fn $g(&mut self, o: B) {
                $A::$g(&mut *self.0, *o.0)
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign);
op!(Sub, sub, SubAssign, sub_assign);
op!(Mul, mul, MulAssign, mul_assign);
op!(Div, div, DivAssign, div_assign);
op!(Rem, rem, RemAssign, rem_assign);
impl Neg for B {
    type Output = B;
    fn neg(self) -> B {
        bx(-*self.0)
    }
}
impl Zero for B {
    fn zero() -> B {
        bx(W::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl One for B {
    fn one() -> B {
        bx(W::one())
    }
}
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(&*self.0, f)
    }
}
impl std::fmt::Display for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&*self.0, f)
    }
}
impl Field for B {}
impl SubsetOf<B> for B {
    fn to_superset(&self) -> B {
        self.clone()
    }
    fn from_superset_unchecked(e: &B) -> B {
        e.clone()
    }
    fn is_in_subset(_: &B) -> bool {
        true
    }
}
macro_rules! sub {
    ($($t:ty),*) => {$(
        impl SubsetOf<B> for $t {
            fn to_superset(&self) -> B {
                bx(SubsetOf::<W>::to_superset(self))
            }
            fn from_superset_unchecked(e: &B) -> $t {
                SubsetOf::<W>::from_superset_unchecked(&*e.0)
            }
            fn is_in_subset(_: &B) -> bool {
                true
            }
        }
    )*};
}
sub!(f32, f64);

impl Num for B {
    type FromStrRadixErr = <W as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<B, Self::FromStrRadixErr> {
        W::from_str_radix(s, r).map(bx)
    }
}
impl SimdValue for B {
    const LANES: usize = 1;
    type Element = B;
    type SimdBool = bool;
    fn splat(val: B) -> B {
        val
    }
    fn extract(&self, _: usize) -> B {
        self.clone()
    }
    unsafe fn extract_unchecked(&self, _: usize) -> B {
        self.clone()
    }
    fn replace(&mut self, _: usize, val: B) {
        *self = val
    }
    unsafe fn replace_unchecked(&mut self, _: usize, val: B) {
        *self = val
    }
    fn select(self, cond: bool, other: B) -> B {
        if cond {
            self
        } else {
            other
        }
    }
}

impl Signed for B {
    fn abs(&self) -> B {
        bx(<W as Signed>::abs(&*self.0))
    }
    fn abs_sub(&self, o: &B) -> B {
        bx(<W as Signed>::abs_sub(&*self.0, &*o.0))
    }
    fn signum(&self) -> B {
        bx(<W as Signed>::signum(&*self.0))
    }
    fn is_positive(&self) -> bool {
        <W as Signed>::is_positive(&*self.0)
    }
    fn is_negative(&self) -> bool {
        <W as Signed>::is_negative(&*self.0)
    }
}

impl FromPrimitive for B {
    fn from_i64(n: i64) -> Option<B> {
        <W as FromPrimitive>::from_i64(n).map(bx)
    }
    fn from_u64(n: u64) -> Option<B> {
        <W as FromPrimitive>::from_u64(n).map(bx)
    }
    fn from_f64(n: f64) -> Option<B> {
        <W as FromPrimitive>::from_f64(n).map(bx)
    }
}

impl AbsDiffEq for B {
    type Epsilon = B;
    fn default_epsilon() -> B {
        bx(<W as AbsDiffEq>::default_epsilon())
    }
    fn abs_diff_eq(&self, o: &B, eps: B) -> bool {
        <W as AbsDiffEq>::abs_diff_eq(&*self.0, &*o.0, *eps.0)
    }
}

impl RelativeEq for B {
    fn default_max_relative() -> B {
        bx(<W as RelativeEq>::default_max_relative())
    }
    fn relative_eq(&self, o: &B, eps: B, max_relative: B) -> bool {
        <W as RelativeEq>::relative_eq(&*self.0, &*o.0, *eps.0, *max_relative.0)
    }
}

impl UlpsEq for B {
    fn default_max_ulps() -> u32 {
        <W as UlpsEq>::default_max_ulps()
    }
    fn ulps_eq(&self, o: &B, eps: B, max_ulps: u32) -> bool {
        <W as UlpsEq>::ulps_eq(&*self.0, &*o.0, *eps.0, max_ulps)
    }
}

impl ComplexField for B {
    type RealField = B;
    fn from_real(re: B) -> B {
        bx(<W as ComplexField>::from_real(*re.0))
    }
    fn real(self) -> B {
        bx(<W as ComplexField>::real(*self.0))
    }
    fn imaginary(self) -> B {
        bx(<W as ComplexField>::imaginary(*self.0))
    }
    fn modulus(self) -> B {
        bx(<W as ComplexField>::modulus(*self.0))
    }
    fn modulus_squared(self) -> B {
        bx(<W as ComplexField>::modulus_squared(*self.0))
    }
    fn argument(self) -> B {
        bx(<W as ComplexField>::argument(*self.0))
    }
    fn norm1(self) -> B {
        bx(<W as ComplexField>::norm1(*self.0))
    }
    fn scale(self, factor: B) -> B {
        bx(<W as ComplexField>::scale(*self.0, *factor.0))
    }
    fn unscale(self, factor: B) -> B {
        bx(<W as ComplexField>::unscale(*self.0, *factor.0))
    }
    fn floor(self) -> B {
        bx(<W as ComplexField>::floor(*self.0))
    }
    fn ceil(self) -> B {
        bx(<W as ComplexField>::ceil(*self.0))
    }
    fn round(self) -> B {
        bx(<W as ComplexField>::round(*self.0))
    }
    fn trunc(self) -> B {
        bx(<W as ComplexField>::trunc(*self.0))
    }
    fn fract(self) -> B {
        bx(<W as ComplexField>::fract(*self.0))
    }
    fn mul_add(self, a: B, b: B) -> B {
        bx(<W as ComplexField>::mul_add(*self.0, *a.0, *b.0))
    }
    fn abs(self) -> B {
        bx(<W as ComplexField>::abs(*self.0))
    }
    fn hypot(self, o: B) -> B {
        bx(<W as ComplexField>::hypot(*self.0, *o.0))
    }
    fn recip(self) -> B {
        bx(<W as ComplexField>::recip(*self.0))
    }
    fn conjugate(self) -> B {
        bx(<W as ComplexField>::conjugate(*self.0))
    }
    fn sin(self) -> B {
        bx(<W as ComplexField>::sin(*self.0))
    }
    fn cos(self) -> B {
        bx(<W as ComplexField>::cos(*self.0))
    }
    fn sin_cos(self) -> (B, B) {
        { let (x, y) = <W as ComplexField>::sin_cos(*self.0); (bx(x), bx(y)) }
    }
    fn tan(self) -> B {
        bx(<W as ComplexField>::tan(*self.0))
    }
    fn asin(self) -> B {
        bx(<W as ComplexField>::asin(*self.0))
    }
    fn acos(self) -> B {
        bx(<W as ComplexField>::acos(*self.0))
    }
    fn atan(self) -> B {
        bx(<W as ComplexField>::atan(*self.0))
    }
    fn sinh(self) -> B {
        bx(<W as ComplexField>::sinh(*self.0))
    }
    fn cosh(self) -> B {
        bx(<W as ComplexField>::cosh(*self.0))
    }
    fn tanh(self) -> B {
        bx(<W as ComplexField>::tanh(*self.0))
    }
    fn asinh(self) -> B {
        bx(<W as ComplexField>::asinh(*self.0))
    }
    fn acosh(self) -> B {
        bx(<W as ComplexField>::acosh(*self.0))
    }
    fn atanh(self) -> B {
        bx(<W as ComplexField>::atanh(*self.0))
    }
    fn log(self, base: B) -> B {
        bx(<W as ComplexField>::log(*self.0, *base.0))
    }
    fn log2(self) -> B {
        bx(<W as ComplexField>::log2(*self.0))
    }
    fn log10(self) -> B {
        bx(<W as ComplexField>::log10(*self.0))
    }
    fn ln(self) -> B {
        bx(<W as ComplexField>::ln(*self.0))
    }
    fn ln_1p(self) -> B {
        bx(<W as ComplexField>::ln_1p(*self.0))
    }
    fn sqrt(self) -> B {
        bx(<W as ComplexField>::sqrt(*self.0))
    }
    fn try_sqrt(self) -> Option<B> {
        <W as ComplexField>::try_sqrt(*self.0).map(bx)
    }
    fn exp(self) -> B {
        bx(<W as ComplexField>::exp(*self.0))
    }
    fn exp2(self) -> B {
        bx(<W as ComplexField>::exp2(*self.0))
    }
    fn exp_m1(self) -> B {
        bx(<W as ComplexField>::exp_m1(*self.0))
    }
    fn powi(self, n: i32) -> B {
        bx(<W as ComplexField>::powi(*self.0, n))
    }
    fn powf(self, n: B) -> B {
        bx(<W as ComplexField>::powf(*self.0, *n.0))
    }
    fn powc(self, n: B) -> B {
        bx(<W as ComplexField>::powc(*self.0, *n.0))
    }
    fn cbrt(self) -> B {
        bx(<W as ComplexField>::cbrt(*self.0))
    }
    fn is_finite(&self) -> bool {
        <W as ComplexField>::is_finite(&*self.0)
    }
}

impl RealField for B {
    fn is_sign_positive(&self) -> bool {
        <W as RealField>::is_sign_positive(&*self.0)
    }
    fn is_sign_negative(&self) -> bool {
        <W as RealField>::is_sign_negative(&*self.0)
    }
    fn copysign(self, sign: B) -> B {
        bx(<W as RealField>::copysign(*self.0, *sign.0))
    }
    fn max(self, o: B) -> B {
        bx(<W as RealField>::max(*self.0, *o.0))
    }
    fn min(self, o: B) -> B {
        bx(<W as RealField>::min(*self.0, *o.0))
    }
    fn clamp(self, lo: B, hi: B) -> B {
        bx(<W as RealField>::clamp(*self.0, *lo.0, *hi.0))
    }
    fn atan2(self, x: B) -> B {
        bx(<W as RealField>::atan2(*self.0, *x.0))
    }
    fn min_value() -> Option<B> {
        <W as RealField>::min_value().map(bx)
    }
    fn max_value() -> Option<B> {
        <W as RealField>::max_value().map(bx)
    }
    fn pi() -> B {
        bx(<W as RealField>::pi())
    }
    fn two_pi() -> B {
        bx(<W as RealField>::two_pi())
    }
    fn frac_pi_2() -> B {
        bx(<W as RealField>::frac_pi_2())
    }
    fn frac_pi_3() -> B {
        bx(<W as RealField>::frac_pi_3())
    }
    fn frac_pi_4() -> B {
        bx(<W as RealField>::frac_pi_4())
    }
    fn frac_pi_6() -> B {
        bx(<W as RealField>::frac_pi_6())
    }
    fn frac_pi_8() -> B {
        bx(<W as RealField>::frac_pi_8())
    }
    fn frac_1_pi() -> B {
        bx(<W as RealField>::frac_1_pi())
    }
    fn frac_2_pi() -> B {
        bx(<W as RealField>::frac_2_pi())
    }
    fn frac_2_sqrt_pi() -> B {
        bx(<W as RealField>::frac_2_sqrt_pi())
    }
    fn e() -> B {
        bx(<W as RealField>::e())
    }
    fn log2_e() -> B {
        bx(<W as RealField>::log2_e())
    }
    fn log10_e() -> B {
        bx(<W as RealField>::log10_e())
    }
    fn ln_2() -> B {
        bx(<W as RealField>::ln_2())
    }
    fn ln_10() -> B {
        bx(<W as RealField>::ln_10())
    }
}

/// One of the two types.
trait Val: RealField + Default {
    fn val(x: W) -> Self;
    fn get(&self) -> W;
}
impl Val for W {
    fn val(x: W) -> W {
        x
    }
    fn get(&self) -> W {
        *self
    }
}
impl Val for B {
    fn val(x: W) -> B {
        bx(x)
    }
    fn get(&self) -> W {
        *self.0
    }
}
struct Raw {
    q: [W; 4],
    c: [W; 3],
    route: usize,
    at: [W; 3],
    up: [W; 3],
    f: [W; 5],
    s: [W; 4],
    x: Vec<[W; 3]>,
    uv: Vec<[W; 2]>,
    m: [[W; 4]; 3],
    dist: W,
    rays: Vec<([W; 3], [W; 3])>,
}
type Out = Vec<(&'static str, Vec<W>)>;
fn all<'a, R: Val>(m: impl IntoIterator<Item = &'a R>) -> Vec<W> {
    m.into_iter().map(|x| x.get()).collect()
}
fn v3<R: Val>(x: &[W; 3]) -> Vector3<R> {
    Vector3::new(R::val(x[0]), R::val(x[1]), R::val(x[2]))
}
fn camera<R, I>(out: &mut Out, c: &Camera<R, I>, w: &Raw)
where
    R: Val,
    I: IntrinsicParameters<R> + PartialEq,
    I::BundleType: ray_bundle_types_are::Known<R>,
{
    use nalgebra::Dyn;
    let e = c.extrinsics();
    let k = w.x.len();
    let x = OMatrix::<R, Dyn, U3>::from_fn(k, |i, j| R::val(w.x[i][j]));
    let uv = OMatrix::<R, Dyn, U2>::from_fn(k, |i, j| R::val(w.uv[i][j]));
    let x0 = SMatrix::<R, 1, 3>::from_fn(|_, j| R::val(w.x[0][j]));
    let uv0 = SMatrix::<R, 1, 2>::from_fn(|_, j| R::val(w.uv[0][j]));
    out.push(("forward, up, right", [e.forward(), e.up(), e.right()].iter().flat_map(|d| all(d.iter())).collect()));
    out.push(("pose", all(e.pose().rotation.coords.iter().chain(e.pose().translation.vector.iter()))));
    out.push(("matrix", all(e.matrix().iter().chain(e.rotation().matrix().iter()).chain(e.translation().coords.iter()).chain(e.camcenter().coords.iter()))));
    out.push(("world_to_pixel", all(c.world_to_pixel(&Points::new(x.clone())).data.iter())));
    out.push(("world_to_pixel, one", all(c.world_to_pixel(&Points::new(x0.clone())).data.iter())));
    out.push(("world_to_camera", all(e.world_to_camera(&Points::new(x.clone())).data.iter())));
    out.push(("camera_to_world", all(e.camera_to_world(&Points::new(x)).data.iter())));
    let dist = R::val(w.dist);
    let b = c.pixel_to_world(&Pixels::new(uv.clone()));
    out.push(("pixel_to_world", all(b.data.iter())));
    out.push(("point_on_ray", all(b.point_on_ray().data.iter())));
    out.push(("point_on_ray_at_distance", all(b.point_on_ray_at_distance(dist.clone()).data.iter())));
    let b = c.intrinsics().pixel_to_camera(&Pixels::new(uv));
    out.push(("pixel_to_camera", all(b.clone().point_on_ray_at_distance(dist).data.iter())));
    out.push(("ray_camera_to_world", all(e.ray_camera_to_world(&b).point_on_ray().data.iter())));
    let b = c.pixel_to_world(&Pixels::new(uv0));
    out.push(("directions, centers", all(b.directions().iter().chain(b.centers().iter()))));
    let r = b.to_single_ray();
    out.push(("to_single_ray", all(r.direction.iter().chain(r.center.iter()))));
    out.push(("a clone is equal", vec![wf((c.clone().intrinsics() == c.intrinsics() && c.clone().extrinsics() == c.extrinsics()) as u8 as f64)]));
}
mod ray_bundle_types_are {
    pub trait Known<R: nalgebra::RealField>: cam_geom::Bundle<R> + Clone {}
    impl<R: nalgebra::RealField> Known<R> for cam_geom::ray_bundle_types::SharedOriginRayBundle<R> {}
    impl<R: nalgebra::RealField> Known<R> for cam_geom::ray_bundle_types::SharedDirectionRayBundle<R> {}
}
fn run<R: Val>(w: &Raw) -> Out {
    let q: [R; 4] = std::array::from_fn(|i| R::val(w.q[i]));
    let [a, i, j, k] = q;
    let q = UnitQuaternion::new_normalize(Quaternion::new(a, i, j, k));
    let c: Vector3<R> = v3(&w.c);
    let e = match w.route {
        0 => ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(c)),
        1 => ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(c), q)),
        _ => ExtrinsicParameters::from_view(&c, &v3(&w.at), &Unit::new_normalize(v3(&w.up))),
    };
    let f = |i: usize| R::val(w.f[i]);
    let s = |i: usize| R::val(w.s[i]);
    let p = Camera::new(IntrinsicParametersPerspective::from(PerspectiveParams { fx: f(0), fy: f(1), skew: f(2), cx: f(3), cy: f(4) }), e.clone());
    let o = Camera::new(IntrinsicParametersOrthographic::from(OrthographicParams { sx: s(0), sy: s(1), cx: s(2), cy: s(3) }), e);
    let mut out: Out = Vec::new();
    camera(&mut out, &p, w);
    camera(&mut out, &o, w);
    let i = p.intrinsics();
    out.push(("parameters", all([i.fx(), i.fy(), i.skew(), i.cx(), i.cy()].iter())));
    let cm = p.as_camera_matrix();
    out.push(("as_camera_matrix", all(cm.iter())));
    let m = SMatrix::<R, 3, 4>::from_fn(|i, j| R::val(w.m[i][j]));
    for m in [m, cm] {
        out.push(("from_perspective_matrix", match Camera::from_perspective_matrix(&m) {
            Ok(c) => all(c.as_camera_matrix().iter()),
            Err(e) => vec![wf(ename(&e).len() as f64)],
        }));
    }
    let mut n = SMatrix::<R, 3, 4>::from_fn(|i, j| R::val(wf((i == j) as u8 as f64)));
    (n[(0, 0)], n[(0, 1)], n[(0, 2)], n[(1, 1)], n[(1, 2)]) = (f(0), f(2), f(3), f(1), f(4));
    out.push(("from_normalized_3x4_matrix", match IntrinsicParametersPerspective::from_normalized_3x4_matrix(n) {
        Ok(i) => all([i.fx(), i.fy(), i.skew(), i.cx(), i.cy()].iter()),
        Err(_) => vec![],
    }));
    let x0 = SMatrix::<R, 1, 3>::from_fn(|_, j| R::val(w.x[0][j]));
    out.push(("linearize_at", all(cam_geom::linearize::JacobianPerspectiveCache::new(&p).linearize_at(&Points::new(x0)).iter())));
    let row = |x: &[W; 3]| SMatrix::<R, 1, 3>::from_fn(|_, j| R::val(x[j]));
    let rays: Vec<Ray<WorldFrame, R>> = w.rays.iter().map(|(c, d)| Ray::new(row(c), row(d))).collect();
    out.push(("best_intersection_of_rays", match best_intersection_of_rays(&rays) {
        Ok(p) => all(p.data.iter()),
        Err(e) => vec![wf(ename(&e).len() as f64)],
    }));
    out
}
fn boxed(g: &mut Rng, r: &mut Rec) {
    let k = 1 + g.below(4);
    let pp = persp_params::<W>(g);
    let oo = ortho_params::<W>(g);
    let q = quat(g).map(w);
    let m = g.log(-2.0, 2.0);
    let w3 = |x: V3| -> [W; 3] { W::v(x) };
    let c = w3(scale(D::new(m), dir(g)));
    let raw = Raw {
        q,
        c,
        route: g.below(3),
        at: w3(add(dv(c), scale(D::new(m * 0.7), dir(g)))),
        up: w3(dir(g)),
        f: [pp.fx, pp.fy, pp.skew, pp.cx, pp.cy],
        s: [oo.sx, oo.sy, oo.cx, oo.cy],
        x: (0..k).map(|_| w3(scale(D::new(2.0 * m), dir(g)))).collect(),
        uv: (0..k).map(|_| [wf(g.range(-2000.0, 2000.0)), wf(g.range(-2000.0, 2000.0))]).collect(),
        m: std::array::from_fn(|_| std::array::from_fn(|_| wf(g.normal()))),
        dist: wf(g.range(-3.0, 3.0) * m),
        rays: (0..g.below(6)).map(|_| (w3(scale(D::new(m), dir(g))), w3(dir(g)))).collect(),
    };
    r.input(key(&[raw.x[0][0], raw.f[0], raw.c[0]]), true);
    r.sample(|| format!("{} points, {} rays, centre {:?}", k, raw.rays.len(), raw.c));
    let want = run::<W>(&raw);
    let (live, made) = (LIVE.get(), MADE.get());
    let got = run::<B>(&raw);
    r.count("boxes made", MADE.get() - made);
    for (a, b) in want.iter().zip(&got) {
        let bits = |x: &[W]| -> Vec<u128> { x.iter().map(|x| if x.0.is_nan() { 1 } else { x.key() }).collect() };
        r.ensure("a type that is not Copy gives the same results", bits(&a.1) == bits(&b.1), || {
            format!("{}: {:?} in the 80-bit type, {:?} in a box", a.0, a.1, b.1)
        });
    }
    r.ensure("no scalar outlives the objects", LIVE.get() == live, || format!("{} boxes are left", LIVE.get() - live));
}
fn main() {
    mon::main(Spec {
        id: "C24",
        families: vec![Family { name: "boxed wide", weight: 1, run: boxed }],
        quick: 40_000,
        rule: "a case is a camera of each kind with 1-4 points and pixels, matrices and rays; every case is non-trivial; distinct by the bits of a point, a focal length and a centre",
        min_distinct: 5_000,
        assumptions: &[],
    })
}
