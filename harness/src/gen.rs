//! Hostile generators of in-domain inputs.  Values are drawn in double-double and rounded to the scalar type,
//! so that the model sees exactly the numbers the crate sees.
use crate::dd::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sc::Sc;
use cam_geom::*;
use nalgebra::{Isometry3, Point3, Quaternion, Translation3, Unit, UnitQuaternion, Vector3};

/// Random low bits, so that values of wide types are not all f64 values.
pub fn rich(g: &mut Rng, x: f64) -> D {
    D::new(x) * (D::ONE + D::new(g.range(-1.0, 1.0) * 2f64.powi(-53)))
}

/// A factor one, or by anything from rounding to one percent off.
pub fn nearly(g: &mut Rng) -> D {
    let s = g.sign() * g.log(-17.0, -2.0);
    D::ONE + D::new(s)
}
/// A coordinate: special values or log-uniform magnitudes over `dec` decades.
pub fn coord<R: Sc>(g: &mut Rng, dec: f64) -> R {
    let x = match g.below(14) {
        0 | 1 => return R::f(0.0),
        2 => return R::f(g.sign()),
        12 => {
            // nearly a round number
            let k = g.sign() * if g.one_in(2) { 1.0 } else { g.below(100) as f64 };
            return R::of(D::new(k) * nearly(g));
        }
        13 if g.one_in(2) => g.sign() * g.log(-3.0 * dec, -dec),
        3 => return R::f(g.sign() * g.below(10) as f64),
        4 => return R::f(g.sign() * 2f64.powi(g.below(13) as i32 - 6)),
        5 => return R::f(g.sign() * 0.5 * g.below(2000) as f64),
        6 | 7 => g.range(-10.0, 10.0),
        8 => g.range(-1000.0, 1000.0),
        9 if R::EPS < 1e-10 && g.one_in(8) => g.sign() * g.log(-2.0 * dec, 2.0 * dec),
        _ => g.sign() * g.log(-dec, dec),
    };
    R::of(rich(g, x))
}
/// A vector of lengths.
pub fn vec3<R: Sc>(g: &mut Rng, dec: f64) -> [R; 3] {
    let v: [R; 3] = plain3(g, dec);
    let k = D::new(g.len);
    v.map(|x| R::of(x.d() * k))
}
/// A vector without a unit.
pub fn plain3<R: Sc>(g: &mut Rng, dec: f64) -> [R; 3] {
    match g.below(4) {
        // all of one magnitude
        0 => {
            let s = g.log(-dec, dec);
            let f = |g: &mut Rng| {
                let x = g.normal() * s;
                R::of(rich(g, x))
            };
            [f(g), f(g), f(g)]
        }
        1 => {
            let f = |g: &mut Rng| {
                let x = g.range(-10.0, 10.0);
                R::of(rich(g, x))
            };
            [f(g), f(g), f(g)]
        }
        _ => [coord(g, dec), coord(g, dec), coord(g, dec)],
    }
}
/// A unit direction, often along or near an axis or a coordinate plane.
pub fn dir(g: &mut Rng) -> V3 {
    loop {
        let mut a = [g.normal(), g.normal(), g.normal()];
        match g.below(8) {
            0 => {
                a = [0.0; 3];
                a[g.below(3)] = g.sign();
            }
            1 => a[g.below(3)] = 0.0,
            2 => {
                let i = g.below(3);
                let s = g.log(-12.0, 0.0);
                for j in 0..3 {
                    if j != i {
                        a[j] *= s;
                    }
                }
            }
            3 => {
                for x in &mut a {
                    *x = g.sign();
                }
            }
            _ => {}
        }
        let d = v(a);
        if n(d) > 1e-9 {
            return unit(d);
        }
    }
}

/// Hamilton product (w, x, y, z).
pub fn qmul(a: [D; 4], b: [D; 4]) -> [D; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn qnorm(q: [D; 4]) -> [D; 4] {
    let m = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    q.map(|x| x / m)
}
/// A rotation, as a unit quaternion (w, x, y, z) exact to double-double.
pub fn quat(g: &mut Rng) -> [D; 4] {
    let axis_angle = |ax: V3, an: f64| -> [D; 4] {
        let (s, c) = D::new(an / 2.0).sin_cos();
        qnorm([c, s * ax[0], s * ax[1], s * ax[2]])
    };
    let mut q = match g.below(12) {
        0 => v4([1.0, 0.0, 0.0, 0.0]),
        1 => {
            // half turns about the axes
            let mut a = [0.0; 4];
            a[1 + g.below(3)] = 1.0;
            v4(a)
        }
        2 => {
            // quarter turns about the axes
            let mut a = [0.5f64.sqrt(), 0.0, 0.0, 0.0];
            a[1 + g.below(3)] = g.sign() * 0.5f64.sqrt();
            qnorm(v4(a))
        }
        3 => qnorm(v4([0.5, g.sign() * 0.5, g.sign() * 0.5, g.sign() * 0.5])),
        4 => {
            let d = dir(g);
            let lo = if g.one_in(2) { -8.0 } else { -16.0 };
            let an = g.log(lo, 0.0);
            axis_angle(d, an)
        }
        5 => {
            // half turn about any axis, or almost
            let d = dir(g);
            let e = if g.one_in(2) { 0.0 } else { g.sign() * g.log(-9.0, -1.0) };
            axis_angle(d, std::f64::consts::PI + e)
        }
        6 => {
            let mut d = [D::ZERO; 3];
            d[g.below(3)] = D::ONE;
            let an = g.range(-7.0, 7.0);
            axis_angle(d, an)
        }
        _ => loop {
            let q = v4([g.normal(), g.normal(), g.normal(), g.normal()]);
            if q.iter().map(|x| x.a()).sum::<f64>() > 0.1 {
                break qnorm(q);
            }
        },
    };
    if g.one_in(10) {
        let d = dir(g);
        let an = g.log(-16.0, -1.0);
        q = qnorm(qmul(q, axis_angle(d, an)));
    }
    if g.one_in(3) {
        q = q.map(|x| -x);
    }
    q
}
pub fn v4(a: [f64; 4]) -> [D; 4] {
    a.map(D::new)
}
pub fn uq<R: Sc>(q: [D; 4]) -> UnitQuaternion<R> {
    UnitQuaternion::new_unchecked(Quaternion::new(R::of(q[0]), R::of(q[1]), R::of(q[2]), R::of(q[3])))
}
/// The length of a direction vector: one, nearly one, or anything from tiny to huge.
pub fn dirlen<R: Sc>(g: &mut Rng) -> D {
    let x = match g.below(8) {
        0 | 1 => return D::ONE,
        2 => 1.0 + g.sign() * g.log(-16.0, -0.5),
        3 => g.log(-R::DIRDEC, R::DIRDEC),
        4 => 2f64.powi(g.below(41) as i32 - 20),
        _ => g.log(-R::DEC / 2.0, R::DEC / 2.0),
    };
    let x = D::new(x);
    if R::EPS < 1e-10 && g.one_in(2) { x * (D::ONE + D::new(g.range(-1.0, 1.0) * 2f64.powi(-53))) } else { x }
}
/// The exact rotation a (nearly unit) quaternion of the scalar type stands for.
pub fn rot_of<R: Sc>(q: &UnitQuaternion<R>) -> M3 {
    rotm(qnorm([q.w.d(), q.i.d(), q.j.d(), q.k.d()]))
}
pub fn rotm(q: [D; 4]) -> M3 {
    let [w, x, y, z] = q;
    let two = D::new(2.0);
    [
        [D::ONE - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
        [two * (x * y + w * z), D::ONE - two * (x * x + z * z), two * (y * z - w * x)],
        [two * (x * z - w * y), two * (y * z + w * x), D::ONE - two * (x * x + y * y)],
    ]
}
pub fn dv<R: Sc>(x: [R; 3]) -> V3 {
    [x[0].d(), x[1].d(), x[2].d()]
}
pub fn vr<R: Sc>(x: [R; 3]) -> Vector3<R> {
    Vector3::new(x[0], x[1], x[2])
}

/// A view that is not degenerate: centre, look-at point, up.
pub struct View<R: Sc> {
    pub c: [R; 3],
    pub at: [R; 3],
    pub up: Unit<Vector3<R>>,
    /// Exact viewing direction, exact distance, exact up (not normalized), sine of the angle between them.
    pub fwd: V3,
    pub dist: D,
    pub updir: V3,
    pub sin: f64,
}
pub fn view<R: Sc>(g: &mut Rng, min_sin: f64) -> View<R> {
    loop {
        let c: [R; 3] = vec3(g, R::DEC / 2.0);
        let at: [R; 3] = match g.below(4) {
            0 => vec3(g, R::DEC / 2.0),
            1 => [R::f(0.0); 3],
            _ => {
                let d = dir(g);
                let s = g.len(-2.0, R::DEC / 2.0);
                R::v(add(dv(c), scale(D::new(s), d)))
            }
        };
        let upd = match g.below(4) {
            0 => v([0.0, 0.0, g.sign()]),
            1 => v([0.0, g.sign(), 0.0]),
            _ => dir(g),
        };
        let up = Unit::new_unchecked(vr(R::v(upd)));
        let updir = dv([up.x, up.y, up.z]);
        let d = sub(dv(at), dv(c));
        let dist = n(d);
        if !(dist > 1e-3 * (g.len + n(dv(c)).min(g.len))) {
            continue;
        }
        let fwd = unit(d);
        let sin = n(cross(fwd, unit(updir)));
        if sin < min_sin {
            continue;
        }
        return View { c, at, up, fwd, dist: norm(d), updir, sin };
    }
}

/// Extrinsic parameters by a random construction route, with the exact rigid motion they stand for.
pub fn ext<R: Sc>(g: &mut Rng) -> (ExtrinsicParameters<R>, Ext, &'static str) {
    let far = match g.below(8) {
        0 => 0.0,
        1 => R::DEC,
        _ => R::DEC / 2.0,
    };
    let route = g.below(10);
    let q: UnitQuaternion<R> = uq(quat(g));
    let c: [R; 3] = if far == 0.0 { [R::f(0.0); 3] } else { vec3(g, far) };
    let r = rot_of(&q);
    match route {
        0 | 1 => {
            // here c is the translation
            let pose = Isometry3::from_parts(Translation3::from(vr(c)), q);
            let e = ExtrinsicParameters::from_pose(&pose);
            let cc = scale(D::new(-1.0), mtv(&r, dv(c)));
            (e, Ext { r, c: cc }, "from_pose")
        }
        2 | 3 => {
            let w = view::<R>(g, 0.2);
            let e = ExtrinsicParameters::from_view(&vr(w.c), &vr(w.at), &w.up);
            // right = forward x up, down = forward x right
            let right = unit(cross(w.fwd, w.updir));
            let down = cross(w.fwd, right);
            (e, Ext { r: [right, down, w.fwd], c: dv(w.c) }, "from_view")
        }
        4 => {
            let e = ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(vr(c)));
            (e.clone(), Ext { r, c: dv(c) }, "clone")
        }
        _ => {
            let e = ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(vr(c)));
            (e, Ext { r, c: dv(c) }, "from_rotation_and_camcenter")
        }
    }
}

/// Nonzero focal length or scale, of either sign.
pub fn focal<R: Sc>(g: &mut Rng) -> R {
    let x: R = focal1(g);
    R::of(x.d() * D::new(g.pix))
}
fn focal1<R: Sc>(g: &mut Rng) -> R {
    let s = if g.one_in(4) { -1.0 } else { 1.0 };
    let x = match g.below(7) {
        0 => return R::f(s),
        1 => return R::f(s * 100.0),
        6 => return R::of(D::new(if g.one_in(2) { s } else { s * 100.0 }) * nearly(g)),
        2 => g.range(50.0, 5000.0),
        3 => return R::f(s * 2f64.powi(g.below(16) as i32 - 4)),
        _ => g.log(-2.0, 4.0),
    };
    R::of(rich(g, s * x))
}
pub fn principal<R: Sc>(g: &mut Rng) -> R {
    let x: R = principal1(g);
    R::of(x.d() * D::new(g.pix))
}
fn principal1<R: Sc>(g: &mut Rng) -> R {
    let x = match g.below(6) {
        0 => return R::f(0.0),
        1 => return R::f(320.0),
        2 => g.range(0.0, 4000.0),
        3 => g.range(-4000.0, 4000.0),
        4 => {
            let lo = if g.one_in(4) { -15.0 } else { -3.0 };
            g.sign() * g.log(lo, 5.0)
        }
        _ => return R::f(g.sign() * g.below(1000) as f64),
    };
    R::of(rich(g, x))
}
pub fn persp_params<R: Sc>(g: &mut Rng) -> PerspectiveParams<R> {
    let fx: R = focal(g);
    let fy: R = match g.below(9) {
        0 | 1 => fx,
        2 => R::of(-fx.d()),
        3 => R::of(fx.d() * nearly(g)),
        _ => focal(g),
    };
    let skew = match g.below(5) {
        0 => R::f(0.0),
        1 => R::f(0.1 * g.pix),
        2 => {
            let lo = if g.one_in(2) { -4.0 } else { -16.0 };
            let k = g.sign() * g.log(lo, 0.5);
            R::of(fx.d() * D::new(k))
        }
        3 => {
            let x = g.sign() * g.log(-3.0, 3.0) * g.pix;
            R::of(rich(g, x))
        }
        _ => fx,
    };
    let (cx, cy) = centre(g);
    PerspectiveParams { fx, fy, skew, cx, cy }
}
fn centre<R: Sc>(g: &mut Rng) -> (R, R) {
    let cx: R = principal(g);
    let cy: R = match g.below(12) {
        0 => cx,
        1 => R::of(cx.d() * nearly(g)),
        2 => R::of(-cx.d()),
        _ => principal(g),
    };
    (cx, cy)
}
pub fn ortho_params<R: Sc>(g: &mut Rng) -> OrthographicParams<R> {
    // pixels per length
    let k = D::new(g.len);
    let sx: R = R::of(focal::<R>(g).d() / k);
    let sy: R = match g.below(12) {
        0..=2 => sx,
        3 => R::of(-sx.d()),
        4 => R::of(sx.d() * nearly(g)),
        _ => R::of(focal::<R>(g).d() / k),
    };
    let (cx, cy) = centre(g);
    OrthographicParams { sx, sy, cx, cy }
}
pub fn persp_of<R: Sc>(p: &PerspectiveParams<R>) -> Persp {
    Persp { fx: p.fx.d(), fy: p.fy.d(), sk: p.skew.d(), cx: p.cx.d(), cy: p.cy.d() }
}
pub fn ortho_of<R: Sc>(p: &OrthographicParams<R>) -> Orth {
    Orth { sx: p.sx.d(), sy: p.sy.d(), cx: p.cx.d(), cy: p.cy.d() }
}

pub type PCam<R> = Camera<R, IntrinsicParametersPerspective<R>>;
pub type OCam<R> = Camera<R, IntrinsicParametersOrthographic<R>>;

/// Perspective intrinsics by a random construction route.
pub fn persp<R: Sc>(g: &mut Rng) -> (IntrinsicParametersPerspective<R>, Persp) {
    let p = persp_params::<R>(g);
    let m = persp_of(&p);
    let i = if g.one_in(4) {
        let z = R::f(0.0);
        #[rustfmt::skip]
        let k = nalgebra::SMatrix::<R, 3, 4>::new(
            p.fx, p.skew, p.cx, z,
            z, p.fy, p.cy, z,
            z, z, R::f(1.0), z,
        );
        match IntrinsicParametersPerspective::from_normalized_3x4_matrix(k) {
            Ok(i) => i,
            // whether it must be accepted is C10's business
            Err(_) => p.into(),
        }
    } else {
        p.into()
    };
    (i, m)
}
pub fn pcam<R: Sc>(g: &mut Rng) -> (PCam<R>, Ext, Persp, &'static str) {
    let (e, x, route) = ext::<R>(g);
    let (i, p) = persp::<R>(g);
    (Camera::new(i, e), x, p, route)
}
pub fn ocam<R: Sc>(g: &mut Rng) -> (OCam<R>, Ext, Orth, &'static str) {
    let (e, x, route) = ext::<R>(g);
    let p = ortho_params::<R>(g);
    let o = ortho_of(&p);
    (Camera::new(p.into(), e), x, o, route)
}

/// A point in the camera frame, with depth of either sign (or only in front).
pub fn cam_point(g: &mut Rng, front: bool) -> V3 {
    let s = if !front && g.one_in(3) { -1.0 } else { 1.0 };
    let z = match g.below(6) {
        0 => 1.0,
        5 => nearly(g).f(),
        1 => g.range(0.5, 20.0),
        2 if g.one_in(4) => g.log(-13.0, 0.0),
        2 => g.log(-3.0, 0.0),
        3 if g.one_in(4) => g.log(3.0, 8.0),
        _ => g.log(-1.0, 3.0),
    } * s;
    let f = |g: &mut Rng| -> f64 {
        match g.below(6) {
            0 => 0.0,
            1 => g.range(-20.0, 20.0) * z.abs(),
            2 => {
                let lo = if g.one_in(3) { -16.0 } else { -5.0 };
                g.sign() * g.log(lo, 1.5) * z.abs()
            }
            3 => g.sign() * g.log(-3.0, 3.0),
            _ => g.range(-1.0, 1.0) * z.abs(),
        }
    };
    let x = f(g);
    let y = match g.below(12) {
        0 => x,
        1 => -x,
        2 => x * nearly(g).f(),
        _ => f(g),
    };
    [x, y, z].map(|a| rich(g, a * g.len))
}
/// A world point of the scalar type: usually one at a chosen place in the camera frame.
pub fn world_point<R: Sc>(g: &mut Rng, e: &Ext, front: bool) -> [R; 3] {
    if g.one_in(6) && !front {
        return vec3(g, R::DEC / 2.0);
    }
    let p = cam_point(g, front);
    R::v(e.to_world(p))
}
/// A pixel.
pub fn pixel<R: Sc>(g: &mut Rng, c: [D; 2], f: [D; 2]) -> [R; 2] {
    pixel_of(g, c, f, false)
}
/// Of an orthographic camera, whose scales are pixels per length.
pub fn opixel<R: Sc>(g: &mut Rng, c: [D; 2], f: [D; 2]) -> [R; 2] {
    pixel_of(g, c, f, true)
}
fn pixel_of<R: Sc>(g: &mut Rng, c: [D; 2], f: [D; 2], ortho: bool) -> [R; 2] {
    let k = g.below(10);
    let mut one = |i: usize| -> R {
        match k {
            0 => R::f(0.0),
            1 => R::of(c[i]),
            2 => R::f(g.below(2000) as f64 * g.pix),
            3 => R::f((0.5 + g.below(2000) as f64) * g.pix),
            4 => {
                let x = g.sign() * g.log(-3.0, 5.0) * g.pix;
                R::of(rich(g, x))
            }
            5 if i == 0 => R::of(c[0]),
            8 => {
                // so close to the principal point that it is nearly that
                R::of(c[i] * nearly(g))
            }
            _ => {
                let lo = if k == 9 { -16.0 } else { -3.0 };
                let hi = if g.one_in(30) { 7.0 } else { 1.5 };
                let s = g.sign() * g.log(lo, hi);
                let k = if ortho { D::new(g.len) } else { D::ONE };
                R::of(c[i] + f[i] * k * rich(g, s))
            }
        }
    };
    [one(0), one(1)]
}

/// A row to stand beside the one that is examined: the same, nearly the same, permuted, scaled or unrelated.
pub fn companion<R: Sc, const C: usize>(g: &mut Rng, x: [R; C]) -> [R; C] {
    let k = g.below(12);
    let mut y = x;
    match k {
        0 => {}
        1 => y = [R::f(0.0); C],
        2 => y.reverse(),
        3 => y = x.map(|a| R::of(-a.d())),
        4 => y = x.map(|a| R::of(a.d() * nearly(g))),
        5 => y[g.below(C)] = R::f(0.0),
        6 => {
            let s = D::new(g.sign() * g.log(-3.0, 3.0));
            y = x.map(|a| R::of(a.d() * s));
        }
        7 => y = std::array::from_fn(|_| R::f(g.sign() * g.below(1000) as f64)),
        8 if g.one_in(4) => y[g.below(C)] = R::f(f64::NAN),
        9 if g.one_in(4) => y[g.below(C)] = R::f(g.sign() * f64::INFINITY),
        _ => y = std::array::from_fn(|_| coord(g, R::DEC / 2.0)),
    }
    y
}
/// A number of rows for a batch of dynamic size.
pub fn batch_size(g: &mut Rng) -> usize {
    match g.below(128) {
        0 => 100 + g.below(200),
        1 => g.size_word(5000).unwrap_or(100 + g.below(200)),
        2..=9 => 10 + g.below(60),
        10..=41 => 1,
        _ => 2 + g.below(8),
    }
}
/// Row i of a matrix.
pub fn row_at<R: Sc, N: nalgebra::Dim, S: nalgebra::storage::RawStorage<R, N, nalgebra::Const<C>>, const C: usize>(
    m: &nalgebra::Matrix<R, N, nalgebra::Const<C>, S>, i: usize,
) -> [D; C] {
    std::array::from_fn(|j| m[(i, j)].d())
}

/// The row of the result of an operation (an expression in the matrix `$m`) that belongs to the row `$x`, which
/// is given alone or somewhere among others, in a matrix of fixed or dynamic size.
#[cfg(feature = "alloc")]
#[macro_export]
macro_rules! placed {
    ($g:expr, $c:literal, $x:expr, $m:ident => $body:expr) => {{
        let g: &mut $crate::rng::Rng = &mut *$g;
        if g.one_in(4) {
            let n = $crate::gen::batch_size(g);
            let at = if g.one_in(3) { n - 1 } else { g.below(n) };
            let x = $x;
            let mut m = nalgebra::OMatrix::<_, nalgebra::Dyn, nalgebra::Const<$c>>::from_element_generic(
                nalgebra::Dyn(n), nalgebra::Const::<$c>, x[0]);
            for i in 0..n {
                let y = if i == at { x } else { $crate::gen::companion::<_, $c>(g, x) };
                for j in 0..$c {
                    m[(i, j)] = y[j];
                }
            }
            let $m = m;
            $crate::gen::row_at(&$body, at)
        } else {
            $crate::placed_fixed!(g, $c, $x, $m => $body)
        }
    }};
}
/// Without an allocator, matrices are of fixed size only.
#[cfg(not(feature = "alloc"))]
#[macro_export]
macro_rules! placed {
    ($g:expr, $c:literal, $x:expr, $m:ident => $body:expr) => {
        $crate::placed_fixed!($g, $c, $x, $m => $body)
    };
}
/// The same with matrices of fixed size only.
#[macro_export]
macro_rules! placed_fixed {
    ($g:expr, $c:literal, $x:expr, $m:ident => $body:expr) => {{
        let g: &mut $crate::rng::Rng = &mut *$g;
        let x = $x;
        match g.below(6) {
            0 => {
                let at = g.below(2);
                let y = $crate::gen::companion::<_, $c>(g, x);
                let $m = nalgebra::SMatrix::<_, 2, $c>::from_fn(|i, j| if i == at { x[j] } else { y[j] });
                $crate::gen::row_at(&$body, at)
            }
            1 => {
                let at = g.below(4);
                let y: [_; 4] = std::array::from_fn(|i| if i == at { x } else { $crate::gen::companion::<_, $c>(g, x) });
                let $m = nalgebra::SMatrix::<_, 4, $c>::from_fn(|i, j| y[i][j]);
                $crate::gen::row_at(&$body, at)
            }
            _ => {
                let $m = nalgebra::SMatrix::<_, 1, $c>::from_fn(|_, j| x[j]);
                $crate::gen::row_at(&$body, 0)
            }
        }
    }};
}
