//! C21: fixed-size use needs no heap and no standard library.
//!
//! Built and run with each feature set of the crate: std, alloc only, and none.
use cam_geom::linearize::JacobianPerspectiveCache;
use monitors::bundles::*;
use monitors::heap::{counted, Counting};
use monitors::pmat;
use monitors::prelude::*;
use nalgebra::Const;

#[global_allocator]
static A: Counting = Counting;

/// Runs an operation of the crate; it must not use the heap.
macro_rules! op {
    ($r:expr, $name:literal, $e:expr) => {{
        let (x, n) = counted(|| $e);
        $r.ensure("no heap allocation", n == 0, || format!("{} called the allocator {n} times", $name));
        $r.class($name);
        x
    }};
}
fn fixed<R: Sc, const N: usize>(g: &mut Rng, r: &mut Rec) {
    let eps = R::EPS;
    // construction
    let w = view::<R>(g, 0.2);
    let q: UnitQuaternion<R> = uq(quat(g));
    let c: [R; 3] = vec3(g, R::DEC / 2.0);
    let (ep, e) = match g.below(3) {
        0 => {
            let ep = op!(r, "from_view", ExtrinsicParameters::from_view(&vr(w.c), &vr(w.at), &w.up));
            let right = unit(cross(w.fwd, w.updir));
            (ep, Ext { r: [right, cross(w.fwd, right), w.fwd], c: dv(w.c) })
        }
        1 => {
            let iso = Isometry3::from_parts(Translation3::from(vr(c)), q);
            let ep = op!(r, "from_pose", ExtrinsicParameters::from_pose(&iso));
            let m = rot_of(&q);
            (ep, Ext { r: m, c: scale(D::new(-1.0), mtv(&m, dv(c))) })
        }
        _ => {
            let ep = op!(r, "from_rotation_and_camcenter", ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(vr(c))));
            (ep, Ext { r: rot_of(&q), c: dv(c) })
        }
    };
    let pp = persp_params::<R>(g);
    let p = persp_of(&pp);
    let opar = ortho_params::<R>(g);
    let o = ortho_of(&opar);
    let pi: IntrinsicParametersPerspective<R> = op!(r, "perspective intrinsics", pp.clone().into());
    let oi: IntrinsicParametersOrthographic<R> = op!(r, "orthographic intrinsics", opar.clone().into());
    let z = R::f(0.0);
    let k34 = SMatrix::<R, 3, 4>::new(pp.fx, pp.skew, pp.cx, z, z, pp.fy, pp.cy, z, z, z, R::f(1.0), z);
    let k34 = op!(r, "from_normalized_3x4_matrix", IntrinsicParametersPerspective::from_normalized_3x4_matrix(k34));
    r.ensure("a normalized matrix is accepted", k34.is_ok_and(|k| k == pi), || format!("{pp:?}"));
    let pcam = op!(r, "Camera::new", Camera::new(pi.clone(), ep.clone()));
    let ocam = op!(r, "Camera::new", Camera::new(oi.clone(), ep.clone()));
    let dirs = op!(r, "forward, up, right", (ep.forward(), ep.up(), ep.right(), *ep.camcenter(), *ep.matrix()));
    for (d, want) in [(dirs.0, e.r[2]), (dirs.1, scale(D::new(-1.0), e.r[1])), (dirs.2, e.r[0])] {
        r.check("axes", dist([d[0].d(), d[1].d(), d[2].d()], want), K * eps, || format!("{ep:?}"));
    }
    // points and pixels
    let pts: [[R; 3]; N] = std::array::from_fn(|_| world_point(g, &e, false));
    let pix: [[R; 2]; N] = std::array::from_fn(|_| pixel(g, [p.cx, p.cy], [p.fx, p.fy]));
    let m3 = SMatrix::<R, N, 3>::from_fn(|i, j| pts[i][j]);
    let m2 = SMatrix::<R, N, 2>::from_fn(|i, j| pix[i][j]);
    r.input(key(&[pts[0][0], pts[0][1], pts[0][2], pp.fx]), true);
    let det = || format!("{} {pcam:?} {opar:?} points {pts:?} pixels {pix:?}", R::NAME);
    r.sample(det);
    let wp = Points::<WorldFrame, R, Const<N>, _>::new(m3);
    let cp = Points::<CameraFrame, R, Const<N>, _>::new(m3);
    let uv = Pixels::new(m2);
    let cc = rows(&op!(r, "world_to_camera", ep.world_to_camera(&wp)).data);
    let ww = rows(&op!(r, "camera_to_world", ep.camera_to_world(&cp)).data);
    let u = rows2(&op!(r, "perspective world_to_pixel", pcam.world_to_pixel(&wp)).data);
    let v = rows2(&op!(r, "orthographic world_to_pixel", ocam.world_to_pixel(&wp)).data);
    for i in 0..N {
        let x = dv(pts[i]);
        let c = e.to_cam(x);
        let tc = e.tol_cam(x, eps);
        r.check("world to camera", dist(cc[i], c), tc, det);
        r.check("camera to world", dist(ww[i], e.to_world(x)), e.tol_world(x, eps), det);
        match p.tol(c, tc, eps) {
            None => r.inconclusive("perspective projection"),
            Some(t) => {
                let want = p.pix(c);
                for j in 0..2 {
                    r.check("perspective projection", (u[i][j] - want[j]).a(), t[j], || format!("row {i}: {:?} expected {want:?}; {}", u[i], det()));
                }
            }
        }
        let (want, t) = (o.pix(c), o.tol(c, tc, eps));
        for j in 0..2 {
            r.check("orthographic projection", (v[i][j] - want[j]).a(), t[j], || format!("row {i}: {:?} expected {want:?}; {}", v[i], det()));
        }
    }
    // rays
    let s: R = distance(g);
    let pw = op!(r, "perspective pixel_to_world", pcam.pixel_to_world(&uv));
    let ow = op!(r, "orthographic pixel_to_world", ocam.pixel_to_world(&uv));
    let pc = op!(r, "perspective pixel_to_camera", pi.pixel_to_camera(&uv));
    let pw2 = op!(r, "ray_camera_to_world", ep.ray_camera_to_world(&pc));
    r.ensure("rays by two ways", pw.data.nrows() == N && pw2.data.nrows() == N, det);
    let (q1, q2) = op!(r, "point_on_ray", (pw.point_on_ray(), ow.point_on_ray()));
    let (q3, q4) = op!(r, "point_on_ray_at_distance", (pw.point_on_ray_at_distance(s), ow.point_on_ray_at_distance(s)));
    let (c1, d1) = op!(r, "centers and directions", (pw.centers(), pw.directions()));
    let (c2, d2) = op!(r, "centers and directions", (ow.centers(), ow.directions()));
    for i in 0..N {
        let uv = dd2(pix[i]);
        let d = mtv(&e.r, p.dir(uv));
        let td = p.tol_dir(uv, [0.0; 2], eps) / n(d);
        let tc = K * eps * n(e.c);
        r.check("perspective ray centre", dist(rows(&c1)[i], e.c), tc, det);
        r.check("perspective ray direction", dist(unit(rows(&d1)[i]), unit(d)), 2.0 * (td + K * eps), det);
        let a = rows(&q1.data)[i];
        r.check("point on perspective ray", line_dist(a, e.c, d), tc + (td + K * eps) * (n(sub(a, e.c)) + tc) + K * eps * n(a), det);
        let want = add(e.c, scale(s.d(), unit(d)));
        r.check("point at distance on perspective ray", dist(rows(&q3.data)[i], want), tc + 2.0 * (td + K * eps) * s.d().a(), det);
        let og = e.to_world(o.org(uv));
        let to = o.tol_org(uv, [0.0; 2], eps) + e.tol_world(o.org(uv), eps);
        r.check("orthographic ray centre", dist(rows(&c2)[i], og), to, det);
        r.check("orthographic ray direction", dist(unit(rows(&d2)[i]), e.fwd()), K * eps, det);
        let a = rows(&q2.data)[i];
        r.check("point on orthographic ray", line_dist(a, og, e.fwd()), to + K * eps * (n(sub(a, og)) + n(a)), det);
        let want = add(og, scale(s.d(), e.fwd()));
        r.check("point at distance on orthographic ray", dist(rows(&q4.data)[i], want), to + K * eps * s.d().a(), det);
    }
    let one = op!(r, "single ray", pcam.pixel_to_world(&px(pix[0])).to_single_ray());
    r.check("single ray", dist(r3(&one.center), e.c), K * eps * n(e.c), det);
    // linearization
    let jac = op!(r, "JacobianPerspectiveCache::new", JacobianPerspectiveCache::new(&pcam));
    let j = op!(r, "linearize_at", jac.linearize_at(&wpt(pts[0])));
    let (want, tol) = derivative(&e, &p, dv(pts[0]), eps);
    match tol {
        None => r.inconclusive("linearization"),
        Some(t) => {
            for i in 0..2 {
                let row: V3 = [j[(i, 0)].d(), j[(i, 1)].d(), j[(i, 2)].d()];
                r.check("linearization", dist(row, want[i]), t[i], || format!("row {i} {row:?} expected {:?}; {}", want[i], det()));
            }
        }
    }
    // matrices
    let m = op!(r, "as_camera_matrix", pcam.as_camera_matrix());
    let pm = pmat::Pm::new(&m);
    let x = dv(pts[0]);
    let cx = e.to_cam(x);
    if let Some(t) = p.tol(cx, e.tol_cam(x, eps), eps) {
        let h = pm.hom(x);
        for k in 0..2 {
            r.check("projection by the exported matrix", (h[k] / h[2] - p.pix(cx)[k]).a(), 2.0 * t[k], || format!("{m:?} {}", det()));
        }
    }
    let (mm, kind) = pmat::matrix::<R>(g);
    let pm = pmat::Pm::new(&mm);
    let cam = op!(r, "from_perspective_matrix", Camera::from_perspective_matrix(&mm));
    if pm.relcond() * eps * K < 1e-2 {
        match cam {
            Ok(cam) => pmat::imported(g, r, &pm, &cam, &|| format!("{} {kind} {mm:?}", R::NAME)),
            Err(_) => {
                r.ensure("a non-singular matrix is accepted", false, || format!("{} {kind} {mm:?}", R::NAME));
            }
        }
    }
    // values
    let (a, b) = op!(r, "clone and compare", (pcam.clone() == pcam, ocam.clone() == ocam));
    r.ensure("clones are equal", a && b, det);
}
fn any<R: Sc>(g: &mut Rng, r: &mut Rec) {
    match g.below(5) {
        0 => fixed::<R, 1>(g, r),
        1 => fixed::<R, 2>(g, r),
        2 => fixed::<R, 3>(g, r),
        3 => fixed::<R, 4>(g, r),
        _ => fixed::<R, 8>(g, r),
    }
}
/// A value of any kind.
fn odd<R: Sc>(g: &mut Rng, tame: bool) -> R {
    if tame || g.one_in(2) {
        return coord(g, R::DEC / 3.0);
    }
    R::f(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 1e30, -1e-30, 1e-300, 1e300]))
}
/// Many rows, views, odd values and malformed matrices: results are the business of other properties.
fn lean<R: Sc, const N: usize>(g: &mut Rng, r: &mut Rec) {
    let tame = g.one_in(2);
    let (ep, _, _) = ext::<R>(g);
    let pp = persp_params::<R>(g);
    let pi: IntrinsicParametersPerspective<R> = pp.into();
    let oi: IntrinsicParametersOrthographic<R> = ortho_params::<R>(g).into();
    let q = if tame { uq(quat(g)) } else { Unit::new_unchecked(Quaternion::new(odd(g, tame), odd(g, tame), odd(g, tame), odd(g, tame))) };
    let c: [R; 3] = std::array::from_fn(|_| odd(g, tame));
    let at: [R; 3] = std::array::from_fn(|_| odd(g, tame));
    let up: Unit<Vector3<R>> = Unit::new_unchecked(vr(std::array::from_fn(|_| odd(g, tame))));
    let e1 = op!(r, "from_rotation_and_camcenter", ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(vr(c))));
    let e2 = op!(r, "from_view", ExtrinsicParameters::from_view(&vr(c), &vr(at), &up));
    let e3 = op!(r, "from_pose", ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(vr(at)), q)));
    let ep = match g.below(4) {
        0 => e1,
        1 => e2,
        2 => e3,
        _ => ep,
    };
    let pcam = op!(r, "Camera::new", Camera::new(pi, ep.clone()));
    let ocam = op!(r, "Camera::new", Camera::new(oi, ep.clone()));
    let m3 = SMatrix::<R, N, 3>::from_fn(|_, _| odd(g, tame));
    let m2 = SMatrix::<R, N, 2>::from_fn(|_, _| odd(g, tame));
    r.input(key(&[m3[(0, 0)], m3[(0, 1)], m2[(0, 0)], m2[(0, 1)], c[0], at[0]]), true);
    r.class(match N {
        0..=9 => "odd values, 1-9 rows",
        10..=99 => "odd values, 10-99 rows",
        _ => "odd values, 100 or more rows",
    });
    let s: R = odd(g, tame);
    macro_rules! batch {
        ($m3:expr, $m2:expr) => {{
            let wp = Points::<WorldFrame, R, Const<N>, _>::new($m3);
            let cp = Points::<CameraFrame, R, Const<N>, _>::new($m3);
            let uv = Pixels::new($m2);
            let a = op!(r, "world_to_camera", ep.world_to_camera(&wp));
            let b = op!(r, "camera_to_world", ep.camera_to_world(&cp));
            let c = op!(r, "perspective world_to_pixel", pcam.world_to_pixel(&wp));
            let d = op!(r, "orthographic world_to_pixel", ocam.world_to_pixel(&wp));
            let e = op!(r, "perspective camera_to_pixel", pcam.intrinsics().camera_to_pixel(&cp));
            let f = op!(r, "orthographic camera_to_pixel", ocam.intrinsics().camera_to_pixel(&cp));
            r.ensure("one row per row", [a.data.nrows(), b.data.nrows(), c.data.nrows(), d.data.nrows(), e.data.nrows(), f.data.nrows()] == [N; 6], String::new);
            let pw = op!(r, "perspective pixel_to_world", pcam.pixel_to_world(&uv));
            let ow = op!(r, "orthographic pixel_to_world", ocam.pixel_to_world(&uv));
            let pc = op!(r, "perspective pixel_to_camera", pcam.intrinsics().pixel_to_camera(&uv));
            let oc = op!(r, "orthographic pixel_to_camera", ocam.intrinsics().pixel_to_camera(&uv));
            let pw2 = op!(r, "ray_camera_to_world", ep.ray_camera_to_world(&pc));
            let ow2 = op!(r, "ray_camera_to_world", ep.ray_camera_to_world(&oc));
            op!(r, "point_on_ray", (pw.point_on_ray(), ow.point_on_ray(), pc.point_on_ray(), oc.point_on_ray()));
            op!(r, "point_on_ray_at_distance", (pw2.point_on_ray_at_distance(s), ow2.point_on_ray_at_distance(s)));
            op!(r, "centers and directions", (pw.centers(), pw.directions(), ow.centers(), ow.directions()));
            let raw = op!(r, "bundles from raw data", (RayBundle::<WorldFrame, _, R, Const<N>, _>::new_shared_zero_origin($m3), RayBundle::<WorldFrame, _, R, Const<N>, _>::new_shared_plusz_direction($m3)));
            op!(r, "point_on_ray", (raw.0.point_on_ray(), raw.1.point_on_ray()));
            op!(r, "point_on_ray_at_distance", (raw.0.point_on_ray_at_distance(s), raw.1.point_on_ray_at_distance(s)));
            op!(r, "clone and compare bundles", (pw.clone() == pw, ow.clone() == ow));
        }};
    }
    if g.one_in(2) {
        batch!(m3, m2)
    } else {
        batch!(m3.fixed_view::<N, 3>(0, 0), m2.fixed_view::<N, 2>(0, 0))
    }
    let jac = op!(r, "JacobianPerspectiveCache::new", JacobianPerspectiveCache::new(&pcam));
    op!(r, "linearize_at", jac.linearize_at(&wpt(c)));
    op!(r, "as_camera_matrix", pcam.as_camera_matrix());
    // matrices of any values, also singular
    let mut m = SMatrix::<R, 3, 4>::from_fn(|_, _| odd(g, tame));
    if g.one_in(3) {
        let row = m.row(0) * R::f(2.0);
        m.row_mut(2).copy_from(&row);
    }
    let x = op!(r, "from_perspective_matrix", Camera::from_perspective_matrix(&m));
    r.class(if x.is_ok() { "matrix imported" } else { "matrix refused" });
    let mut k = *ep.matrix();
    match g.below(4) {
        0 | 1 => k = m,
        2 => {
            // normalized, of any parameters, and perhaps a hair off
            let z = R::f(0.0);
            let o = |g: &mut Rng| -> R { odd(g, tame) };
            let (a, b, c, d, e) = (o(g), o(g), o(g), o(g), o(g));
            k = SMatrix::<R, 3, 4>::new(a, b, c, z, z, d, e, z, z, z, R::f(1.0), z);
            if g.one_in(2) {
                let i = g.below(12);
                let near = match g.below(3) {
                    0 => R::of(k[i].d() + D::new(g.sign() * R::EPS * g.log(-2.0, 2.0))),
                    1 => R::of(k[i].d() * nearly(g)),
                    _ => o(g),
                };
                k[i] = near;
            }
        }
        _ => {}
    }
    let y = op!(r, "from_normalized_3x4_matrix", IntrinsicParametersPerspective::from_normalized_3x4_matrix(k));
    r.class(if y.is_ok() { "intrinsic matrix accepted" } else { "intrinsic matrix refused" });
}
fn many<R: Sc>(g: &mut Rng, r: &mut Rec) {
    match g.below(16) {
        0 => lean::<R, 1>(g, r),
        1 | 2 => lean::<R, 2>(g, r),
        3 | 4 => lean::<R, 5>(g, r),
        5 | 6 => lean::<R, 9>(g, r),
        7 | 8 => lean::<R, 17>(g, r),
        9 | 10 => lean::<R, 33>(g, r),
        11 | 12 => lean::<R, 65>(g, r),
        13 => lean::<R, 130>(g, r),
        14 => lean::<R, 260>(g, r),
        _ if g.one_in(4) => lean::<R, 1030>(g, r),
        _ => lean::<R, 70>(g, r),
    }
}
/// What the executable without a standard library computed, given as lines of hexadecimal f64:
/// 7 of the rotation (w x y z) and centre, 5 of the intrinsics, 3 of the point, 2 of the pixel, 3 of the world
/// ray's direction.
fn judge_nostd(file: &str, r: &mut Rec) {
    let s = std::fs::read_to_string(file).unwrap_or_else(|_| mon::die("cannot read the output of the executable without std"));
    for (i, line) in s.lines().enumerate() {
        r.case = i as u64;
        let x: Vec<f64> = line
            .split_whitespace()
            .map(|t| f64::from_bits(u64::from_str_radix(t, 16).unwrap_or_else(|_| mon::die("bad output of the executable without std"))))
            .collect();
        if x.len() != 20 {
            mon::die("bad line in the output of the executable without std");
        }
        let e = Ext { r: rotm(qnorm(v4([x[0], x[1], x[2], x[3]]))), c: v([x[4], x[5], x[6]]) };
        let p = Persp { fx: D::new(x[7]), fy: D::new(x[8]), sk: D::new(x[9]), cx: D::new(x[10]), cy: D::new(x[11]) };
        let pt = v([x[12], x[13], x[14]]);
        r.input(key(&x), true);
        let eps = f64::EPSILON;
        let c = e.to_cam(pt);
        let Some(t) = p.tol(c, e.tol_cam(pt, eps), eps) else {
            r.inconclusive("projection without std");
            continue;
        };
        let want = p.pix(c);
        for k in 0..2 {
            r.check("projection without std", (D::new(x[15 + k]) - want[k]).a(), t[k], || format!("{x:?} expected {want:?}"));
        }
        let d = mtv(&e.r, p.dir([D::new(x[15]), D::new(x[16])]));
        let td = p.tol_dir([D::new(x[15]), D::new(x[16])], [0.0; 2], eps);
        r.check("ray without std", dist(v([x[17], x[18], x[19]]), d), td + K * eps * n(d), || format!("{x:?} expected {d:?}"));
    }
    if s.lines().count() < 1000 {
        mon::die("the executable without std produced too little");
    }
}
fn nostd(_: &mut Rng, r: &mut Rec) {
    if let Ok(f) = std::env::var("NOSTD_OUTPUT") {
        judge_nostd(&f, r);
    }
}
fn main() {
    if std::env::var("NOSTD_OUTPUT").is_ok() {
        mon::main(Spec {
            id: "C21",
            families: vec![Family { name: "no_std executable", weight: 1, run: nostd }],
            quick: 1,
            rule: "a case is a camera, point, pixel and ray computed by an executable without the standard library; distinct by all their bits",
            min_distinct: 1000,
            assumptions: &[],
        });
    }
    mon::main(Spec {
        id: "C21",
        families: families! { "fixed size", any, 4; "many rows and odd values", many, 1 },
        quick: 600_000,
        rule: "a case is one pass over 25 operations of the crate on matrices of static size (1-8 rows, compared to the model; or 1-1030 rows, views and values of any kind), under an allocator that counts calls; run with the feature sets std, alloc and none; every case is non-trivial; distinct by the bits of a point and a focal length",
        min_distinct: 30_000,
        assumptions: &["the allocator calls counted are those of the thread running the operation"],
    })
}
