//! C12: moving rays to the world frame moves every point on them.
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use nalgebra::{allocator::Allocator, storage::Owned, Const, DefaultAllocator, Dim, Dyn, Matrix};

/// `b` holds the rays `cam` in the camera frame; converts it and compares every ray and points on them.
fn convert<R: Sc, B: Kind<R>, N: Dim>(
    g: &mut Rng,
    r: &mut Rec,
    ep: &ExtrinsicParameters<R>,
    e: &Ext,
    b: &OwnedBundle<CameraFrame, B, R, N>,
    rays: &Rays,
    dc: &[f64],
    dd: f64,
    det: &dyn Fn() -> String,
) -> OwnedBundle<WorldFrame, B, R, N>
where
    DefaultAllocator: Allocator<N, U3>,
    Owned<R, N, U3>: Clone,
{
    let eps = R::EPS;
    let w = ep.ray_camera_to_world(b);
    r.ensure("the number of rays is kept", w.data.nrows() == rays.len() && b.data.nrows() == rays.len(), det);
    let want: Rays = rays.iter().map(|(c, d)| (e.to_world(*c), mtv(&e.r, *d))).collect();
    let wc: Vec<f64> = rays.iter().zip(dc).map(|((c, _), t)| e.tol_world(*c, eps) + t).collect();
    let wd = K * eps + dd;
    for k in 0..2 {
        let s: R = distance(g);
        points_on(r, &w, &want, s, &wc, wd, det);
        // the same statement within the library: convert the point instead of the ray
        let p = b.point_on_ray_at_distance(s);
        let conv = rows(&ep.camera_to_world(&p).data);
        let got = rows(&w.point_on_ray_at_distance(s).data);
        for i in 0..rays.len() {
            let (c, _) = rays[i];
            let t = 2.0 * K * eps * (n(c) + n(e.c) + s.d().a());
            r.check("converted points are points of converted rays", dist(conv[i], got[i]), t, || {
                format!("row {i} distance {s:?}: converted point {:?}, point of the converted ray {:?}; {}", conv[i], got[i], det())
            });
        }
        if k == 0 && rays.len() > 20 {
            break;
        }
    }
    w
}
fn source<R: Sc, B: Kind<R>, N: Dim>(
    g: &mut Rng,
    m: &Matrix<R, N, U3, Owned<R, N, U3>>,
    data: &[[R; 3]],
) -> (OwnedBundle<CameraFrame, B, R, N>, Rays, Vec<f64>, f64, &'static str)
where
    DefaultAllocator: Allocator<N, U3>,
    Owned<R, N, U3>: Clone,
{
    let raw: Rays = data.iter().map(|x| B::ray(dv(*x))).collect();
    if g.one_in(2) {
        (B::raw(m.clone()), raw, vec![0.0; data.len()], 0.0, "as constructed")
    } else {
        // a general centre or direction, within the camera frame
        let mo = motion::<R>(g);
        let b = B::plain().to_pose::<N, _, CameraFrame>(mo.iso, m);
        let want: Rays = raw.iter().map(|x| mo.ray(*x)).collect();
        let dc = want.iter().zip(&raw).map(|(w, a)| K * R::EPS * (n(w.0) + n(a.0) + n(mo.t))).collect();
        (b, want, dc, K * R::EPS, "posed in the camera frame")
    }
}
fn fixed<R: Sc, B: Kind<R>, const N: usize>(g: &mut Rng, r: &mut Rec) {
    let (ep, e, route) = ext::<R>(g);
    let data: [[R; 3]; N] = std::array::from_fn(|_| bundle_row(g));
    let m = SMatrix::<R, N, 3>::from_fn(|i, j| data[i][j]);
    let (b, rays, dc, dd, how) = source::<R, B, Const<N>>(g, &m, &data);
    r.input(key(&[data[0][0], data[0][1], data[0][2], ep.camcenter()[0]]), n(e.c) > 0.0);
    r.class(B::KIND);
    r.class(how);
    let (b1, ep1) = (b.clone(), ep.clone());
    let det = move || format!("{} {N} rays, {how}, {b1:?} by {ep1:?} ({route})", R::NAME);
    r.sample(&det);
    let w = convert(g, r, &ep, &e, &b, &rays, &dc, dd, &det);
    let want: Rays = rays.iter().map(|(c, d)| (e.to_world(*c), mtv(&e.r, *d))).collect();
    let wc: Vec<f64> = rays.iter().zip(&dc).map(|((c, _), t)| e.tol_world(*c, R::EPS) + t).collect();
    parts(r, &w, &want, &wc, K * R::EPS + dd, &det);
    let (d0, d1) = (rows(&b.directions()), rows(&w.directions()));
    for i in 0..N {
        r.check("directions keep their length", (norm(d0[i]) - norm(d1[i])).a(), K * R::EPS * n(d0[i]), &det);
    }
}
fn dynamic<R: Sc, B: Kind<R>>(g: &mut Rng, r: &mut Rec) {
    let (ep, e, route) = ext::<R>(g);
    let k = match g.below(4) {
        0 => g.below(2),
        1 => g.below(5),
        2 if g.one_in(400) => g.below(3000),
        2 if g.one_in(40) => g.below(400),
        2 if g.one_in(40) => g.size_word(5000).unwrap_or(1),
        _ => g.below(40),
    };
    let data: Vec<[R; 3]> = (0..k).map(|_| bundle_row(g)).collect();
    let m = Matrix::<R, Dyn, U3, _>::from_fn_generic(Dyn(k), U3, |i, j| data[i][j]);
    let (b, rays, dc, dd, how) = source::<R, B, Dyn>(g, &m, &data);
    let id = data.first().copied().unwrap_or([R::f(k as f64); 3]);
    r.input(key(&[id[0], id[1], id[2], ep.camcenter()[0]]), k > 0 && n(e.c) > 0.0);
    r.class(if k == 0 { "no rays" } else { "dynamic size" });
    r.class(how);
    let (b1, ep1) = (b.clone(), ep.clone());
    let det = move || format!("{} {k} rays (dynamic), {how}, {b1:?} by {ep1:?} ({route})", R::NAME);
    convert(g, r, &ep, &e, &b, &rays, &dc, dd, &det);
}
fn any<R: Sc>(g: &mut Rng, r: &mut Rec) {
    type O<R> = SharedOriginRayBundle<R>;
    type P<R> = SharedDirectionRayBundle<R>;
    match g.below(10) {
        0 => fixed::<R, O<R>, 1>(g, r),
        1 => fixed::<R, P<R>, 1>(g, r),
        2 => fixed::<R, O<R>, 2>(g, r),
        3 => fixed::<R, P<R>, 2>(g, r),
        4 => fixed::<R, O<R>, 3>(g, r),
        5 => fixed::<R, P<R>, 3>(g, r),
        6 => fixed::<R, O<R>, 6>(g, r),
        7 => fixed::<R, P<R>, 6>(g, r),
        8 => dynamic::<R, O<R>>(g, r),
        _ => dynamic::<R, P<R>>(g, r),
    }
}
fn main() {
    mon::main(Spec {
        id: "C12",
        families: families! { "bundle", any, 1 },
        quick: 2_500_000,
        rule: "a case is a pose and a camera-frame bundle of 0-40 rays (at times up to 3000) of either kind, raw or with a general centre or direction, converted to the world frame, and two signed distances; non-trivial if the camera is not at the origin; distinct by the bits of a ray and the centre",
        min_distinct: 100_000,
        assumptions: &["directions have moderate, non-zero length"],
    })
}
