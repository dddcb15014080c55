//! C11: ray bundles answer consistently about the rays they hold.
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use nalgebra::{Const, Dyn, Matrix};

fn bits<R: Sc>(a: V3, b: V3) -> bool {
    a == b && R::NAME.len() > 0
}
/// Static size: everything there is to ask.
fn fixed<R: Sc, B: Kind<R>, F: CoordinateSystem + std::fmt::Debug + Clone + 'static, const N: usize>(g: &mut Rng, r: &mut Rec) {
    let eps = R::EPS;
    let data: [[R; 3]; N] = std::array::from_fn(|_| bundle_row(g));
    let m = SMatrix::<R, N, 3>::from_fn(|i, j| data[i][j]);
    let raw: Rays = data.iter().map(|x| B::ray(dv(*x))).collect();
    let b: OwnedBundle<F, B, R, Const<N>> = B::raw(m);
    let s: R = distance(g);
    r.input(key(&[data[0][0], data[0][1], data[0][2], s]), N > 1);
    r.class(B::KIND);
    let b0 = b.clone();
    let det = move || format!("{} {N} rays, {} {b0:?}", R::NAME, B::KIND);
    r.sample(&det);
    // raw data are kept exactly
    r.ensure("raw data are kept", b.data == m, &det);
    let (c, d) = (rows(&b.centers()), rows(&b.directions()));
    for i in 0..N {
        r.ensure("raw rays are exact", bits::<R>(c[i], raw[i].0) && bits::<R>(d[i], raw[i].1), || {
            format!("row {i}: centre {:?} direction {:?} expected {:?}; {}", c[i], d[i], raw[i], det())
        });
    }
    let z = [0.0; N];
    points_on(r, &b, &raw, s, &z, 0.0, &det);
    // the bundle type alone, on the same data
    let p = B::plain();
    let viaplain: Rays = rows(&p.centers(&m)).into_iter().zip(rows(&p.directions(&m))).collect();
    r.ensure("the bundle type holds the same rays", viaplain == raw, &det);
    // a general bundle in any frame
    let mo = motion::<R>(g);
    let b2: OwnedBundle<F, B, R, Const<N>> = p.to_pose(mo.iso, &m);
    let b3 = b2.clone();
    let det = move || format!("{} {N} rays, {} posed {b3:?}", R::NAME, B::KIND);
    let want: Rays = raw.iter().map(|x| mo.ray(*x)).collect();
    let dc: Vec<f64> = want.iter().zip(&raw).map(|(w, a)| K * eps * (n(w.0) + n(a.0) + n(mo.t))).collect();
    parts(r, &b2, &want, &dc, K * eps, &det);
    // consistency: the rays it reports itself are the reference
    let own: Rays = rows(&b2.centers()).into_iter().zip(rows(&b2.directions())).collect();
    points_on(r, &b2, &own, s, &z, 0.0, &det);
    let s2: R = distance(g);
    points_on(r, &b2, &own, s2, &z, 0.0, &det);
    // distances are signed: s and -s are on opposite sides of the centre
    let a = rows(&b2.point_on_ray_at_distance(s).data);
    let o = rows(&b2.point_on_ray_at_distance(-s).data);
    for i in 0..N {
        let mid = scale(D::new(0.5), add(a[i], o[i]));
        let t = K * eps * (n(own[i].0) + s.d().a());
        r.check("the centre is midway between distances s and -s", dist(mid, own[i].0), t, &det);
        r.check("distances s and -s are 2|s| apart", (norm(sub(a[i], o[i])) - D::new(2.0) * s.d().abs()).a(), t, &det);
    }
}
fn single<R: Sc, B: Kind<R>, F: CoordinateSystem + 'static>(g: &mut Rng, r: &mut Rec) {
    let x: [R; 3] = bundle_row(g);
    let m = row(x);
    r.input(key(&x), true);
    let b: OwnedBundle<F, B, R, U1> = B::raw(m);
    let s = b.to_single_ray();
    let got = (r3(&s.center), r3(&s.direction));
    r.ensure("single ray of raw data", got == B::ray(dv(x)), || format!("{} {x:?} gave {got:?}", B::KIND));
    let mo = motion::<R>(g);
    let b: OwnedBundle<F, B, R, U1> = B::plain().to_pose(mo.iso, &m);
    let s = b.to_single_ray();
    let got = (r3(&s.center), r3(&s.direction));
    let own = (rows(&b.centers())[0], rows(&b.directions())[0]);
    r.ensure("single ray of a posed bundle", got == own, || format!("{} {x:?} gave {got:?}, rows say {own:?}", B::KIND));
    let ray = Ray::<F, R>::new(s.center, s.direction);
    r.ensure("a ray holds what it is made from", (r3(&ray.center), r3(&ray.direction)) == got, || format!("{got:?}"));
}
/// Dynamic size.
fn dynamic<R: Sc, B: Kind<R>, F: CoordinateSystem + std::fmt::Debug + Clone + 'static>(g: &mut Rng, r: &mut Rec) {
    let eps = R::EPS;
    let k = match g.below(4) {
        0 => g.below(2),
        1 => g.below(5),
        2 if g.one_in(400) => g.below(3000),
        2 if g.one_in(40) => g.below(400),
        2 if g.one_in(40) => g.size_word(5000).unwrap_or(1),
        _ => g.below(40),
    };
    let data: Vec<[R; 3]> = (0..k).map(|_| bundle_row(g)).collect();
    let m = Matrix::<R, Dyn, U3, _>::from_fn_generic(Dyn(k), U3, |i, j| data[i][j]);
    let raw: Rays = data.iter().map(|x| B::ray(dv(*x))).collect();
    let b: OwnedBundle<F, B, R, Dyn> = B::raw(m.clone());
    let s: R = distance(g);
    let id = data.first().copied().unwrap_or([R::f(k as f64); 3]);
    r.input(key(&[id[0], id[1], id[2], s]), k > 1);
    r.class(if k == 0 { "no rays" } else { "dynamic size" });
    let b0 = b.clone();
    let det = move || format!("{} {k} rays (dynamic), {} {b0:?}", R::NAME, B::KIND);
    r.ensure("raw data are kept", b.data == m, &det);
    points_on(r, &b, &raw, s, &vec![0.0; k], 0.0, &det);
    let mo = motion::<R>(g);
    let b2: OwnedBundle<F, B, R, Dyn> = B::plain().to_pose(mo.iso, &m);
    let b3 = b2.clone();
    let det = move || format!("{} {k} rays (dynamic), {} posed {b3:?}", R::NAME, B::KIND);
    let want: Rays = raw.iter().map(|x| mo.ray(*x)).collect();
    let dc: Vec<f64> = want.iter().zip(&raw).map(|(w, a)| K * eps * (n(w.0) + n(a.0) + n(mo.t))).collect();
    points_on(r, &b2, &want, s, &dc, K * eps, &det);
}
fn any<R: Sc>(g: &mut Rng, r: &mut Rec) {
    macro_rules! go {
        ($f:ident $(, $n:literal)?) => {
            match g.below(4) {
                0 => $f::<R, SharedOriginRayBundle<R>, CameraFrame $(, $n)?>(g, r),
                1 => $f::<R, SharedDirectionRayBundle<R>, CameraFrame $(, $n)?>(g, r),
                2 => $f::<R, SharedOriginRayBundle<R>, WorldFrame $(, $n)?>(g, r),
                _ => $f::<R, SharedDirectionRayBundle<R>, WorldFrame $(, $n)?>(g, r),
            }
        };
    }
    match g.below(8) {
        0 => go!(single),
        1 => go!(fixed, 1),
        2 => go!(fixed, 2),
        3 => go!(fixed, 3),
        4 => go!(fixed, 4),
        5 => go!(fixed, 7),
        _ => go!(dynamic),
    }
}
/// Bundles as cameras return them.
fn camera<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let eps = R::EPS;
    let s: R = distance(g);
    if g.one_in(2) {
        let (cam, _, p, _) = pcam::<R>(g);
        let uv: [[R; 2]; 3] = std::array::from_fn(|_| pixel(g, [p.cx, p.cy], [p.fx, p.fy]));
        let m = SMatrix::<R, 3, 2>::from_fn(|i, j| uv[i][j]);
        r.input(key(&[uv[0][0], uv[0][1], s]), true);
        r.class("from a perspective camera");
        let det = || format!("{} {cam:?} {uv:?}", R::NAME);
        let b = cam.pixel_to_world(&Pixels::new(m));
        let own: Rays = rows(&b.centers()).into_iter().zip(rows(&b.directions())).collect();
        points_on(r, &b, &own, s, &[0.0; 3], 0.0, &det);
        let b = cam.intrinsics().pixel_to_camera(&Pixels::new(m));
        let own: Rays = rows(&b.centers()).into_iter().zip(rows(&b.directions())).collect();
        points_on(r, &b, &own, s, &[0.0; 3], 0.0, &det);
    } else {
        let (cam, _, p, _) = ocam::<R>(g);
        let uv: [[R; 2]; 3] = std::array::from_fn(|_| opixel(g, [p.cx, p.cy], [p.sx, p.sy]));
        let m = SMatrix::<R, 3, 2>::from_fn(|i, j| uv[i][j]);
        r.input(key(&[uv[0][0], uv[0][1], s]), true);
        r.class("from an orthographic camera");
        let det = || format!("{} {cam:?} {uv:?}", R::NAME);
        let b = cam.pixel_to_world(&Pixels::new(m));
        let own: Rays = rows(&b.centers()).into_iter().zip(rows(&b.directions())).collect();
        points_on(r, &b, &own, s, &[0.0; 3], 0.0, &det);
        let b = cam.intrinsics().pixel_to_camera(&Pixels::new(m));
        let own: Rays = rows(&b.centers()).into_iter().zip(rows(&b.directions())).collect();
        points_on(r, &b, &own, s, &[0.0; 3], 0.0, &det);
    }
    let _ = eps;
}
fn main() {
    mon::main(Spec {
        id: "C11",
        families: families! { "bundle", any, 3; "camera", camera, 1 },
        quick: 3_000_000,
        rule: "a case is a bundle of 0-40 rays (at times up to 3000) of either kind, in either frame, of static or dynamic size, raw, posed or returned by a camera, and signed distances; non-trivial with more than one ray or from a camera; distinct by the bits of a ray and the distance",
        min_distinct: 100_000,
        assumptions: &["directions have moderate, non-zero length"],
    })
}
