//! C05: world and camera frames are related by one rigid motion.
use monitors::prelude::*;

fn motion<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (ep, e, route) = ext::<R>(g);
    let eps = R::EPS;
    r.class(route);
    let mut ws = Vec::new();
    let mut cs = Vec::new();
    for _ in 0..4 {
        let x: [R; 3] = world_point(g, &e, false);
        let xd = dv(x);
        r.input(key(&x), n(e.c) > 0.0 && n(xd) > 0.0);
        let det = |got: &V3| format!("{} {ep:?} ({route}) {x:?} got {got:?}", R::NAME);
        let cd: V3 = placed!(g, 3, x, m => ep.world_to_camera(&Points::new(m)).data);
        let t = e.tol_cam(xd, eps);
        r.check("camera coordinates are R(X-C)", dist(cd, e.to_cam(xd)), t, || det(&cd));
        let bd: V3 = placed!(g, 3, R::v(cd), m => ep.camera_to_world(&Points::new(m)).data);
        r.check("world to camera to world", dist(bd, xd), t + e.tol_world(cd, eps), || det(&bd));
        ws.push((xd, t));
        cs.push((cd, t));

        let p: [R; 3] = if g.one_in(6) { [R::f(0.0); 3] } else { R::v(cam_point(g, false)) };
        let pd = dv(p);
        let wd: V3 = placed!(g, 3, p, m => ep.camera_to_world(&Points::new(m)).data);
        let t = e.tol_world(pd, eps);
        r.check("world coordinates are R'P+C", dist(wd, e.to_world(pd)), t, || det(&wd));
        let bd: V3 = placed!(g, 3, R::v(wd), m => ep.world_to_camera(&Points::new(m)).data);
        r.check("camera to world to camera", dist(bd, pd), t + e.tol_cam(wd, eps), || det(&bd));
        r.sample(|| det(&cd));
    }
    for i in 0..4 {
        for j in 0..i {
            let (a, b) = (norm(sub(ws[i].0, ws[j].0)), norm(sub(cs[i].0, cs[j].0)));
            r.check("distances are preserved", (a - b).a(), cs[i].1 + cs[j].1, || {
                format!("{} {ep:?} ({route}) {:?} {:?} distances {a:?} {b:?}", R::NAME, ws[i].0, ws[j].0)
            });
        }
    }
    // handedness, by the signed volume
    let vol = |p: &[(V3, f64)]| {
        let (a, b, c) = (sub(p[1].0, p[0].0), sub(p[2].0, p[0].0), sub(p[3].0, p[0].0));
        (dot(a, cross(b, c)).f(), n(a) * n(b) * n(c))
    };
    let ((v0, s0), (v1, _)) = (vol(&ws), vol(&cs));
    let err: f64 = {
        let t: f64 = cs.iter().map(|c| c.1).sum();
        let m = (1..4).map(|i| dist(ws[i].0, ws[0].0)).fold(0.0, f64::max);
        t * m * m * 4.0
    };
    if v0.abs() > 1e-6 * s0 && v0.abs() > 4.0 * err {
        r.ensure("handedness is preserved", v0 * v1 > 0.0, || format!("{} {ep:?} ({route}) volumes {v0:e} {v1:e}", R::NAME));
    }
    // the centre and the origin
    let cc = ep.camcenter();
    let got = r3(&ep.world_to_camera(&wpt([cc[0], cc[1], cc[2]])).data);
    r.check("centre goes to the origin", n(got), e.tol_cam(e.c, eps), || format!("{} {ep:?} ({route}) got {got:?}", R::NAME));
    let got = r3(&ep.camera_to_world(&cpt([R::f(0.0); 3])).data);
    r.check("origin goes to the centre", dist(got, e.c), e.tol_cam(e.c, eps), || format!("{} {ep:?} ({route}) got {got:?}", R::NAME));
}
fn main() {
    mon::main(Spec {
        id: "C05",
        families: families! { "motion", motion, 1 },
        quick: 3_000_000,
        rule: "a case is extrinsic parameters built by a random route with 4 world and 4 camera points, in f64, f32 or an 80-bit type; non-trivial if neither centre nor point is the origin; distinct by the bits of the point",
        min_distinct: 100_000,
        assumptions: &["the rotation is a unit quaternion to rounding", "magnitudes neither overflow nor underflow when squared"],
    })
}
