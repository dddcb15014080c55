//! C17: the linearization is the derivative of the projection.
use cam_geom::linearize::JacobianPerspectiveCache;
use monitors::prelude::*;

fn judge<R: Sc>(g: &mut Rng, r: &mut Rec, cam: &PCam<R>, e: &Ext, p: &Persp, how: &str) {
    let jac = JacobianPerspectiveCache::new(cam);
    let mut first: Option<([R; 3], SMatrix<R, 2, 3>)> = None;
    for k in 0..4 {
        let x: [R; 3] = world_point(g, e, false);
        let xd = dv(x);
        // the point in memory of its own, or a row of a larger matrix
        let got = match g.below(4) {
            0 => {
                let mut big = SMatrix::<R, 4, 5>::from_element(R::f(f64::NAN));
                for j in 0..3 {
                    big[(2, 1 + j)] = x[j];
                }
                jac.linearize_at(&Points::new(big.fixed_view::<1, 3>(2, 1)))
            }
            _ => jac.linearize_at(&wpt(x)),
        };
        if k == 0 {
            first = Some((x, got));
            r.input(key(&[x[0], x[1], x[2], cam.intrinsics().fx()]), true);
        }
        let det = || format!("{} {cam:?} ({how}) at {x:?}", R::NAME);
        r.sample(det);
        let (want, tol) = derivative(e, p, xd, R::EPS);
        let Some(tol) = tol else {
            r.inconclusive("linearization");
            continue;
        };
        r.class(if e.to_cam(xd)[2].hi < 0.0 { "behind the camera" } else { "in front of the camera" });
        for i in 0..2 {
            let row: V3 = [got[(i, 0)].d(), got[(i, 1)].d(), got[(i, 2)].d()];
            r.check("linearization", dist(row, want[i]), tol[i], || format!("row {i} {row:?} expected {:?}; {}", want[i], det()));
        }
    }
    // the object is reusable
    if let Some((x, j)) = first {
        let again = jac.linearize_at(&wpt(x));
        let same = (0..6).all(|i| again[i].key() == j[i].key());
        r.ensure("the same point gives the same linearization", same, || format!("{} {cam:?} at {x:?}: {j:?} then {again:?}", R::NAME));
    }
}
fn any<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = pcam::<R>(g);
    r.class(route);
    judge(g, r, &cam, &e, &p, route);
}
/// At or level with the world origin.
fn level<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let q = quat(g);
    let u: UnitQuaternion<R> = uq(q);
    let m = rot_of(&u);
    let k = g.below(4);
    let a = g.range(-10.0, 10.0) * g.len;
    let b = g.range(-10.0, 10.0) * g.len;
    let z = if k == 3 { g.len(-12.0, -3.0) } else { 0.0 };
    let c: [R; 3] = if k == 0 { [R::f(0.0); 3] } else { R::v(mtv(&m, [D::new(a), D::new(b), D::new(z)])) };
    let how = ["at the origin", "level with the origin", "level with the origin", "nearly level"][k];
    r.class(how);
    let ep = ExtrinsicParameters::from_rotation_and_camcenter(u, Point3::from(vr(c)));
    let (i, p) = persp::<R>(g);
    judge(g, r, &Camera::new(i, ep), &Ext { r: m, c: dv(c) }, &p, how);
}
/// Axis-aligned cameras looking exactly level.
fn aligned<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let mut a = [0.0f64; 4];
    if g.one_in(2) {
        a[g.below(4)] = g.sign();
    } else {
        a = [0.5 * g.sign(), 0.5 * g.sign(), 0.5 * g.sign(), 0.5 * g.sign()];
    }
    let u: UnitQuaternion<R> = uq(v4(a));
    let m = rot_of(&u);
    let mut c = [R::f(0.0); 3];
    for x in &mut c {
        if g.one_in(2) {
            *x = R::f(g.sign() * g.below(10) as f64 * g.len);
        }
    }
    r.class("axis-aligned");
    let ep = ExtrinsicParameters::from_rotation_and_camcenter(u, Point3::from(vr(c)));
    let (i, p) = persp::<R>(g);
    judge(g, r, &Camera::new(i, ep), &Ext { r: m, c: dv(c) }, &p, "axis-aligned");
}
fn main() {
    mon::main(Spec {
        id: "C17",
        families: families! { "camera", any, 3; "level", level, 1; "aligned", aligned, 1 },
        quick: 8_000_000,
        rule: "a case is a perspective camera (any pose, at or level with the world origin, or axis-aligned) and one linearization object evaluated at four points on either side of it, the first of them twice; every case is non-trivial; distinct by the bits of a point and a focal length",
        min_distinct: 100_000,
        assumptions: &["the point is further from the focal plane than 1000 times the rounding error of its camera coordinates"],
    })
}
