//! C06: every view of a camera pose describes the same pose.
use monitors::prelude::*;

fn p3<R: Sc>(p: &Point3<R>) -> V3 {
    [p[0].d(), p[1].d(), p[2].d()]
}
fn u3<R: Sc>(p: &Unit<Vector3<R>>) -> V3 {
    [p[0].d(), p[1].d(), p[2].d()]
}
/// All the views of `ep` against the rigid motion `e`.
fn views<R: Sc>(r: &mut Rec, ep: &ExtrinsicParameters<R>, e: &Ext, slack: f64, det: &dyn Fn() -> String) {
    let eps = R::EPS * slack;
    let tc = K * eps * n(e.c);
    let tr = K * eps;
    let t = scale(D::new(-1.0), mv(&e.r, e.c));
    let m = |f: &dyn Fn(usize, usize) -> D| -> M3 {
        let mut a = [[D::ZERO; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                a[i][j] = f(i, j);
            }
        }
        a
    };
    let mdist = |a: &M3, b: &M3| (0..3).map(|i| dist(a[i], b[i])).fold(0.0, f64::max);
    r.check("camcenter", dist(p3(ep.camcenter()), e.c), tc, det);
    r.check("translation is -R C", dist(p3(ep.translation()), t), tc, det);
    let rot = m(&|i, j| ep.rotation().matrix()[(i, j)].d());
    r.check("rotation", mdist(&rot, &e.r), tr, det);
    let mat = m(&|i, j| ep.matrix()[(i, j)].d());
    r.check("left block of the 3x4 matrix", mdist(&mat, &e.r), tr, det);
    let mt3: V3 = [ep.matrix()[(0, 3)].d(), ep.matrix()[(1, 3)].d(), ep.matrix()[(2, 3)].d()];
    r.check("last column of the 3x4 matrix", dist(mt3, t), tc, det);
    let pose = ep.pose();
    r.check("rotation of the pose", mdist(&rot_of(&pose.rotation), &e.r), tr, det);
    let q = pose.rotation.coords;
    let qn = (q[0].d().sq() + q[1].d().sq() + q[2].d().sq() + q[3].d().sq()).f();
    r.check("the pose's quaternion is a unit quaternion", (qn - 1.0).abs(), tr + 4.0 * f64::EPSILON, det);
    let pt = pose.translation.vector;
    r.check("translation of the pose", dist([pt[0].d(), pt[1].d(), pt[2].d()], t), tc, det);
    for (name, got, want) in [
        ("forward is +Z", u3(&ep.forward()), e.r[2]),
        ("up is -Y", u3(&ep.up()), scale(D::new(-1.0), e.r[1])),
        ("right is +X", u3(&ep.right()), e.r[0]),
    ] {
        r.check(name, dist(got, want), tr, det);
    }
}
fn pose<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (mut ep, e, route) = ext::<R>(g);
    r.class(route);
    r.class(if n(e.c) == 0.0 {
        "at the origin"
    } else if n(e.c) > 1e3 {
        "far from the origin"
    } else {
        "near the origin"
    });
    r.input(key(&[ep.camcenter()[0], ep.camcenter()[1], ep.camcenter()[2], ep.pose().rotation.w]), n(e.c) > 0.0);
    let ep0 = ep.clone();
    let det = move || format!("{} {ep0:?} ({route})", R::NAME);
    views(r, &ep, &e, 1.0, &det);
    r.sample(&det);
    // rebuild from the reported views, a few times over
    let steps = 1 + g.below(4);
    for k in 0..steps {
        let via;
        ep = match g.below(4) {
            0 => {
                via = "from_pose(pose)";
                ExtrinsicParameters::from_pose(ep.pose())
            }
            1 => {
                via = "from_rotation_and_camcenter(pose.rotation, camcenter)";
                ExtrinsicParameters::from_rotation_and_camcenter(ep.pose().rotation, *ep.camcenter())
            }
            2 => {
                via = "from_pose(translation, rotation matrix)";
                let iso = Isometry3::from_parts(
                    Translation3::from(ep.translation().coords),
                    UnitQuaternion::from_rotation_matrix(ep.rotation()),
                );
                ExtrinsicParameters::from_pose(&iso)
            }
            _ => {
                via = "clone";
                ep.clone()
            }
        };
        r.class(via);
        let ep1 = ep.clone();
        let det = move || format!("{} {ep1:?} after {} rebuilds, the last by {via}", R::NAME, k + 1);
        views(r, &ep, &e, 2.0 + k as f64, &det);
    }
}
/// Distant cameras in particular.
fn far<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let q: UnitQuaternion<R> = uq(quat(g));
    let d = dir(g);
    let s = g.log(2.0, if R::EPS > 1e-10 { 8.0 } else { 15.0 });
    let c: [R; 3] = R::v(scale(D::new(s), d));
    let ep = ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(vr(c)));
    let e = Ext { r: rot_of(&q), c: dv(c) };
    r.input(key(&c), true);
    let ep0 = ep.clone();
    let det = move || format!("{} {ep0:?} distant", R::NAME);
    views(r, &ep, &e, 1.0, &det);
    r.sample(&det);
}
fn main() {
    mon::main(Spec {
        id: "C06",
        families: families! { "pose", pose, 3; "far", far, 1 },
        quick: 6_000_000,
        rule: "a case is extrinsic parameters built by a random route and rebuilt 1-4 times from their own reported views (or built once, up to 1e8 (f32) or 1e15 units away), in f64, f32 or an 80-bit type; non-trivial if the centre is not the origin; distinct by the bits of centre and quaternion",
        min_distinct: 100_000,
        assumptions: &["the rotation is a unit quaternion to rounding", "deserialized parameters are compared with their originals in C18"],
    })
}
