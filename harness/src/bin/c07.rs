//! C07: a camera built from a view looks where it was told to.
use monitors::prelude::*;

fn look<R: Sc>(g: &mut Rng, r: &mut Rec) {
    // the roll is ill-conditioned where up is nearly along the viewing direction
    let min_sin = if R::EPS > 1e-10 { 1e-2 } else { 1e-4 };
    let w = view::<R>(g, min_sin);
    let eps = R::EPS;
    let ep = ExtrinsicParameters::from_view(&vr(w.c), &vr(w.at), &w.up);
    let u = |p: Unit<Vector3<R>>| -> V3 { [p[0].d(), p[1].d(), p[2].d()] };
    let det = || format!("{} centre {:?} at {:?} up {:?} gives {ep:?}", R::NAME, w.c, w.at, w.up);
    r.input(key(&w.at), n(dv(w.c)) > 0.0);
    r.class(if w.sin < 0.1 { "up nearly along the view" } else { "up well away from the view" });
    if dot(w.fwd, w.updir).f().abs() < 1e-12 {
        r.class("up perpendicular to the view");
    }
    if w.fwd.iter().any(|x| x.a() == 0.0) {
        r.class("view in a coordinate plane");
    }
    let c: V3 = [ep.camcenter()[0].d(), ep.camcenter()[1].d(), ep.camcenter()[2].d()];
    r.check("the centre is kept", dist(c, dv(w.c)), 4.0 * eps * n(dv(w.c)), det);
    // forward does not depend on up
    let tf = K * eps / w.sin;
    let tf0 = 4.0 * K * eps;
    r.check("forward is the direction of view", angle(u(ep.forward()), w.fwd), tf0.max(tf.min(tf0)), det);
    let right = unit(cross(w.fwd, w.updir));
    let up = cross(right, w.fwd);
    r.check("up", angle(u(ep.up()), up), tf, det);
    r.check("right", angle(u(ep.right()), right), tf, det);
    r.check("up is in the plane of forward and up", dot(unit(cross(u(ep.forward()), w.updir)), u(ep.up())).a(), 2.0 * tf, det);
    r.ensure("up is on the side of up", dot(u(ep.up()), w.updir).hi > 0.0, det);
    // the look-at point is on the +Z axis at its distance
    let p = placed!(g, 3, w.at, m => ep.world_to_camera(&Points::new(m)).data);
    let t = 4.0 * K * eps * (n(dv(w.at)) + n(dv(w.c)) + w.dist.f());
    r.check("the look-at point is straight ahead", n([p[0], p[1], p[2] - w.dist]), t, || {
        format!("camera coordinates {p:?} distance {:?}; {}", w.dist, det())
    });
    // a point above the centre appears above: smaller v, same u
    let h = w.dist.f() * g.log(-2.0, 0.0);
    let a: [R; 3] = R::v(add(dv(w.at), scale(D::new(h), w.updir)));
    let q = placed!(g, 3, a, m => ep.world_to_camera(&Points::new(m)).data);
    let off = sub(dv(a), dv(w.at));
    let ta = tf * n(off) + K * eps * (n(dv(a)) + n(dv(w.c)));
    let want = [D::ZERO, -dot(off, up), dot(off, w.fwd) + w.dist];
    let lean = dot(off, right);
    r.check("a point above appears above", n([q[0] - lean, q[1] - want[1], D::ZERO]), ta + 2.0 * t, || {
        format!("camera coordinates {q:?} expected {want:?}; {}", det())
    });
    r.sample(det);
}
fn main() {
    mon::main(Spec {
        id: "C07",
        families: families! { "look", look, 1 },
        quick: 8_000_000,
        rule: "a case is a centre, a look-at point and an up vector at an angle of at least 1e-4 (f64, 80-bit) or 1e-2 (f32) to the viewing direction, often along axes and in coordinate planes; non-trivial if the centre is not the origin; distinct by the bits of the look-at point",
        min_distinct: 100_000,
        assumptions: &["up is a unit vector to rounding", "magnitudes neither overflow nor underflow when squared"],
    })
}
