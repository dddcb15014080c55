//! C03: orthographic projection is the scaled parallel projection.
use monitors::prelude::*;

fn world<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = ocam::<R>(g);
    r.class(route);
    for _ in 0..4 {
        let x: [R; 3] = world_point(g, &e, false);
        let xd = dv(x);
        let c = e.to_cam(xd);
        let got = placed!(g, 3, x, m => cam.world_to_pixel(&Points::new(m)).data);
        judge::<R>(r, "pixel of a world point", &p, c, e.tol_cam(xd, R::EPS), got, key(&x), || {
            format!("{} cam {cam:?} ({route}) point {x:?} camera frame {c:?} got {got:?}", R::NAME)
        });
        // moving the point along the viewing direction does not move the pixel
        let s = g.sign() * g.len(-2.0, 3.0);
        let y: [R; 3] = R::v(add(xd, scale(D::new(s), e.fwd())));
        let got2 = placed!(g, 3, y, m => cam.world_to_pixel(&Points::new(m)).data);
        let yd = dv(y);
        let moved = n(cross(sub(yd, xd), e.fwd()));
        let ta = p.tol(c, e.tol_cam(xd, R::EPS), R::EPS);
        let tb = p.tol(e.to_cam(yd), moved + e.tol_cam(yd, R::EPS), R::EPS);
        for i in 0..2 {
            r.check("depth does not change the pixel", (got2[i] - got[i]).a(), ta[i] + tb[i], || {
                format!("{} cam {cam:?} points {x:?} {y:?} pixels {got:?} {got2:?}", R::NAME)
            });
        }
    }
}
fn camera<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let pp = ortho_params::<R>(g);
    let p = ortho_of(&pp);
    let i = IntrinsicParametersOrthographic::from(pp);
    for _ in 0..4 {
        let x: [R; 3] = R::v(cam_point(g, false));
        let c = dv(x);
        let got = placed!(g, 3, x, m => i.camera_to_pixel(&Points::new(m)).data);
        judge::<R>(r, "pixel of a camera point", &p, c, 0.0, got, key(&x), || {
            format!("{} intrinsics {i:?} point {x:?} got {got:?}", R::NAME)
        });
    }
}
fn judge<R: Sc>(r: &mut Rec, name: &'static str, p: &Orth, c: V3, delta: f64, got: [D; 2], k: u64, detail: impl Fn() -> String) {
    let want = p.pix(c);
    r.class(if c[2].hi < 0.0 { "behind the camera" } else { "in front" });
    r.input(k, c[0].a() > 0.0 && c[1].a() > 0.0 && c[2].a() > 0.0);
    let t = p.tol(c, delta, R::EPS);
    let d = || format!("expected {want:?}; {}", detail());
    r.check(name, (got[0] - want[0]).a(), t[0], d);
    r.check(name, (got[1] - want[1]).a(), t[1], d);
    r.sample(d);
}
fn main() {
    mon::main(Spec {
        id: "C03",
        families: families! { "world", world, 2; "camera", camera, 1 },
        quick: 6_000_000,
        rule: "a case is a camera built by a random route and 4 points, in f64, f32 or an 80-bit type; a point is non-trivial if all its camera coordinates are nonzero; distinct by the bits of the point",
        min_distinct: 100_000,
        assumptions: &[
            "the rotation is a unit quaternion to rounding",
            "magnitudes are such that squares and products of a few numbers neither overflow nor underflow",
        ],
    })
}
