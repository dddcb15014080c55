//! C01: perspective projection follows the pinhole equation.
use monitors::prelude::*;

fn world<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = pcam::<R>(g);
    for _ in 0..4 {
        let x: [R; 3] = world_point(g, &e, false);
        let xd = dv(x);
        let c = e.to_cam(xd);
        let got = placed!(g, 3, x, m => cam.world_to_pixel(&Points::new(m)).data);
        judge::<R>(r, "pixel of a world point", &p, c, e.tol_cam(xd, R::EPS), got, key(&x), || {
            format!("{} cam {cam:?} ({route}) point {x:?} camera frame {c:?} got {got:?}", R::NAME)
        });
    }
    r.class(route);
    r.class(if p.fx.hi < 0.0 || p.fy.hi < 0.0 { "negative focal length" } else { "positive focal lengths" });
    if p.sk.a() > 0.1 * p.fx.a() {
        r.class("large skew");
    }
}
fn camera<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (i, p) = persp::<R>(g);
    for _ in 0..4 {
        let x: [R; 3] = R::v(cam_point(g, false));
        let c = dv(x);
        let got = placed!(g, 3, x, m => i.camera_to_pixel(&Points::new(m)).data);
        judge::<R>(r, "pixel of a camera point", &p, c, 0.0, got, key(&x), || {
            format!("{} intrinsics {i:?} point {x:?} got {got:?}", R::NAME)
        });
    }
}
fn judge<R: Sc>(r: &mut Rec, name: &'static str, p: &Persp, c: V3, delta: f64, got: [D; 2], k: u64, detail: impl Fn() -> String) {
    let want = p.pix(c);
    if c[2].a() == 0.0 {
        return r.inconclusive(name);
    }
    r.class(if c[2].hi < 0.0 { "behind the camera" } else { "in front" });
    r.input(k, p.sk.a() > 0.0 && c[0].a() > 0.0 && c[1].a() > 0.0);
    match p.tol(c, delta, R::EPS) {
        None => r.inconclusive(name),
        Some(t) => {
            let d = || format!("expected {want:?}; {}", detail());
            r.check(name, (got[0] - want[0]).a(), t[0], d);
            r.check(name, (got[1] - want[1]).a(), t[1], d);
            r.sample(d);
        }
    }
}
fn main() {
    mon::main(Spec {
        id: "C01",
        families: families! { "world", world, 2; "camera", camera, 1 },
        quick: 8_000_000,
        rule: "a case is a camera built by a random route and 4 points, in f64, f32 or an 80-bit type; a point is non-trivial if skew, x and y are all nonzero; distinct by the bits of the point",
        min_distinct: 100_000,
        assumptions: &[
            "the rotation is a unit quaternion to rounding",
            "magnitudes are such that squares and products of a few numbers neither overflow nor underflow",
        ],
    })
}
