//! C04: orthographic back-projection inverts projection.
use monitors::prelude::*;

fn rays<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = ocam::<R>(g);
    let eps = R::EPS;
    r.class(route);
    for _ in 0..3 {
        let uv: [R; 2] = opixel(g, [p.cx, p.cy], [p.sx, p.sy]);
        let uvd = dd2(uv);
        let o = p.org(uvd);
        let want_o = e.to_world(o);
        let tol_o = p.tol_org(uvd, [0.0; 2], eps) + e.tol_world(o, eps);
        r.input(key(&uv), o[0].a() > 0.0 && o[1].a() > 0.0 && n(e.c) > 0.0);
        let ray = cam.pixel_to_world(&px(uv));
        let det = |what: &str, got: &V3| {
            format!("{} {what} cam {cam:?} ({route}) pixel {uv:?} origin {want_o:?} got {got:?}", R::NAME)
        };
        let c = placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).centers());
        let d = placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).directions());
        r.check("ray origin", dist(c, want_o), tol_o, || det("origin", &c));
        r.check("ray direction is the viewing direction", angle(d, e.fwd()), K * eps, || det("direction", &d));
        let single = ray.to_single_ray();
        let (c, d) = (r3(&single.center), r3(&single.direction));
        r.check("single ray origin", dist(c, want_o), tol_o, || det("single origin", &c));
        r.check("single ray direction is the viewing direction", angle(d, e.fwd()), K * eps, || det("single direction", &d));

        let s = R::of(D::new(match g.below(4) {
            0 => 0.0,
            1 => g.sign() * g.len,
            _ => g.sign() * g.len(-3.0, 3.0),
        }));
        let q = placed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).point_on_ray_at_distance(s).data);
        let want = add(want_o, scale(s.d(), e.fwd()));
        let tol = tol_o + K * eps * (n(want_o) + s.d().a());
        r.check("point at signed distance", dist(q, want), tol, || det("point at distance", &q));
        back(g, r, &cam, &e, &p, uvd, q, tol, || det("reprojected from distance", &q));
        let q = placed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).point_on_ray().data);
        let rel = sub(q, want_o);
        let tol = tol_o + K * eps * (n(want_o) + n(rel));
        r.check("point on ray", n(cross(rel, e.fwd())), tol, || det("point on ray", &q));
        back(g, r, &cam, &e, &p, uvd, q, tol, || det("reprojected from ray", &q));
        r.sample(|| det("sample direction", &d));
    }
}
#[allow(clippy::too_many_arguments)]
fn back<R: Sc>(g: &mut Rng, r: &mut Rec, cam: &OCam<R>, e: &Ext, p: &Orth, uv: [D; 2], qd: V3, tol: f64, det: impl Fn() -> String) {
    let got = placed!(g, 3, R::v(qd), m => cam.world_to_pixel(&Points::new(m)).data);
    let t = p.tol(e.to_cam(qd), tol + e.tol_cam(qd, R::EPS), R::EPS);
    for i in 0..2 {
        r.check("point on ray projects back", (got[i] - uv[i]).a(), t[i] + K * R::EPS * uv[i].a(), || format!("pixel {got:?}; {}", det()));
    }
}
fn points<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = ocam::<R>(g);
    let eps = R::EPS;
    for _ in 0..3 {
        let x: [R; 3] = world_point(g, &e, false);
        let xd = dv(x);
        let c = e.to_cam(xd);
        r.input(key(&x), c[0].a() > 0.0 && c[1].a() > 0.0 && c[2].a() > 0.0);
        let t = p.tol(c, e.tol_cam(xd, eps), eps);
        let uvd: [D; 2] = placed!(g, 3, x, m => cam.world_to_pixel(&Points::new(m)).data);
        let uv = uvd.map(R::of);
        let (o, d) = if g.one_in(2) {
            let ray = cam.pixel_to_world(&px(uv)).to_single_ray();
            (r3(&ray.center), r3(&ray.direction))
        } else {
            let o = placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).centers());
            (o, placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).directions()))
        };
        let org = p.org(uvd);
        let tol = p.tol_org(uvd, t, eps) + e.tol_world(org, eps) + e.tol_cam(xd, eps) + K * eps * c[2].a();
        let det = || format!("{} cam {cam:?} ({route}) point {x:?} pixel {uvd:?} ray {o:?} {d:?}", R::NAME);
        r.check("ray of the pixel passes through the point", line_dist(xd, o, d), tol, det);
        r.sample(det);
    }
}
fn main() {
    mon::main(Spec {
        id: "C04",
        families: families! { "rays", rays, 2; "points", points, 1 },
        quick: 4_000_000,
        rule: "a case is a camera built by a random route with 3 pixels (their rays and points on them) or 3 points, in f64, f32 or an 80-bit type; non-trivial if off the image axes; distinct by the bits of the pixel or point",
        min_distinct: 100_000,
        assumptions: &[
            "the rotation is a unit quaternion to rounding",
            "magnitudes are such that squares and products of a few numbers neither overflow nor underflow",
        ],
    })
}
