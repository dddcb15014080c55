//! C02: perspective back-projection inverts projection.
use monitors::prelude::*;

/// Rays of a pixel.
fn rays<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = pcam::<R>(g);
    let eps = R::EPS;
    r.class(route);
    for _ in 0..3 {
        let uv: [R; 2] = pixel(g, [p.cx, p.cy], [p.fx, p.fy]);
        let uvd = dd2(uv);
        let d = p.dir(uvd);
        let world_dir = unit(mtv(&e.r, d));
        let ang = p.tol_dir(uvd, [0.0; 2], eps) / n(d) + K * eps;
        r.input(key(&uv), p.sk.a() > 0.0 && d[1].a() > 0.0 && n(e.c) > 0.0);
        let ray = cam.pixel_to_world(&px(uv));
        let det = |what: &str, got: &V3| {
            format!("{} {what} cam {cam:?} ({route}) pixel {uv:?} direction {world_dir:?} centre {:?} got {got:?}", R::NAME, e.c)
        };
        let centre = placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).centers());
        r.check("ray starts at the camera centre", dist(centre, e.c), e.tol_world([D::ZERO; 3], eps), || det("centre", &centre));
        let dir = placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).directions());
        direction(r, "ray direction", dir, world_dir, e.fwd(), ang, || det("direction", &dir));
        let single = ray.to_single_ray();
        let (sc, sd) = (r3(&single.center), r3(&single.direction));
        r.check("single ray centre", dist(sc, e.c), e.tol_world([D::ZERO; 3], eps), || det("single centre", &sc));
        direction(r, "single ray direction", sd, world_dir, e.fwd(), ang, || det("single direction", &sd));

        // points at a positive distance project back to the pixel
        let s = R::of(D::new(match g.below(4) {
            0 => g.len,
            1 => g.len(-3.0, 0.0),
            _ => g.len(-1.0, 4.0),
        }));
        let q = placed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).point_on_ray_at_distance(s).data);
        let sd = s.d().f();
        let want = add(e.c, scale(s.d(), world_dir));
        let tol = sd * ang + K * eps * (n(e.c) + sd);
        r.check("point at distance", dist(q, want), tol, || det("point at distance", &q));
        back(g, r, "point at distance projects back", &cam, &e, &p, uvd, q, tol, || det("reprojected from distance", &q));

        let q = placed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).point_on_ray().data);
        let rel = sub(q, e.c);
        let tol = n(rel) * ang + K * eps * (n(e.c) + n(q));
        r.check("point on ray", n(cross(rel, world_dir)), tol, || det("point on ray", &q));
        if n(rel) > 4.0 * tol {
            r.ensure("point on ray is on the positive side", dot(rel, world_dir).hi > 0.0, || det("point on ray", &q));
            back(g, r, "point on ray projects back", &cam, &e, &p, uvd, q, tol, || det("reprojected from ray", &q));
        } else {
            r.inconclusive("point on ray projects back");
        }
        r.sample(|| det("sample direction", &dir));
    }
}
fn direction(r: &mut Rec, name: &'static str, got: V3, want: V3, fwd: V3, tol: f64, det: impl Fn() -> String) {
    if !(tol < 1e-2) {
        return r.inconclusive(name);
    }
    r.check(name, angle(got, want), tol, &det);
    if dot(want, fwd).f() > 2.0 * tol {
        r.ensure("ray points in front of the camera", dot(got, fwd).hi > 0.0, det);
    }
}
/// The point q, which is within tol of the ray of the pixel uv, projects back to uv.
fn back<R: Sc>(
    g: &mut Rng, r: &mut Rec, name: &'static str, cam: &PCam<R>, e: &Ext, p: &Persp, uv: [D; 2], qd: V3, tol: f64,
    det: impl Fn() -> String,
) {
    let c = e.to_cam(qd);
    let got = placed!(g, 3, R::v(qd), m => cam.world_to_pixel(&Points::new(m)).data);
    match p.tol(c, tol + e.tol_cam(qd, R::EPS), R::EPS) {
        None => r.inconclusive(name),
        Some(t) => {
            for i in 0..2 {
                r.check(name, (got[i] - uv[i]).a(), t[i] + K * R::EPS * uv[i].a(), || format!("pixel {got:?}; {}", det()));
            }
        }
    }
}
/// The ray of a visible point's pixel passes through the point.
fn visible<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = pcam::<R>(g);
    let eps = R::EPS;
    for _ in 0..3 {
        let x: [R; 3] = world_point(g, &e, true);
        let xd = dv(x);
        let c = e.to_cam(xd);
        r.input(key(&x), p.sk.a() > 0.0 && c[0].a() > 0.0 && c[1].a() > 0.0);
        let name = "ray of the pixel passes through the point";
        let Some(t) = p.tol(c, e.tol_cam(xd, eps), eps) else {
            r.inconclusive(name);
            continue;
        };
        if c[2].hi <= 0.0 {
            r.inconclusive(name);
            continue;
        }
        let uvd: [D; 2] = placed!(g, 3, x, m => cam.world_to_pixel(&Points::new(m)).data);
        let uv = uvd.map(R::of);
        let (o, d) = if g.one_in(2) {
            let ray = cam.pixel_to_world(&px(uv)).to_single_ray();
            (r3(&ray.center), r3(&ray.direction))
        } else {
            let o = placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).centers());
            (o, placed_fixed!(g, 2, uv, m => cam.pixel_to_world(&Pixels::new(m)).directions()))
        };
        let z = c[2].f();
        let ed = p.tol_dir(uvd, t, eps);
        let tol = z * ed + K * eps * (n(c) + n(e.c)) + e.tol_cam(xd, eps);
        if !(ed < 1e-2 * n(p.dir(uvd))) {
            r.inconclusive(name);
            continue;
        }
        let det = || format!("{} cam {cam:?} ({route}) point {x:?} pixel {uvd:?} ray {o:?} {d:?}", R::NAME);
        r.check(name, line_dist(xd, o, d), tol, det);
        if dot(unit(c), unit(p.dir(uvd))).f() > 0.5 && n(c) > 8.0 * tol {
            r.ensure("the point is on the positive side of its ray", dot(sub(xd, o), d).hi > 0.0, det);
        }
        r.sample(det);
    }
}
fn main() {
    mon::main(Spec {
        id: "C02",
        families: families! { "rays", rays, 2; "visible", visible, 1 },
        quick: 4_000_000,
        rule: "a case is a camera built by a random route with 3 pixels (their rays and points on them) or 3 visible points, in f64, f32 or an 80-bit type; non-trivial if skew is not zero and the ray is neither on the axis nor in the plane of the x axis; distinct by the bits of the pixel or point",
        min_distinct: 100_000,
        assumptions: &[
            "the rotation is a unit quaternion to rounding",
            "magnitudes are such that squares and products of a few numbers neither overflow nor underflow",
        ],
    })
}
