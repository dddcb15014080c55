//! C24: results carry the precision of the scalar type they are computed with.
//!
//! The same numbers, exact in f32, are given to the crate in f32, f64 and an 80-bit type; each result is
//! compared with the exact one at the precision of its type, and the narrow ones with the wide one.
use cam_geom::linearize::JacobianPerspectiveCache;
use monitors::pmat::Pm;
use monitors::prelude::*;
use monitors::rays::{exact, intersect, RR};

/// Numbers exact in f32.
#[derive(Debug, Clone)]
struct Raw {
    q: [f32; 4],
    c: [f32; 3],
    route: usize,
    at: [f32; 3],
    up: [f32; 3],
    f: [f32; 5],
    s: [f32; 4],
    x: [f32; 3],
    uv: [f32; 2],
    m: [[f32; 4]; 3],
    dist: f32,
    rays: Vec<RR<f32>>,
    /// Decides where in batches the point and the pixel are.
    place: u64,
}
fn up<R: Sc, const N: usize>(x: [f32; N]) -> [R; N] {
    x.map(|x| R::of(x.d()))
}
/// A result: name, values, and the index of its bounds.
type Out = Vec<(&'static str, Vec<D>)>;

struct Cams<R: Sc> {
    p: PCam<R>,
    o: OCam<R>,
}
fn cams<R: Sc>(w: &Raw) -> Cams<R> {
    let q: [R; 4] = up(w.q);
    let q = UnitQuaternion::new_normalize(Quaternion::new(q[0], q[1], q[2], q[3]));
    let c = vr(up::<R, 3>(w.c));
    let e = match w.route {
        0 => ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(c)),
        1 => ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(c), q)),
        _ => ExtrinsicParameters::from_view(&c, &vr(up(w.at)), &Unit::new_normalize(vr(up(w.up)))),
    };
    let f: [R; 5] = up(w.f);
    let s: [R; 4] = up(w.s);
    Cams {
        p: Camera::new(PerspectiveParams { fx: f[0], fy: f[1], skew: f[2], cx: f[3], cy: f[4] }.into(), e.clone()),
        o: Camera::new(OrthographicParams { sx: s[0], sy: s[1], cx: s[2], cy: s[3] }.into(), e),
    }
}
fn ds<'a, R: Sc>(m: impl IntoIterator<Item = &'a R>) -> Vec<D> {
    m.into_iter().map(|x| x.d()).collect()
}
fn run<R: Sc>(w: &Raw) -> Out {
    let z = cams::<R>(w);
    let e = z.p.extrinsics();
    let x = up::<R, 3>(w.x);
    let uv = up::<R, 2>(w.uv);
    let s = R::of(w.dist.d());
    let cam = z.p.as_camera_matrix();
    let m = SMatrix::<R, 3, 4>::from_fn(|i, j| R::of(w.m[i][j].d()));
    let mut gp = Rng::new(w.place);
    let g = &mut gp;
    let mut out: Out = vec![
        ("forward", ds(e.forward().iter())),
        ("up", ds(e.up().iter())),
        ("right", ds(e.right().iter())),
        ("camcenter", ds(e.camcenter().iter())),
        ("world_to_camera", placed!(g, 3, x, m => e.world_to_camera(&Points::new(m)).data).to_vec()),
        ("camera_to_world", placed!(g, 3, x, m => e.camera_to_world(&Points::new(m)).data).to_vec()),
        ("perspective world_to_pixel", placed!(g, 3, x, m => z.p.world_to_pixel(&Points::new(m)).data).to_vec()),
        ("orthographic world_to_pixel", placed!(g, 3, x, m => z.o.world_to_pixel(&Points::new(m)).data).to_vec()),
        ("perspective ray at distance", placed!(g, 2, uv, m => z.p.pixel_to_world(&Pixels::new(m)).point_on_ray_at_distance(s).data).to_vec()),
        ("orthographic ray at distance", placed!(g, 2, uv, m => z.o.pixel_to_world(&Pixels::new(m)).point_on_ray_at_distance(s).data).to_vec()),
        ("linearize_at", ds(&JacobianPerspectiveCache::new(&z.p).linearize_at(&wpt(x)))),
        ("projection by as_camera_matrix", {
            let h = Pm::new(&cam).hom(dv(x));
            vec![h[0] / h[2], h[1] / h[2]]
        }),
        ("perspective direction", {
            let d: V3 = placed_fixed!(g, 2, uv, m => z.p.intrinsics().pixel_to_camera(&Pixels::new(m)).directions());
            vec![d[0] / d[2], d[1] / d[2]]
        }),
    ];
    let c = PCam::<R>::from_perspective_matrix(&m);
    out.push(("projection by from_perspective_matrix", match c {
        Ok(c) => ds(&c.world_to_pixel(&wpt(x)).data),
        Err(_) => vec![],
    }));
    let rays: Vec<RR<R>> = w.rays.iter().map(|r| RR { c: up(r.c), d: up(r.d) }).collect();
    out.push(("best_intersection_of_rays", intersect::<R, WorldFrame>(&rays).map(|x| x.to_vec()).unwrap_or_default()));
    out
}
/// Exact results, and bounds for a precision.
struct Model {
    want: Vec<Vec<D>>,
    e: Ext,
    p: Persp,
    o: Orth,
    sin: f64,
    ctol: f64,
    pm: Pm,
    lsq: Lsq,
}
fn model(w: &Raw) -> Model {
    let c = dv(w.c);
    let r = rotm(qnorm(w.q.map(|x| x.d())));
    let mut sin = 1.0;
    let mut ctol = 0.0;
    let e = match w.route {
        0 => Ext { r, c },
        1 => {
            ctol = n(c);
            Ext { r, c: scale(D::new(-1.0), mtv(&r, c)) }
        }
        _ => {
            let fwd = unit(sub(dv(w.at), c));
            let up = unit(dv(w.up));
            sin = n(cross(fwd, up));
            let right = unit(cross(fwd, up));
            Ext { r: [right, cross(fwd, right), fwd], c }
        }
    };
    let f = w.f.map(|x| x.d());
    let p = Persp { fx: f[0], fy: f[1], sk: f[2], cx: f[3], cy: f[4] };
    let s = w.s.map(|x| x.d());
    let o = Orth { sx: s[0], sy: s[1], cx: s[2], cy: s[3] };
    let x = dv(w.x);
    let uv = dd2(w.uv);
    let l = w.dist.d();
    let pm = Pm::new(&SMatrix::<f32, 3, 4>::from_fn(|i, j| w.m[i][j]));
    let h = pm.hom(x);
    let d = p.dir(uv);
    let rays = exact(&w.rays);
    let lsq = monitors::model::lsq(&rays);
    let pix = p.pix(e.to_cam(x)).to_vec();
    let neg = |x: V3| scale(D::new(-1.0), x).to_vec();
    let want = vec![
        e.r[2].to_vec(),
        neg(e.r[1]),
        e.r[0].to_vec(),
        e.c.to_vec(),
        e.to_cam(x).to_vec(),
        e.to_world(x).to_vec(),
        pix.clone(),
        o.pix(e.to_cam(x)).to_vec(),
        add(e.c, scale(l, unit(mtv(&e.r, d)))).to_vec(),
        add(e.to_world(o.org(uv)), scale(l, e.fwd())).to_vec(),
        {
            let (j, _) = derivative(&e, &p, x, f64::EPSILON);
            // column by column
            (0..3).flat_map(|c| [j[0][c], j[1][c]]).collect()
        },
        pix,
        d[..2].to_vec(),
        vec![h[0] / h[2], h[1] / h[2]],
        lsq.x.to_vec(),
    ];
    Model { want, e, p, o, sin, ctol, pm, lsq }
}
impl Model {
    /// Bounds per result at precision eps.
    fn tols(&self, w: &Raw, eps: f64) -> Vec<Option<f64>> {
        let h = |t: [f64; 2]| t[0].hypot(t[1]);
        let (e, p, o) = (&self.e, &self.p, &self.o);
        let x = dv(w.x);
        let uv = dd2(w.uv);
        // a rotation known less well than to rounding
        let a = (K * eps / self.sin).min(0.5);
        let dc = K * eps * self.ctol;
        let cam = e.to_cam(x);
        let tc = e.tol_cam(x, eps) + a * n(cam) + dc;
        let tw = e.tol_world(x, eps) + a * n(x) + dc;
        let td = p.tol_dir(uv, [0.0; 2], eps) / n(p.dir(uv)) + a;
        let s = w.dist.d().a();
        let tp = p.tol(cam, tc, eps).map(h);
        let j = derivative(e, p, x, eps / self.sin * (1.0 + 1e-300)).1.map(|t| 2.0 * h(t));
        let j = if self.ctol > 0.0 { derivative(e, p, x, 2.0 * eps).1.map(|t| 2.0 * h(t)) } else { j };
        let org = o.tol_org(uv, [0.0; 2], eps);
        vec![
            Some(a),
            Some(a),
            Some(a),
            Some(K * eps * n(e.c) + dc),
            Some(tc),
            Some(tw),
            tp,
            Some(h(o.tol(cam, tc, eps))),
            Some(K * eps * n(e.c) + dc + 2.0 * (td + K * eps) * s),
            Some(org + K * eps * (n(e.c) + n(o.org(uv)) + s) + dc + a * (n(o.org(uv)) + s)),
            j,
            tp.map(|t| 2.0 * t),
            Some(p.tol_dir(uv, [0.0; 2], eps)),
            if self.pm.relcond() * eps * K < 1e-2 { self.pm.tol(x, self.pm.tol_c(eps), eps).map(h) } else { None },
            Some(lsq_tol(&self.lsq, &exact(&w.rays), eps.max(f64::EPSILON))),
        ]
    }
}
fn raw(g: &mut Rng) -> Raw {
    loop {
        let q = uq::<f32>(quat(g));
        // a quaternion that needs normalizing, more or less
        let k = if g.one_in(2) { 1.0 } else { g.range(0.5, 2.0) as f32 };
        let v = view::<f32>(g, 0.1);
        let route = g.below(3);
        let c: [f32; 3] = if route == 2 { v.c } else { vec3(g, 1.5) };
        let f = persp_params::<f32>(g);
        let s = ortho_params::<f32>(g);
        let (m, _) = monitors::pmat::matrix::<f32>(g);
        let n = 2 + g.below(6);
        let meet: [f32; 3] = vec3(g, 1.0);
        let rays = (0..n)
            .map(|_| {
                let c: [f32; 3] = vec3(g, 1.5);
                let d = if g.one_in(4) { dir(g) } else { sub(dv(meet), dv(c)) };
                RR { c, d: f32::v(d) }
            })
            .collect::<Vec<RR<f32>>>();
        if rays.iter().any(|r| monitors::dd::n(dv(r.d)) < 1e-3) || monitors::rays::spread(&exact(&rays)) < 0.02 {
            continue;
        }
        let mut w = Raw {
            q: [q.w * k, q.i * k, q.j * k, q.k * k],
            c,
            route,
            at: v.at,
            up: [v.up.x, v.up.y, v.up.z],
            f: [f.fx, f.fy, f.skew, f.cx, f.cy],
            s: [s.sx, s.sy, s.cx, s.cy],
            x: vec3(g, 1.5),
            uv: [0.0; 2],
            m: [0, 1, 2].map(|i| [0, 1, 2, 3].map(|j| m[(i, j)])),
            dist: distance32(g),
            rays,
            place: g.u64(),
        };
        let e = model(&w);
        if g.one_in(2) {
            w.x = world_point(g, &e.e, false);
        }
        w.uv = pixel(g, [e.p.cx, e.p.cy], [e.p.fx, e.p.fy]);
        return w;
    }
}
fn distance32(g: &mut Rng) -> f32 {
    monitors::bundles::distance(g)
}
fn precise(g: &mut Rng, r: &mut Rec) {
    let w = raw(g);
    r.input(key(&[w.q[0], w.c[0], w.x[0], w.x[1], w.f[0]]), true);
    r.class(["from_rotation_and_camcenter", "from_pose", "from_view"][w.route]);
    let m = model(&w);
    let outs = [("f32", f32::EPS, run::<f32>(&w)), ("f64", f64::EPS, run::<f64>(&w)), ("80-bit", W::EPS, run::<W>(&w))];
    let tols: Vec<Vec<Option<f64>>> = outs.iter().map(|o| m.tols(&w, o.1)).collect();
    let vdist = |a: &[D], b: &[D]| -> f64 {
        if a.len() != b.len() {
            return f64::NAN;
        }
        a.iter().zip(b).map(|(x, y)| (*x - *y).a().powi(2)).sum::<f64>().sqrt()
    };
    const NAMES: [&str; 3] = ["exact to the precision of f32", "exact to the precision of f64", "exact to the precision of the 80-bit type"];
    for (k, (ty, _, out)) in outs.iter().enumerate() {
        for (i, (name, got)) in out.iter().enumerate() {
            let det = || format!("{name} in {ty} gave {got:?}, exactly {:?}; {w:?}", m.want[i]);
            match tols[k][i] {
                Some(t) if t.is_finite() => {
                    r.check(NAMES[k], vdist(got, &m.want[i]), t, det);
                    let wide = &outs[2].2[i].1;
                    if k < 2 {
                        let tw = tols[2][i].unwrap_or(f64::INFINITY);
                        r.check("f32 and f64 results are the wide ones rounded", vdist(got, wide), t + tw, || {
                            format!("{name} in {ty} gave {got:?}, in the 80-bit type {wide:?}; {w:?}")
                        });
                    }
                    r.count("results compared", 1);
                }
                _ => r.inconclusive(NAMES[k]),
            }
        }
    }
    r.sample(|| format!("{w:?}"));
}
fn main() {
    mon::main(Spec {
        id: "C24",
        families: vec![Family { name: "three scalar types", weight: 1, run: precise }],
        quick: 900_000,
        rule: "a case is a set of numbers exact in f32 (pose, intrinsics, points, pixels, a camera matrix, rays) with which 15 operations are computed in f32, f64 and an 80-bit scalar type of the monitor's own and compared with the exact results; every case is non-trivial; distinct by the bits of some of the numbers",
        min_distinct: 50_000,
        assumptions: &["a double-double reference model, about 24 bits more precise than the widest type"],
    })
}
