//! C16: triangulating a point's images recovers the point.
use monitors::prelude::*;
use monitors::rays::*;

enum Cam<R: Sc> {
    P(PCam<R>, Persp),
    O(OCam<R>, Orth),
}
/// A camera that sees the point `x` (in front of it), at about the given distance, from the given side.
fn seeing<R: Sc>(g: &mut Rng, x: V3, from: V3, distance: f64, ortho: bool) -> (Cam<R>, Ext) {
    let q = quat(g);
    let u: UnitQuaternion<R> = uq(q);
    let c: [R; 3];
    let route = g.below(3);
    let ep = if route == 0 {
        // looking at, or near, the point from the given side
        c = R::v(add(x, scale(D::new(distance), from)));
        let at: [R; 3] = R::v(add(x, scale(D::new(0.2 * distance), dir(g))));
        let mut up;
        loop {
            up = dir(g);
            if n(cross(up, unit(sub(dv(at), dv(c))))) > 0.2 {
                break;
            }
        }
        ExtrinsicParameters::from_view(&vr(c), &vr(at), &Unit::new_unchecked(vr(R::v(up))))
    } else {
        // any orientation with the point in front, from the given side as nearly as that allows
        let r = rotm(q);
        let z = r[2];
        let mut f = from;
        if dot(f, z).f() > -0.2 {
            f = unit(sub(f, scale(D::new(2.0) * dot(f, z), z)));
        }
        if dot(f, z).f() > -0.2 {
            f = scale(D::new(-1.0), z);
        }
        c = R::v(add(x, scale(D::new(distance), f)));
        if route == 1 {
            ExtrinsicParameters::from_rotation_and_camcenter(u, Point3::from(vr(c)))
        } else {
            let t: [R; 3] = R::v(scale(D::new(-1.0), mv(&r, dv(c))));
            ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(vr(t)), u))
        }
    };
    made(g, ep, ortho, None)
}
type Lens<R> = (IntrinsicParametersPerspective<R>, Persp, OrthographicParams<R>);
fn lens<R: Sc>(g: &mut Rng) -> Lens<R> {
    let (i, p) = persp::<R>(g);
    (i, p, ortho_params::<R>(g))
}
fn made<R: Sc>(g: &mut Rng, ep: ExtrinsicParameters<R>, ortho: bool, same: Option<&Lens<R>>) -> (Cam<R>, Ext) {
    // the motion the parameters report (its faithfulness is C06's business)
    let p = ep.pose();
    let r = rot_of(&p.rotation);
    let cc = ep.camcenter();
    let e = Ext { r, c: [cc[0].d(), cc[1].d(), cc[2].d()] };
    if ortho {
        let q = same.map_or_else(|| ortho_params::<R>(g), |l| l.2.clone());
        let o = ortho_of(&q);
        (Cam::O(Camera::new(q.into(), ep), o), e)
    } else {
        let (i, p) = same.map_or_else(|| persp::<R>(g), |l| (l.0.clone(), l.1));
        (Cam::P(Camera::new(i, ep), p), e)
    }
}
/// Cameras of one kind in a regular arrangement: side by side, in a ring or facing each other; and points they see.
fn rig<R: Sc>(g: &mut Rng, k: usize, mix: usize) -> (Vec<(Cam<R>, Ext)>, [[R; 3]; 3], f64) {
    // numbers with few digits, for which much is exact
    let few = g.one_in(2);
    let cut = |x: V3| -> V3 { if few { x.map(|x| D::new((x.f() * 8.0).round() / 8.0)) } else { x } };
    let size = if few { 8.0 } else { g.len(-1.0, 1.5) };
    let x0 = if g.one_in(3) { [D::ZERO; 3] } else { cut(scale(D::new(size * g.range(0.0, 2.0)), dir(g))) };
    let q = quat(g);
    let axes = rotm(q);
    let same = if g.one_in(3) { None } else { Some(lens::<R>(g)) };
    let layout = g.below(4);
    // sideways, for cameras side by side: as the camera or the world sees it
    let (side, depth) = (g.below(2), size * if few { 1.0 } else { g.log(0.0, 1.0) });
    let mut along = axes[side];
    if g.one_in(2) {
        along = [D::ZERO; 3];
        along[g.below(3)] = D::ONE;
    }
    let gap = if few { [0.125, 0.5, 1.0, 2.0][g.below(4)] } else { size * g.log(-2.0, 0.3) };
    let mid = if g.one_in(2) { 0.5 * (k - 1) as f64 } else { 0.0 };
    let turn = |axis: usize, an: f64| -> [D; 4] {
        let (s, c) = D::new(an / 2.0).sin_cos();
        let mut t = [c, D::ZERO, D::ZERO, D::ZERO];
        t[1 + axis] = s;
        t
    };
    let mut cams = Vec::new();
    let step = g.sign() * if g.one_in(2) { std::f64::consts::TAU / k as f64 } else { std::f64::consts::FRAC_PI_2 };
    let round = g.below(3);
    for i in 0..k {
        let (qi, c) = match layout {
            // parallel, or nearly
            0 | 1 => (q, add(sub(x0, scale(D::new(depth), axes[2])), scale(D::new(gap * (i as f64 - mid)), along))),
            // around the point, each towards it
            2 => {
                let qi = qmul(turn(round, step * i as f64), q);
                (qi, sub(x0, scale(D::new(depth), rotm(qi)[2])))
            }
            // in pairs that face each other, not quite in line with the points
            _ => {
                let qi = if i % 2 == 0 { q } else { qmul(turn(side, std::f64::consts::PI), q) };
                let c = sub(x0, scale(D::new(depth), rotm(qi)[2]));
                (qi, add(c, scale(D::new(gap * (i as f64 - mid)), axes[side])))
            }
        };
        let c: [R; 3] = R::v(if layout == 2 { c } else { cut(c) });
        let ep = ExtrinsicParameters::from_rotation_and_camcenter(uq(qi), Point3::from(vr(c)));
        let ortho = match mix {
            0 => false,
            1 => true,
            _ => i % 2 == 0,
        };
        cams.push(made(g, ep, ortho, same.as_ref()));
    }
    let pts = std::array::from_fn(|_| R::v(if g.one_in(4) { x0 } else { cut(add(x0, scale(D::new(0.3 * size * g.unit()), dir(g)))) }));
    (cams, pts, size)
}
fn triangulate<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let eps = R::EPS;
    // one to three points near each other, seen by the same cameras, as a batch
    let mag = g.len(-1.0, R::DEC / 2.0);
    let x0: V3 = if g.one_in(4) { [D::ZERO; 3] } else { scale(D::new(mag), dir(g)) };
    let mut size = g.len(-1.0, 1.5);
    let mut pts: [[R; 3]; 3] = std::array::from_fn(|_| R::v(add(x0, scale(D::new(0.1 * size), dir(g)))));
    let mut m = SMatrix::<R, 3, 3>::from_fn(|i, j| pts[i][j]);
    let k = match g.below(4) {
        0 | 1 => 2,
        2 => 3,
        _ if g.one_in(60) => 7 + g.below(120),
        _ => 2 + g.below(5),
    };
    let mix = g.below(3);
    let base = dir(g);
    let narrow = if g.one_in(4) { g.log(-2.3, -0.5) } else { 1.0 };
    let mut cams = Vec::new();
    let regular = k < 20 && g.one_in(4);
    if regular {
        r.class("regular arrangement");
        (cams, pts, size) = rig(g, k, mix);
        m = SMatrix::from_fn(|i, j| pts[i][j]);
    }
    for i in 0..if regular { 0 } else { k } {
        let ortho = match mix {
            0 => false,
            1 => true,
            _ => i % 2 == 0,
        };
        let from = if i == 0 { base } else { {
            let f = add(base, scale(D::new(narrow), dir(g)));
            if n(f) > 1e-3 { unit(f) } else { base }
        } };
        // some third camera from nearly the side of another
        let from = if i > 1 && g.one_in(6) {
            let e = g.log(-14.0, -2.0);
            unit(add(base, scale(D::new(e), dir(g))))
        } else {
            from
        };
        let s = size * g.log(0.0, 1.0);
        cams.push(seeing::<R>(g, x0, from, s, ortho));
    }
    let mname = ["perspective", "orthographic", "mixed"][mix];
    r.class(mname);
    r.input(key(&[pts[0][0], pts[0][1], pts[0][2], cams[0].1.r[0][0].hi.to_bits().into_r()]), true);
    let desc: Vec<String> = cams
        .iter()
        .map(|(c, _)| match c {
            Cam::P(c, _) => format!("{c:?}"),
            Cam::O(c, _) => format!("{c:?}"),
        })
        .collect();
    let det = || format!("{} {k} cameras ({mname}) {pts:?} seen by {desc:?}", R::NAME);
    r.sample(det);
    // [point][camera]
    let mut rays: [Vec<Ray<WorldFrame, R>>; 3] = std::array::from_fn(|_| Vec::new());
    let mut single: [Vec<Ray<WorldFrame, R>>; 3] = std::array::from_fn(|_| Vec::new());
    let mut ideal: [Vec<(V3, V3)>; 3] = std::array::from_fn(|_| Vec::new());
    let mut off = [0.0f64; 3];
    for (cam, e) in &cams {
        let (cs, ds) = match cam {
            Cam::P(c, _) => {
                let b = c.pixel_to_world(&c.world_to_pixel(&Points::new(m)));
                (b.centers(), b.directions())
            }
            Cam::O(c, _) => {
                let b = c.pixel_to_world(&c.world_to_pixel(&Points::new(m)));
                (b.centers(), b.directions())
            }
        };
        for i in 0..3 {
            rays[i].push(Ray::new(cs.row(i).into_owned(), ds.row(i).into_owned()));
            single[i].push(match cam {
                Cam::P(c, _) => c.pixel_to_world(&c.world_to_pixel(&wpt(pts[i]))).to_single_ray(),
                Cam::O(c, _) => c.pixel_to_world(&c.world_to_pixel(&wpt(pts[i]))).to_single_ray(),
            });
            let xd = dv(pts[i]);
            let pc = e.to_cam(xd);
            let delta = e.tol_cam(xd, eps);
            match cam {
                Cam::P(_, p) => {
                    let z = pc[2].f();
                    let Some(t) = p.tol(pc, delta, eps) else {
                        return r.inconclusive("triangulation");
                    };
                    if z <= 0.0 {
                        return r.inconclusive("triangulation");
                    }
                    off[i] += z * p.tol_dir(p.pix(pc), t, eps) + K * eps * n(e.c) + delta;
                    ideal[i].push((e.c, sub(xd, e.c)));
                }
                Cam::O(_, p) => {
                    let t = p.tol(pc, delta, eps);
                    off[i] += p.tol_org(p.pix(pc), t, eps) + K * eps * (pc[2].a() + n(pc)) + K * eps * n(e.c) + delta;
                    ideal[i].push((sub(xd, scale(pc[2], e.fwd())), e.fwd()));
                }
            }
        }
    }
    for i in 0..3 {
        if spread(&ideal[i]) < MIN_ANGLE {
            r.inconclusive("triangulation");
            continue;
        }
        let xd = dv(pts[i]);
        let l = lsq(&ideal[i]);
        let tol = off[i] / l.lmin + 2.0 * lsq_tol(&l, &ideal[i], eps_of::<R>());
        // the error must be small enough to linearize about the ideal rays
        if !(tol < 0.05 * size) {
            r.inconclusive("triangulation");
            continue;
        }
        for (how, rs) in [("rows of a batch", &rays[i]), ("single rays", &single[i])] {
            match best_intersection_of_rays(rs) {
                Err(e) => {
                    r.ensure("there is an intersection", false, || format!("{} ({how}); {}", ename(&e), det()));
                }
                Ok(p) => {
                    let y = r3(&p.data);
                    r.check("triangulation", dist(y, xd), tol, || format!("point {i}: got {y:?} expected {xd:?} ({how}); {}", det()));
                }
            }
        }
    }
}
trait IntoR {
    fn into_r<R: Sc>(self) -> R;
}
impl IntoR for u64 {
    fn into_r<R: Sc>(self) -> R {
        R::f((self >> 12) as f64)
    }
}
fn main() {
    mon::main(Spec {
        id: "C16",
        families: families! { "points", triangulate, 1 },
        quick: 1_000_000,
        rule: "a case is 2-6 (at times up to 126) perspective, orthographic or mixed cameras of any orientation with 3 points in front of them, projected, back-projected and intersected, as a batch and one by one; every case is non-trivial; distinct by the bits of a point and of a camera's orientation",
        min_distinct: 50_000,
        assumptions: &["some two rays to a point differ by at least 0.1 degree", "rounding of pixels moves the point by less than 5 % of the distance to the cameras"],
    })
}
