//! C25: parameter objects are faithful values.
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use nalgebra::{Const, Dyn, Matrix};
use std::fmt::Debug;

/// The parameters of everything, in one list: 4 rotation, 3 centre, 5 perspective, 4 orthographic, 6 bundle rows,
/// 4 and 3 motion of the bundle.
const N: usize = 29;
type P<R> = [R; N];
const ROT: usize = 0;
const CEN: usize = 4;
const PER: usize = 7;
const ORT: usize = 12;
const ROW: usize = 16;
const BRO: usize = 22;
const BTR: usize = 26;

struct All<R: Sc> {
    e: ExtrinsicParameters<R>,
    pi: IntrinsicParametersPerspective<R>,
    oi: IntrinsicParametersOrthographic<R>,
    pp: PerspectiveParams<R>,
    op: OrthographicParams<R>,
    pc: PCam<R>,
    oc: OCam<R>,
    so: OwnedBundle<CameraFrame, SharedOriginRayBundle<R>, R, Const<2>>,
    sd: OwnedBundle<CameraFrame, SharedDirectionRayBundle<R>, R, Const<2>>,
    mo: OwnedBundle<WorldFrame, SharedOriginRayBundle<R>, R, Const<2>>,
    md: OwnedBundle<WorldFrame, SharedDirectionRayBundle<R>, R, Dyn>,
}
fn quatr<R: Sc>(x: &[R]) -> UnitQuaternion<R> {
    Unit::new_unchecked(Quaternion::new(x[0], x[1], x[2], x[3]))
}
fn build<R: Sc>(x: &P<R>) -> All<R> {
    let e = ExtrinsicParameters::from_rotation_and_camcenter(quatr(&x[ROT..]), Point3::new(x[CEN], x[CEN + 1], x[CEN + 2]));
    let pp = PerspectiveParams { fx: x[PER], fy: x[PER + 1], skew: x[PER + 2], cx: x[PER + 3], cy: x[PER + 4] };
    let op = OrthographicParams { sx: x[ORT], sy: x[ORT + 1], cx: x[ORT + 2], cy: x[ORT + 3] };
    let pi: IntrinsicParametersPerspective<R> = pp.clone().into();
    let oi: IntrinsicParametersOrthographic<R> = op.clone().into();
    let iso = Isometry3::from_parts(Translation3::new(x[BTR], x[BTR + 1], x[BTR + 2]), quatr(&x[BRO..]));
    let m = SMatrix::<R, 2, 3>::from_fn(|i, j| x[ROW + 3 * i + j]);
    let d = Matrix::<R, Dyn, U3, _>::from_fn_generic(Dyn(2), U3, |i, j| x[ROW + 3 * i + j]);
    All {
        pc: Camera::new(pi.clone(), e.clone()),
        oc: Camera::new(oi.clone(), e.clone()),
        so: RayBundle::new_shared_zero_origin(m),
        sd: RayBundle::new_shared_plusz_direction(m),
        mo: SharedOriginRayBundle::new_shared_zero_origin().to_pose(iso, &m),
        md: SharedDirectionRayBundle::new_plusz_shared_direction().to_pose(iso, &d),
        e,
        pi,
        oi,
        pp,
        op,
    }
}
fn params<R: Sc>(g: &mut Rng) -> P<R> {
    let mut x = [R::f(0.0); N];
    for at in [ROT, BRO] {
        let q = uq::<R>(quat(g));
        x[at..at + 4].copy_from_slice(&[q.w, q.i, q.j, q.k]);
    }
    for at in [CEN, ROW, ROW + 3, BTR] {
        let v: [R; 3] = vec3(g, R::DEC / 2.0);
        x[at..at + 3].copy_from_slice(&v);
    }
    let p = persp_params::<R>(g);
    x[PER..PER + 5].copy_from_slice(&[p.fx, p.fy, p.skew, p.cx, p.cy]);
    let o = ortho_params::<R>(g);
    x[ORT..ORT + 4].copy_from_slice(&[o.sx, o.sy, o.cx, o.cy]);
    // parameters that agree, and extreme ones
    if g.one_in(6) {
        let v = coord(g, 2.0);
        x[CEN..ORT + 4].fill(v);
    }
    if g.one_in(6) {
        for _ in 0..4 {
            let big = if R::EPS > 1e-10 { 1e18 } else { 1e150 };
            let i = CEN + g.below(ROT + BRO - CEN);
            x[i] = R::f(g.sign() * if g.one_in(2) { big } else { 1.0 / big });
        }
    }
    // zero has two encodings which are equal
    for y in &mut x {
        if y.d().a() == 0.0 {
            *y = R::f(0.0);
        }
    }
    x
}
/// Another value: a neighbour, or something else.
fn other<R: Sc>(g: &mut Rng, x: R) -> R {
    loop {
        let y: R = match g.below(5) {
            0 => R::of(x.d() * (D::ONE + D::new(g.sign() * 1.01 * R::EPS))),
            1 => x + R::f(g.sign() * g.log(-12.0, -3.0)),
            2 => -x,
            3 => x + R::f(1.0),
            _ => coord(g, 2.0),
        };
        if y.d().hi.is_finite() && y != x {
            return y;
        }
    }
}
fn bits<'a, R: Sc>(m: impl IntoIterator<Item = &'a R>) -> u64 {
    let mut h = 0;
    for x in m {
        let k = if x.d().is_nan() { u128::MAX } else { x.key() };
        h = hash(&[h, k as u64, (k >> 64) as u64]);
    }
    h
}
/// Everything an object can be asked, for a comparison of behaviour.
fn behave<R: Sc>(a: &All<R>, x: [R; 3], uv: [R; 2], s: R) -> u64 {
    let (w, u) = (wpt(x), px(uv));
    let b = [
        bits(&a.pc.world_to_pixel(&w).data),
        bits(&a.oc.world_to_pixel(&w).data),
        bits(&a.pc.pixel_to_world(&u).point_on_ray_at_distance(s).data),
        bits(&a.oc.pixel_to_world(&u).point_on_ray_at_distance(s).data),
        bits(&a.pi.camera_to_pixel(&cpt(x)).data),
        bits(&a.oi.camera_to_pixel(&cpt(x)).data),
        bits(a.e.matrix()),
        bits(a.e.rotation().matrix()),
        bits(a.e.translation().iter()),
        bits(a.e.camcenter().iter()),
        bits(&a.e.world_to_camera(&w).data),
        bits(&a.e.camera_to_world(&cpt(x)).data),
        bits(a.e.forward().iter()) ^ bits(a.e.up().iter()).rotate_left(1) ^ bits(a.e.right().iter()).rotate_left(2),
        bits(a.e.pose().to_homogeneous().iter()),
        bits(&a.pc.as_camera_matrix()),
        bits(&JacobianPerspectiveCache::new(&a.pc).linearize_at(&w)),
        bits(&a.so.point_on_ray_at_distance(s).data) ^ bits(&a.mo.point_on_ray_at_distance(s).data).rotate_left(1),
        bits(&a.sd.point_on_ray_at_distance(s).data) ^ bits(a.md.point_on_ray_at_distance(s).data.iter()).rotate_left(1),
        bits(&a.mo.centers()) ^ bits(&a.mo.directions()).rotate_left(1),
    ];
    hash(&b)
}
fn dup<R: Sc>(a: &All<R>) -> All<R> {
    All {
        e: a.e.clone(),
        pi: a.pi.clone(),
        oi: a.oi.clone(),
        pp: a.pp.clone(),
        op: a.op.clone(),
        pc: a.pc.clone(),
        oc: a.oc.clone(),
        so: a.so.clone(),
        sd: a.sd.clone(),
        mo: a.mo.clone(),
        md: a.md.clone(),
    }
}
/// The parameters each kind of object is made of.
#[rustfmt::skip]
const KINDS: [(&str, &[(usize, usize)]); 11] = [
    ("ExtrinsicParameters", &[(ROT, 4), (CEN, 3)]),
    ("IntrinsicParametersPerspective", &[(PER, 5)]),
    ("IntrinsicParametersOrthographic", &[(ORT, 4)]),
    ("PerspectiveParams", &[(PER, 5)]),
    ("OrthographicParams", &[(ORT, 4)]),
    ("perspective Camera", &[(ROT, 4), (CEN, 3), (PER, 5)]),
    ("orthographic Camera", &[(ROT, 4), (CEN, 3), (ORT, 4)]),
    ("shared-origin RayBundle", &[(ROW, 6)]),
    ("shared-direction RayBundle", &[(ROW, 6)]),
    ("moved shared-origin RayBundle", &[(ROW, 6)]),
    ("moved shared-direction RayBundle", &[(ROW, 6)]),
];
/// Both answers of each comparison, both ways around.
fn compare<R: Sc>(a: &All<R>, b: &All<R>) -> [[bool; 4]; 11] {
    fn c<T: PartialEq>(a: &T, b: &T) -> [bool; 4] {
        [a == b, b == a, !(a != b), !(b != a)]
    }
    [
        c(&a.e, &b.e),
        c(&a.pi, &b.pi),
        c(&a.oi, &b.oi),
        c(&a.pp, &b.pp),
        c(&a.op, &b.op),
        c(&a.pc, &b.pc),
        c(&a.oc, &b.oc),
        c(&a.so, &b.so),
        c(&a.sd, &b.sd),
        c(&a.mo, &b.mo),
        c(&a.md, &b.md),
    ]
}
fn texts<R: Sc>(a: &All<R>) -> [[String; 2]; 11] {
    fn t<T: Debug>(x: &T) -> [String; 2] {
        [format!("{x:?}"), format!("{x:#?}")]
    }
    [t(&a.e), t(&a.pi), t(&a.oi), t(&a.pp), t(&a.op), t(&a.pc), t(&a.oc), t(&a.so), t(&a.sd), t(&a.mo), t(&a.md)]
}
fn values<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let x = params::<R>(g);
    let a = build(&x);
    r.input(key(&x[CEN..BRO]), true);
    let show = || format!("{} parameters {x:?}", R::NAME);
    r.sample(show);
    // accessors
    let same = |r: &mut Rec, what: &'static str, got: &[R], want: &[R]| {
        r.ensure("accessors return what was given", bits(got) == bits(want), || format!("{what} gives {got:?}, not {want:?}; {}", show()));
    };
    let p = &a.pi;
    same(r, "fx fy skew cx cy", &[p.fx(), p.fy(), p.skew(), p.cx(), p.cy()], &x[PER..PER + 5]);
    let p = a.pc.intrinsics();
    same(r, "intrinsics of the camera", &[p.fx(), p.fy(), p.skew(), p.cx(), p.cy()], &x[PER..PER + 5]);
    let p = a.pi.params();
    same(r, "params", &[p.fx, p.fy, p.skew, p.cx, p.cy], &x[PER..PER + 5]);
    for e in [&a.e, a.pc.extrinsics(), a.oc.extrinsics()] {
        same(r, "camcenter", e.camcenter().coords.as_slice(), &x[CEN..CEN + 3]);
        let q = e.pose().rotation;
        let d = |s: f64| -> f64 { [q.w, q.i, q.j, q.k].iter().zip(&x[ROT..]).map(|(a, b)| (a.d() - b.d() * D::new(s)).a()).fold(0.0, f64::max) };
        r.check("the rotation is the one given", d(1.0).min(d(-1.0)), K * R::EPS, show);
    }
    r.ensure("a camera holds its parts", *a.oc.intrinsics() == a.oi && *a.oc.extrinsics() == a.e && *a.pc.intrinsics() == a.pi, show);
    let ray = Ray::<WorldFrame, R>::new(row([x[16], x[17], x[18]]), row([x[19], x[20], x[21]]));
    let both: Vec<R> = ray.center.iter().chain(ray.direction.iter()).copied().collect();
    same(r, "Ray", &both, &x[ROW..ROW + 6]);
    let m = SMatrix::<R, 2, 3>::from_fn(|i, j| x[ROW + 3 * i + j]);
    for (what, d) in [("RayBundle data", &a.so.data), ("RayBundle data", &a.sd.data), ("Points", &Points::<WorldFrame, R, _, _>::new(m).data)] {
        same(r, what, d.as_slice(), m.as_slice());
    }
    let u = SMatrix::<R, 3, 2>::from_fn(|i, j| x[ROW + 2 * i + j]);
    same(r, "Pixels", Pixels::new(u).clone().data.as_slice(), u.as_slice());
    // equal values and clones
    let b = build(&x);
    let c = dup(&a);
    let (ta, tb, tc) = (texts(&a), texts(&b), texts(&c));
    for (k, (name, _)) in KINDS.iter().enumerate() {
        let (ab, ac, aa) = (compare(&a, &b)[k], compare(&a, &c)[k], compare(&a, &a)[k]);
        r.ensure("equal when built from equal values", ab == [true; 4], || format!("{name}: {ab:?} {}", show()));
        r.ensure("equal to a clone and to itself", ac == [true; 4] && aa == [true; 4], || format!("{name}: {ac:?} {aa:?} {}", show()));
        r.ensure("Debug output is the same for equal values", ta[k] == tb[k] && ta[k] == tc[k], || format!("{name}: {:?} {:?} {:?}", ta[k], tb[k], tc[k]));
    }
    let pt: [R; 3] = vec3(g, R::DEC / 2.0);
    let uv = [coord(g, 3.0), coord(g, 3.0)];
    let s = distance(g);
    let (ba, bb, bc) = (behave(&a, pt, uv, s), behave(&b, pt, uv, s), behave(&c, pt, uv, s));
    r.ensure("equal values and clones behave identically", ba == bb && ba == bc, || format!("at {pt:?} {uv:?} {s:?}; {}", show()));
    // Debug output shows the parameters
    for (k, (name, made)) in KINDS.iter().enumerate() {
        if k >= 9 {
            // what a moved bundle is made of was computed
            continue;
        }
        let words: Vec<std::collections::HashSet<&str>> =
            ta[k].iter().map(|t| t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).collect()).collect();
        for &(at, n) in *made {
            for y in &x[at..at + n] {
                // a matrix may print -0.0 and 0.0, 1e-7 and 0.0000001 differently: compare what it reads as
                let y0 = format!("{y:?}");
                let shown = words.iter().all(|w| w.contains(y0.as_str()) || reads(w, *y));
                r.ensure("Debug output shows the parameters", shown, || format!("{name}: {y0} is not in {:?}", ta[k]));
            }
        }
    }
    let w = format!("{:?}", Points::<WorldFrame, R, _, _>::new(row([x[16], x[17], x[18]])));
    let ws: std::collections::HashSet<&str> = w.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).collect();
    r.ensure("Debug output of points shows them", x[16..19].iter().all(|y| ws.contains(format!("{y:?}").as_str()) || reads(&ws, *y)), || w.clone());
    // one parameter changed
    for _ in 0..6 {
        let i = g.below(N);
        let mut y = x;
        y[i] = other(g, x[i]);
        if i >= BRO || i < 4 {
            // still a rotation, as far as anyone can tell; and not the opposite quaternion
            let at = if i < 4 { ROT } else { BRO };
            if (at..at + 4).contains(&i) {
                let q = uq::<R>(quat(g));
                y[at..at + 4].copy_from_slice(&[q.w, q.i, q.j, q.k]);
                if (0..4).all(|k| (y[at + k].d().a() - x[at + k].d().a()).abs() < 1e-3) {
                    continue;
                }
                // a neighbouring rotation
                if g.one_in(2) {
                    y[at..at + 4].copy_from_slice(&x[at..at + 4]);
                    let k = at + g.below(4);
                    y[k] = R::of(x[k].d() + D::new(g.sign() * R::EPS * (1 + g.below(3)) as f64));
                    if y[k] == x[k] {
                        continue;
                    }
                }
            }
        }
        let b = build(&y);
        let (cmp, tb) = (compare(&a, &b), texts(&b));
        for (k, (name, made)) in KINDS.iter().enumerate() {
            let mine = made.iter().any(|&(at, n)| (at..at + n).contains(&i));
            if k >= 9 {
                // moved bundles: a row as given is kept as data of one kind or moved; judge large changes only
                if i < ROW {
                    r.ensure("unaffected by the parameters of others", cmp[k] == [true; 4], || format!("{name} {i} {:?}; {}", y[i], show()));
                } else {
                    let big = !same_moved(&x, &y, k == 9);
                    if big {
                        r.ensure("a changed parameter makes them unequal", cmp[k] == [false; 4], || {
                            format!("{name}: parameter {i} {:?} or {:?} {:?}; {}", x[i], y[i], cmp[k], show())
                        });
                    } else {
                        r.inconclusive("a changed parameter makes them unequal");
                    }
                }
                continue;
            }
            if mine {
                r.ensure("a changed parameter makes them unequal", cmp[k] == [false; 4], || {
                    format!("{name}: parameter {i} {:?} or {:?} {:?}; {}", x[i], y[i], cmp[k], show())
                });
                r.ensure("a changed parameter changes the Debug output", ta[k] != tb[k], || format!("{name}: {:?}", ta[k]));
                r.class(name);
            } else {
                r.ensure("unaffected by the parameters of others", cmp[k] == [true; 4], || format!("{name} {i} {:?}; {}", y[i], show()));
            }
        }
    }
}
fn reads<R: Sc>(words: &std::collections::HashSet<&str>, y: R) -> bool {
    let k = y.d().f();
    words.iter().any(|w| w.parse::<f64>().is_ok_and(|v| v == k || R::f(v) == y))
}
/// Whether two moved bundles may be equal: nearly the same rays.
fn same_moved<R: Sc>(x: &P<R>, y: &P<R>, origin: bool) -> bool {
    let rays = |x: &P<R>| -> Vec<(V3, V3)> {
        let r = rotm(qnorm([x[BRO].d(), x[BRO + 1].d(), x[BRO + 2].d(), x[BRO + 3].d()]));
        let t = dv([x[BTR], x[BTR + 1], x[BTR + 2]]);
        (0..2)
            .map(|i| {
                let d = dv([x[ROW + 3 * i], x[ROW + 3 * i + 1], x[ROW + 3 * i + 2]]);
                let (c, d) = if origin { ([D::ZERO; 3], d) } else { (d, [D::ZERO, D::ZERO, D::ONE]) };
                (add(mv(&r, c), t), mv(&r, d))
            })
            .collect()
    };
    let m: f64 = x.iter().chain(y).map(|v| v.d().a()).fold(0.0, f64::max);
    rays(x).iter().zip(&rays(y)).all(|(a, b)| dist(a.0, b.0) < 1e3 * R::EPS * m && dist(a.1, b.1) < 1e3 * R::EPS * m)
}
fn main() {
    mon::main(Spec {
        id: "C25",
        families: families! { "values", values, 1 },
        quick: 180_000,
        rule: "a case is a set of 29 parameters from which 11 kinds of objects are built twice, cloned, compared, printed and asked everything, and built again with one parameter changed (by one unit in the last place up to entirely), six times; every case is non-trivial; distinct by the bits of most parameters",
        min_distinct: 20_000,
        assumptions: &["zeros are positive: zeros of both signs are equal and print differently"],
    })
}
