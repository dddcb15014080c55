//! C19: batches are converted row by row, whatever their size or storage.
use monitors::bundles::*;
use monitors::prelude::*;
use nalgebra::storage::{Owned, Storage};
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, Dim, Dyn, MatrixView, U1};

const OPS: [&str; 15] = [
    "world_to_camera",
    "camera_to_world",
    "world_to_pixel perspective",
    "camera_to_pixel perspective",
    "world_to_pixel orthographic",
    "camera_to_pixel orthographic",
    "pixel_to_camera perspective, point on ray",
    "pixel_to_camera perspective, point at distance",
    "pixel_to_world perspective, point on ray",
    "pixel_to_world perspective, point at distance",
    "pixel_to_camera orthographic, point on ray",
    "pixel_to_world orthographic, point on ray",
    "pixel_to_world orthographic, point at distance",
    "ray_camera_to_world shared origin, point at distance",
    "ray_camera_to_world shared direction, point at distance",
];
/// Result rows of every operation: [op][row][component].
type Out<R> = Vec<Vec<[R; 3]>>;

fn r3s<R: Sc, N: Dim, S: Storage<R, N, U3>>(m: &nalgebra::Matrix<R, N, U3, S>) -> Vec<[R; 3]> {
    (0..m.nrows()).map(|i| [m[(i, 0)], m[(i, 1)], m[(i, 2)]]).collect()
}
fn r2s<R: Sc, N: Dim, S: Storage<R, N, U2>>(m: &nalgebra::Matrix<R, N, U2, S>) -> Vec<[R; 3]> {
    (0..m.nrows()).map(|i| [m[(i, 0)], m[(i, 1)], R::f(0.0)]).collect()
}
fn ops<R, N, S3, S2>(
    p: &PCam<R>,
    o: &OCam<R>,
    s: R,
    pts: nalgebra::Matrix<R, N, U3, S3>,
    pix: nalgebra::Matrix<R, N, U2, S2>,
) -> Out<R>
where
    R: Sc,
    N: Dim,
    S3: Storage<R, N, U3> + Clone,
    S2: Storage<R, N, U2>,
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2> + Allocator<U1, U2>,
{
    let w = Points::<WorldFrame, R, N, S3>::new(pts.clone());
    let c = Points::<CameraFrame, R, N, S3>::new(pts.clone());
    let uv = Pixels::new(pix);
    let e = p.extrinsics();
    let pc = p.intrinsics().pixel_to_camera(&uv);
    let pw = p.pixel_to_world(&uv);
    let oc = o.intrinsics().pixel_to_camera(&uv);
    let ow = o.pixel_to_world(&uv);
    let so = RayBundle::<CameraFrame, _, R, N, S3>::new_shared_zero_origin(pts.clone());
    let sd = RayBundle::<CameraFrame, _, R, N, S3>::new_shared_plusz_direction(pts);
    vec![
        r3s(&e.world_to_camera(&w).data),
        r3s(&e.camera_to_world(&c).data),
        r2s(&p.world_to_pixel(&w).data),
        r2s(&p.intrinsics().camera_to_pixel(&c).data),
        r2s(&o.world_to_pixel(&w).data),
        r2s(&o.intrinsics().camera_to_pixel(&c).data),
        r3s(&pc.point_on_ray().data),
        r3s(&pc.point_on_ray_at_distance(s).data),
        r3s(&pw.point_on_ray().data),
        r3s(&pw.point_on_ray_at_distance(s).data),
        r3s(&oc.point_on_ray().data),
        r3s(&ow.point_on_ray().data),
        r3s(&ow.point_on_ray_at_distance(s).data),
        r3s(&e.ray_camera_to_world(&so).point_on_ray_at_distance(s).data),
        r3s(&e.ray_camera_to_world(&sd).point_on_ray_at_distance(s).data),
    ]
}
/// Allowed difference between two computations of the same row; None: rounding may decide everything.
fn tols(e: &Ext, p: &Persp, o: &Orth, s: f64, x: V3, uv: [D; 2], eps: f64) -> [Option<f64>; 15] {
    let h = |t: [f64; 2]| t[0].hypot(t[1]);
    let cw = e.to_cam(x);
    let tc = e.tol_cam(x, eps);
    let td = p.tol_dir(uv, [0.0; 2], eps);
    let d = n(p.dir(uv));
    let to = o.tol_org(uv, [0.0; 2], eps);
    let og = n(o.org(uv));
    let c = n(e.c);
    let k = K * eps;
    // points at a distance along a direction of unknown length: relative error of the direction
    let xn = n(x);
    [
        Some(tc),
        Some(e.tol_world(x, eps)),
        p.tol(cw, tc, eps).map(h),
        p.tol(x, 0.0, eps).map(h),
        Some(h(o.tol(cw, tc, eps))),
        Some(h(o.tol(x, 0.0, eps))),
        Some(td),
        Some(td / d * s + k * s),
        Some(td + k * (c + d)),
        Some(td / d * s + k * (c + s)),
        Some(to + k),
        Some(to + k * (c + og + 1.0)),
        Some(to + k * (c + og + s)),
        (xn > 10f64.powf(-R_DEC_MIN)).then_some(k * (c + s)),
        Some(k * (c + xn + s)),
    ]
    .map(|t| t.map(|t| 2.0 * t).filter(|t| t.is_finite()))
}
const R_DEC_MIN: f64 = 6.0;

const RELATED: [&str; 9] = [
    "rows at one depth, or nearly",
    "rows at one height, or nearly",
    "rows repeated, or nearly",
    "rows differing in one component",
    "a pixel grid and a plane",
    "points along one ray",
    "a plane in the camera frame",
    "rows shuffled from a few",
    "rows unrelated",
];
/// The next row of a batch, related to those before.
fn related<R: Sc>(g: &mut Rng, how: usize, e: &Ext, p: &Persp, pts: &[[R; 3]], pix: &[[R; 2]]) -> ([R; 3], [R; 2]) {
    let mut x: [R; 3] = world_point(g, e, false);
    let mut u: [R; 2] = pixel(g, [p.cx, p.cy], [p.fx, p.fy]);
    let i = pts.len();
    if i == 0 {
        return (x, u);
    }
    let near = |g: &mut Rng, x: R| if g.one_in(2) { x } else { R::of(x.d() * nearly(g)) };
    let (px, pu) = (pts[i - 1], pix[i - 1]);
    match how {
        0 => {
            x[2] = near(g, pts[0][2]);
            u[1] = near(g, pix[0][1]);
        }
        1 => {
            let j = g.below(2);
            x[j] = near(g, pts[0][j]);
            u[0] = near(g, pix[0][0]);
        }
        2 if g.one_in(2) => {
            x = px.map(|x| near(g, x));
            u = pu.map(|x| near(g, x));
        }
        3 => {
            let j = g.below(3);
            let (a, b) = (x[j], u[j % 2]);
            x = px;
            u = pu;
            x[j] = a;
            u[j % 2] = b;
        }
        4 => {
            // row by row
            let (a, b) = (D::new(g.len), D::new(g.pix));
            let (c, l) = (D::new((i % 5) as f64), D::new((i / 5) as f64));
            x = R::v(e.to_world([a * c, a * l, a * D::new(7.0)]));
            if i % 7 == 3 {
                x = R::v([a * c, a * l, D::ZERO]);
            }
            u = [R::of(b * c * D::new(16.0)), R::of(b * l * D::new(16.0))];
        }
        5 => {
            let f = e.to_cam(dv(pts[0]));
            let s = D::new(g.sign() * g.log(-2.0, 2.0));
            x = R::v(e.to_world(scale(s, f)));
            u = if g.one_in(2) { pu } else { u };
        }
        6 => {
            let mut c = e.to_cam(dv(x));
            c[2] = e.to_cam(dv(pts[0]))[2];
            if g.one_in(2) {
                c[2] = c[2] * nearly(g);
            }
            x = R::v(e.to_world(c));
            if g.one_in(2) {
                // in the camera frame itself
                x[2] = near(g, pts[0][2]);
            }
        }
        7 if i > 2 => {
            let j = g.below(i.min(4));
            x = pts[j];
            u = pix[g.below(i.min(4))];
        }
        _ => {}
    }
    (x, u)
}
fn batch<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let eps = R::EPS;
    let (pcam0, e, p, _) = pcam::<R>(g);
    let op = ortho_params::<R>(g);
    let o = ortho_of(&op);
    let ocam0: OCam<R> = Camera::new(op.into(), pcam0.extrinsics().clone());
    let s: R = distance(g);
    let k = match g.below(20) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 2,
        5..=12 => 3 + g.below(14),
        13..=17 => 1 + g.below(70),
        18 => 100 + g.below(400),
        _ => {
            if g.one_in(12) {
                1000 + g.below(4000)
            } else if g.one_in(6) {
                g.size_word(5000).unwrap_or(1)
            } else {
                90 + g.below(60)
            }
        }
    };
    let hostile = g.one_in(3);
    let mut bad = vec![false; k];
    let mut pts: Vec<[R; 3]> = Vec::with_capacity(k);
    let mut pix: Vec<[R; 2]> = Vec::with_capacity(k);
    let bads = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1e30, 1e-30];
    let how = if g.one_in(2) { g.below(8) } else { 99 };
    if k > 1 {
        r.class(RELATED[how.min(8)]);
    }
    for i in 0..k {
        let (x, u) = related(g, how, &e, &p, &pts, &pix);
        pts.push(x);
        pix.push(u);
        if hostile && g.one_in(3) {
            bad[i] = true;
            for j in 0..3 {
                if g.one_in(2) {
                    pts[i][j] = R::f(bads[g.below(6)]);
                    pix[i][j % 2] = R::f(bads[g.below(6)]);
                }
            }
        }
    }
    if let Some(x) = pts.first() {
        r.input(key(&[x[0], x[1], x[2], s]), k > 1);
    } else {
        r.input(key(&[s, p_any(&pcam0)]), false);
    }
    r.class(match k {
        0 => "no rows",
        1 => "1 row",
        2..=9 => "2-9 rows",
        10..=99 => "10-99 rows",
        100..=999 => "100-999 rows",
        _ => "1000 or more rows",
    });
    if hostile {
        r.class("with rows of NaN, infinities, zeros and extremes");
    }
    // each row alone
    let alone: Vec<Out<R>> = (0..k).map(|i| ops(&pcam0, &ocam0, s, row(pts[i]), row2(pix[i]))).collect();

    let check = |r: &mut Rec, how: &'static str, out: Out<R>, take: &[usize]| {
        r.class(how);
        for (op, rows) in out.iter().enumerate() {
            r.ensure("one row per row", rows.len() == take.len(), || format!("{}: {} rows of {} ({how})", OPS[op], rows.len(), take.len()));
        }
        for (j, &i) in take.iter().enumerate() {
            if bad[i] {
                r.count("rows with hostile values", 1);
                // with infinities and extremes the order of evaluation may matter; NaN just propagates
                let plain = |x: &R| !x.fin() && !(x.d().hi.is_infinite()) || x.d().a() < 1e6 && (x.d().a() == 0.0 || x.d().a() > 1e-9);
                if pts[i].iter().chain(pix[i].iter()).all(plain) && pts[i].iter().chain(pix[i].iter()).any(|x| !x.fin()) {
                    for op in 0..OPS.len() {
                        let (Some(a), b) = (out[op].get(j), alone[i][op][0]) else { continue };
                        let isnan = |x: &R| x.d().is_nan();
                        if (0..3).any(|c| isnan(&b[c])) {
                            r.ensure("a row with NaN is as if alone", (0..3).all(|c| isnan(&a[c]) == isnan(&b[c])), || {
                                format!("{} {}: row {j} of {} ({how}) gave {a:?}, alone {b:?}; point {:?} pixel {:?}", R::NAME, OPS[op], take.len(), pts[i], pix[i])
                            });
                        }
                    }
                }
                continue;
            }
            let mut t = None;
            let mut exact = 0;
            for op in 0..OPS.len() {
                let (Some(a), b) = (out[op].get(j), alone[i][op][0]) else { continue };
                if (0..3).all(|c| a[c].key() == b[c].key()) {
                    exact += 1;
                    continue;
                }
                let t = t.get_or_insert_with(|| tols(&e, &p, &o, s.d().a(), dv(pts[i]), dd2(pix[i]), eps));
                let det = || {
                    format!(
                        "{} {}: row {j} of {} ({how}) gave {a:?}, alone {b:?}; point {:?} pixel {:?} distance {s:?} {pcam0:?} {ocam0:?}",
                        R::NAME,
                        OPS[op],
                        take.len(),
                        pts[i],
                        pix[i]
                    )
                };
                match t[op] {
                    Some(t) if b.iter().all(|x| x.fin()) => {
                        r.check("rows are as if alone (rounded differently)", dist(dv(*a), dv(b)), t, det);
                    }
                    _ => r.inconclusive("rows are as if alone (rounded differently)"),
                }
            }
            if exact > 0 {
                r.ensure("rows are as if alone, bit for bit", true, || String::new());
                r.count("results identical to the row alone", exact);
            }
        }
    };
    let all: Vec<usize> = (0..k).collect();
    // dynamic, owned
    let m3 = dynm3(&pts);
    let m2 = dynm2(&pix);
    check(r, "dynamic, owned", ops(&pcam0, &ocam0, s, m3.clone(), m2.clone()), &all);
    if k > 0 && k < 200 {
        // a view of some rows, within a larger matrix
        let a = g.below(k);
        let l = g.below(k - a + 1);
        let v3 = m3.rows(a, l);
        let v2 = m2.rows(a, l);
        check(r, "dynamic, view of rows", ops(&pcam0, &ocam0, s, v3, v2), &all[a..a + l]);
        // every second or third row
        let st = 1 + g.below(2);
        let l = (k + st) / (st + 1);
        let v3 = m3.rows_with_step(0, l, st);
        let v2 = m2.rows_with_step(0, l, st);
        let t: Vec<usize> = all.iter().copied().step_by(st + 1).collect();
        check(r, "dynamic, view with steps", ops(&pcam0, &ocam0, s, v3, v2), &t[..l]);
        // row-major memory with padding
        let pad = 3 + g.below(3);
        let mut mem3 = vec![R::f(f64::NAN); k * pad];
        let mut mem2 = vec![R::f(f64::NAN); k * pad];
        for i in 0..k {
            for j in 0..3 {
                mem3[i * pad + j] = pts[i][j];
            }
            for j in 0..2 {
                mem2[i * pad + j] = pix[i][j];
            }
        }
        let v3 = MatrixView::<R, Dyn, U3, Dyn, Dyn>::from_slice_with_strides_generic(&mem3, Dyn(k), U3, Dyn(pad), Dyn(1));
        let v2 = MatrixView::<R, Dyn, U2, Dyn, Dyn>::from_slice_with_strides_generic(&mem2, Dyn(k), U2, Dyn(pad), Dyn(1));
        check(r, "dynamic, row-major view", ops(&pcam0, &ocam0, s, v3, v2), &all);
    }
    macro_rules! fixed {
        ($($n:literal)*) => {$(
            if k >= $n && (k < $n + 12 || k == $n) {
                let a = g.below(k - $n + 1);
                let f3 = SMatrix::<R, $n, 3>::from_fn(|i, j| pts[a + i][j]);
                let f2 = SMatrix::<R, $n, 2>::from_fn(|i, j| pix[a + i][j]);
                check(r, "fixed, owned", ops(&pcam0, &ocam0, s, f3, f2), &all[a..a + $n]);
                let v3 = m3.fixed_view::<$n, 3>(a, 0);
                let v2 = m2.fixed_view::<$n, 2>(a, 0);
                check(r, "fixed, view", ops(&pcam0, &ocam0, s, v3, v2), &all[a..a + $n]);
            }
        )*};
    }
    fixed!(1 2 3 4 5 6 7 8 9 10 13 16 17 32 33 64 65 128);
    r.sample(|| format!("{} {k} rows, first {:?} {:?}, {pcam0:?} {ocam0:?}", R::NAME, pts.first(), pix.first()));
}
/// More rows than fit 16 bits; rows alone only for some.
fn huge<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let eps = R::EPS;
    let (pcam, e, p, _) = pcam::<R>(g);
    let op = ortho_params::<R>(g);
    let o = ortho_of(&op);
    let ocam: OCam<R> = Camera::new(op.into(), pcam.extrinsics().clone());
    let s: R = distance(g);
    let k = match g.below(8) {
        0 => 150_000 + g.below(150_000),
        1 | 2 => g.size_word(1_100_000).unwrap_or(0).max(65_600),
        _ => 65_530 + g.below(40_000),
    };
    // a prime number of different rows, so that rows a power of two apart differ
    let m = 997;
    let mut pts: Vec<[R; 3]> = Vec::with_capacity(k);
    let mut pix: Vec<[R; 2]> = Vec::with_capacity(k);
    for i in 0..k {
        if i < m {
            pts.push(world_point(g, &e, false));
            pix.push(pixel(g, [p.cx, p.cy], [p.fx, p.fy]));
        } else {
            pts.push(pts[i - m]);
            pix.push(pix[i - m]);
        }
    }
    r.input(key(&[pts[0][0], pts[0][1], pts[0][2], s]), true);
    r.class("more than 65530 rows");
    let out = ops(&pcam, &ocam, s, dynm3(&pts), dynm2(&pix));
    for (op, rows) in out.iter().enumerate() {
        r.ensure("one row per row", rows.len() == k, || format!("{}: {} rows of {k}", OPS[op], rows.len()));
    }
    let mut look: Vec<usize> = (0..12).chain(k - 12..k).chain(65_530..65_545.min(k)).filter(|i| *i < k).collect();
    for i in 0..1500 {
        look.push(if i % 3 == 0 { 65_536 + g.below(k) } else { g.below(k) } % k);
    }
    for i in look {
        let b = ops(&pcam, &ocam, s, row(pts[i]), row2(pix[i]));
        let t = tols(&e, &p, &o, s.d().a(), dv(pts[i]), dd2(pix[i]), eps);
        for op in 0..OPS.len() {
            let (Some(a), b) = (out[op].get(i), b[op][0]) else { continue };
            if (0..3).all(|c| a[c].key() == b[c].key()) {
                r.count("results identical to the row alone", 1);
                continue;
            }
            match t[op] {
                Some(t) if b.iter().all(|x| x.fin()) => {
                    r.check("rows are as if alone (rounded differently)", dist(dv(*a), dv(b)), t, || {
                        format!("{} {}: row {i} of {k} gave {a:?}, alone {b:?}; {pcam:?} {ocam:?} point {:?} pixel {:?} distance {s:?}", R::NAME, OPS[op], pts[i], pix[i])
                    });
                }
                _ => r.inconclusive("rows are as if alone (rounded differently)"),
            }
        }
    }
}
fn p_any<R: Sc>(p: &PCam<R>) -> R {
    p.intrinsics().fx()
}
fn dynm3<R: Sc>(p: &[[R; 3]]) -> nalgebra::Matrix<R, Dyn, U3, Owned<R, Dyn, U3>> {
    nalgebra::Matrix::from_fn_generic(Dyn(p.len()), Const::<3>, |i, j| p[i][j])
}
fn dynm2<R: Sc>(p: &[[R; 2]]) -> nalgebra::Matrix<R, Dyn, U2, Owned<R, Dyn, U2>> {
    nalgebra::Matrix::from_fn_generic(Dyn(p.len()), Const::<2>, |i, j| p[i][j])
}
fn main() {
    mon::main(Spec {
        id: "C19",
        families: families! { "batch", batch, 3000; "many rows", huge, 1 },
        quick: 300_000,
        rule: "a case is a batch of 0-5000 (in some cases 65530-300000, and more) points and pixels, a third of them with some rows of NaN, infinities, zeros and extremes and half with rows related to one another (at one depth, repeated, nearly repeated, differing in one component, grids), given to 15 operations as owned matrices of static and dynamic size and as views with offsets, steps and row-major strides, and each row given alone; non-trivial with more than one row; distinct by the bits of a row and a distance",
        min_distinct: 20_000,
        assumptions: &["rows with non-finite or extreme values are not compared themselves"],
    })
}
