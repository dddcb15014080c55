//! C09: the exported camera matrix projects like the camera.
use monitors::pmat::*;
use monitors::prelude::*;

fn export<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (cam, e, p, route) = pcam::<R>(g);
    r.class(route);
    judge(g, r, &cam, &e, &p, &[cam.intrinsics().fx(), cam.intrinsics().cx(), cam.extrinsics().camcenter()[0]]);
}
/// Cameras at or level with the world origin: element (2,3) of the matrix is zero, or nearly.
fn level<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let q = quat(g);
    let uqr: UnitQuaternion<R> = uq(q);
    let m = rot_of(&uqr);
    // a centre in the plane through the origin perpendicular to the viewing direction
    let k = g.below(4);
    let a = g.range(-10.0, 10.0) * g.len;
    let b = g.range(-10.0, 10.0) * g.len;
    let eps = if k == 3 { g.len(-12.0, -3.0) } else { 0.0 };
    let c: [R; 3] = if k == 0 {
        [R::f(0.0); 3]
    } else {
        R::v(mtv(&m, [D::new(a), D::new(b), D::new(eps)]))
    };
    r.class(["at the origin", "level with the origin", "level with the origin", "nearly level"][k]);
    let ep = ExtrinsicParameters::from_rotation_and_camcenter(uqr, Point3::from(vr(c)));
    let (i, p) = persp::<R>(g);
    let cam = Camera::new(i, ep);
    judge(g, r, &cam, &Ext { r: m, c: dv(c) }, &p, &[c[0], c[1], cam.intrinsics().fx()]);
}
fn judge<R: Sc>(g: &mut Rng, r: &mut Rec, cam: &PCam<R>, e: &Ext, p: &Persp, k: &[R]) {
    let eps = R::EPS;
    r.input(key(k), p.sk.a() > 0.0);
    let m = cam.as_camera_matrix();
    let det = || format!("{} {cam:?} matrix {:?}", R::NAME, m);
    if !r.ensure("the matrix is finite", m.iter().all(|x| x.fin()), det) {
        return;
    }
    let pm = Pm::new(&m);
    // projection by the matrix as returned
    for _ in 0..3 {
        let x: [R; 3] = world_point(g, e, false);
        let xd = dv(x);
        let c = e.to_cam(xd);
        let h = pm.hom(xd);
        // rows of K [R | t]: errors relative to the norms of the rows of K times |X| + |C|
        match p.tol(c, e.tol_cam(xd, eps), eps) {
            None => r.inconclusive("projection by the exported matrix"),
            Some(t) => {
                let want = p.pix(c);
                let got = [h[0] / h[2], h[1] / h[2]];
                for i in 0..2 {
                    r.check("projection by the exported matrix", (got[i] - want[i]).a(), 2.0 * t[i], || {
                        format!("point {x:?} got {got:?} expected {want:?} {}", det())
                    });
                }
            }
        }
    }
    // the null vector of the exported matrix: row-wise errors of K R (X - C) through its inverse
    let ki = inv(&p.k());
    let rows = |a: &M3| -> V3 { [0, 1, 2].map(|i| D::new(a[i].iter().map(|x| x.a()).sum::<f64>())) };
    let ka = p.k();
    let er = scale(D::new(K * eps * 2.0 * n(e.c)), rows(&ka));
    let kia = ki.map(|r| r.map(|x| x.abs()));
    let dc = n(mv(&kia, er));
    // products of three entries of the exported matrix must not overflow (C08's domain)
    let big = m.iter().map(|x| x.d().a()).fold(0.0, f64::max);
    if R::NAME == "f32" && big.powi(3) > 1e36 {
        r.class("entries too large to import");
        return r.inconclusive("import of the exported matrix");
    }
    if !(pm.relcond() * eps * K < 1e-2) {
        return r.inconclusive("import of the exported matrix");
    }
    r.check("the null vector of the exported matrix is the centre", dist(pm.c, e.c), dc, || {
        format!("null vector {:?} expected {:?} {}", pm.c, e.c, det())
    });
    match Camera::from_perspective_matrix(&m) {
        Err(_) => {
            r.ensure("the exported matrix can be imported", false, det);
        }
        Ok(cam2) => {
            r.ensure("the exported matrix can be imported", true, det);
            let c2 = cam2.extrinsics().camcenter();
            let c2: V3 = [c2[0].d(), c2[1].d(), c2[2].d()];
            r.check("export and import keep the centre", dist(c2, e.c), dc + pm.tol_c(eps), || format!("imported {cam2:?} from {}", det()));
            imported(g, r, &pm, &cam2, &det);
            // same projection as the original camera
            for _ in 0..2 {
                let x: [R; 3] = world_point(g, e, false);
                let xd = dv(x);
                let c = e.to_cam(xd);
                if let (Some(a), Some(b)) = (p.tol(c, e.tol_cam(xd, eps), eps), pm.tol(xd, pm.tol_c(eps), eps)) {
                    let want = placed!(g, 3, x, m => cam.world_to_pixel(&Points::new(m)).data);
                    let got = placed!(g, 3, x, m => cam2.world_to_pixel(&Points::new(m)).data);
                    for i in 0..2 {
                        r.check("export and import keep the projection", (got[i] - want[i]).a(), 3.0 * a[i] + b[i], || {
                            format!("point {x:?} got {got:?} expected {want:?} imported {cam2:?} from {}", det())
                        });
                    }
                } else {
                    r.inconclusive("export and import keep the projection");
                }
            }
        }
    }
    r.sample(det);
}
fn main() {
    mon::main(Spec {
        id: "C09",
        families: families! { "export", export, 2; "level", level, 1 },
        quick: 2_500_000,
        rule: "a case is a camera (any pose, or at or level with the world origin), its exported matrix, the camera imported from it, and 8 points; non-trivial if skew is not zero; distinct by the bits of some parameters",
        min_distinct: 100_000,
        assumptions: &["the products of parameters, and of three entries of the exported matrix where it is imported, neither overflow nor underflow"],
    })
}
