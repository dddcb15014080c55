//! C10: only normalized pinhole intrinsic matrices are accepted.
use monitors::prelude::*;

fn accept<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let p = persp_params::<R>(g);
    let mut p = p;
    if g.one_in(8) {
        // no restriction on the parameters themselves
        let odd = [R::f(0.0), R::f(1e30), R::f(-1e-30), R::f(1.0), R::f(-0.0), R::f(f64::NAN), R::f(f64::INFINITY), R::f(-1.0)];
        p.skew = g.pick(&odd);
        p.cx = g.pick(&odd);
        p.fx = g.pick(&odd);
        if g.one_in(2) {
            p.cy = g.pick(&odd);
            p.fy = g.pick(&odd);
        }
    }
    let z = R::f(0.0);
    let nz = R::f(-0.0);
    // at times off by the rounding of one operation
    let off = g.one_in(4);
    let e = R::EPS;
    let one = if off { R::of(D::new(1.0) + D::new(g.pick(&[0.0, e, -e / 2.0]))) } else { R::f(1.0) };
    let mut zz = || {
        if off && g.one_in(2) {
            R::f(g.pick(&[e, e / 2.0, e / 3.0, 1e-30, 1e-3 * e]) * 0.99 * g.sign())
        } else if g.one_in(4) {
            nz
        } else {
            z
        }
    };
    #[rustfmt::skip]
    let k = SMatrix::<R, 3, 4>::new(
        p.fx, p.skew, p.cx, zz(),
        zz(), p.fy, p.cy, zz(),
        zz(), zz(), one, zz(),
    );
    r.input(key(&[p.fx, p.fy, p.skew, p.cx, p.cy]), p.skew.d().a() > 0.0);
    let det = || format!("{} {k:?}", R::NAME);
    r.class(if off { "normalized to rounding" } else { "normalized" });
    match IntrinsicParametersPerspective::from_normalized_3x4_matrix(k) {
        Err(e) => {
            let _ = e;
            r.ensure("a normalized matrix is accepted", false, det);
        }
        Ok(i) => {
            r.ensure("a normalized matrix is accepted", true, det);
            let got = [i.fx(), i.fy(), i.skew(), i.cx(), i.cy()];
            let want = [p.fx, p.fy, p.skew, p.cx, p.cy];
            let same = (0..5).all(|j| got[j].key() == want[j].key());
            let nan = want.iter().any(|x| x.d().is_nan());
            r.ensure("the parameters are the entries", same && (nan || *i.params() == p), || format!("{i:?} from {}", det()));
            let j = IntrinsicParametersPerspective::from(p.clone());
            // built from a matrix off by rounding, they may keep that matrix
            r.ensure("equal to intrinsics built from the parameters", i == j || nan || off, || format!("{i:?} and {j:?}"));
            // and behaves like them
            let m = persp_of(&p);
            for _ in 0..2 {
                let x: [R; 3] = R::v(cam_point(g, false));
                let (a, b) = (placed!(g, 3, x, m => i.camera_to_pixel(&Points::new(m)).data), r2(&j.camera_to_pixel(&cpt(x)).data));
                if let Some(t) = m.tol(dv(x), 0.0, R::EPS) {
                    for k in 0..2 {
                        if t[k].is_finite() && b[k].is_finite() {
                            r.check("projects like them", (a[k] - b[k]).a(), t[k], || format!("{x:?} {a:?} {b:?} {}", det()));
                        }
                    }
                }
                let uv: [R; 2] = pixel(g, [m.cx, m.cy], [m.fx, m.fy]);
                let a: V3 = placed_fixed!(g, 2, uv, m => i.pixel_to_camera(&Pixels::new(m)).directions());
                let b = r3(&j.pixel_to_camera(&px(uv)).to_single_ray().direction);
                let t = m.tol_dir(dd2(uv), [0.0; 2], R::EPS);
                if t.is_finite() && b.iter().all(|x| x.is_finite()) {
                    r.check("back-projects like them", dist(a, b), t, || format!("{uv:?} {a:?} {b:?} {}", det()));
                }
            }
            r.sample(det);
        }
    }
}
/// One or more of the seven entries are off, by little or much.
fn reject<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let p = persp_params::<R>(g);
    let z = R::f(0.0);
    #[rustfmt::skip]
    let mut k = SMatrix::<R, 3, 4>::new(
        p.fx, p.skew, p.cx, z,
        z, p.fy, p.cy, z,
        z, z, R::f(1.0), z,
    );
    let at = [(0, 3), (1, 0), (1, 3), (2, 0), (2, 1), (2, 2), (2, 3)];
    let count = if g.one_in(4) { 2 } else { 1 };
    let mut worst = String::new();
    for _ in 0..count {
        let (i, j) = at[g.below(7)];
        let base = if (i, j) == (2, 2) { 1.0 } else { 0.0 };
        let off = match g.below(8) {
            0 => R::f(f64::NAN),
            1 => R::f(f64::INFINITY),
            2 => R::f(f64::NEG_INFINITY),
            3 if base == 1.0 => R::f(g.pick(&[0.0, -1.0, 2.0, 0.5])),
            3 => R::f(g.pick(&[1.0, -1.0, 0.1, 1e-3])),
            // well above rounding
            _ => {
                let d = g.sign() * g.log(R::EPS.log10() + 3.5, if base == 1.0 { -0.5 } else { 3.0 });
                R::of(D::new(base) + D::new(d))
            }
        };
        k[(i, j)] = off;
        worst += &format!("({i},{j})={off:?} ");
        r.class(&format!("off at ({i},{j})"));
    }
    let flat: Vec<R> = k.iter().copied().collect();
    r.input(key(&flat), true);
    let det = || format!("{} {worst} {k:?}", R::NAME);
    match IntrinsicParametersPerspective::from_normalized_3x4_matrix(k) {
        Ok(i) => {
            r.ensure("a matrix that is not normalized is rejected", false, || format!("gave {i:?} {}", det()));
        }
        Err(e) => {
            r.ensure("a matrix that is not normalized is rejected", true, det);
            r.ensure("as invalid input", matches!(e, Error::InvalidInput), det);
        }
    }
    r.sample(det);
}
fn main() {
    mon::main(Spec {
        id: "C10",
        families: families! { "accept", accept, 1; "reject", reject, 2 },
        quick: 16_000_000,
        rule: "a case is a 3x4 intrinsic matrix, normalized exactly or to rounding, or off in one or two of the seven fixed entries by more than 3000 epsilons, NaN or infinity; non-trivial if not normalized or skewed; distinct by the bits of its entries",
        min_distinct: 100_000,
        assumptions: &["deviations between 0 and 3000 epsilons are left unspecified"],
    })
}
