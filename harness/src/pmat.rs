//! 3x4 projection matrices: generator, exact projection and centre, and bounds (C08, C09).
use crate::dd::*;
use crate::gen::*;
use crate::model::*;
use crate::mon::Rec;
use crate::prelude::{dist, placed};
use cam_geom::Points;
use crate::rng::Rng;
use crate::sc::Sc;
use nalgebra::SMatrix;

pub struct Pm {
    pub m: M3,
    pub p4: V3,
    pub inv: M3,
    pub det: f64,
    pub c: V3,
}
fn perm3(c: [&V3; 3]) -> f64 {
    // permanent of absolute values of the matrix with these columns
    let a = |i: usize, j: usize| c[i][j].a();
    a(0, 0) * (a(1, 1) * a(2, 2) + a(1, 2) * a(2, 1))
        + a(0, 1) * (a(1, 0) * a(2, 2) + a(1, 2) * a(2, 0))
        + a(0, 2) * (a(1, 0) * a(2, 1) + a(1, 1) * a(2, 0))
}
impl Pm {
    pub fn new<R: Sc>(x: &SMatrix<R, 3, 4>) -> Pm {
        let mut m = [[D::ZERO; 3]; 3];
        let mut p4 = [D::ZERO; 3];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = x[(i, j)].d();
            }
            p4[i] = x[(i, 3)].d();
        }
        let inv = inv(&m);
        let c = scale(D::new(-1.0), mv(&inv, p4));
        Pm { m, p4, inv, det: det(&m).a(), c }
    }
    pub fn hom(&self, x: V3) -> V3 {
        add(mv(&self.m, x), self.p4)
    }
    /// How near to singular the left block is, whatever the scales of its rows: product of row norms over determinant.
    pub fn relcond(&self) -> f64 {
        let m = &self.m;
        let rows = n(m[0]) * n(m[1]) * n(m[2]) / self.det;
        // also by the determinant's permanent, for methods that expand cofactors
        let cols = perm3([&m[0], &m[1], &m[2]]) / self.det;
        let x = rows.max(cols);
        if x.is_finite() {
            x
        } else {
            f64::INFINITY
        }
    }
    /// Bound of the error of a computed centre: of cofactor expansion and of solving.
    pub fn tol_c(&self, eps: f64) -> f64 {
        let col = |j: usize| -> V3 {
            if j == 3 {
                self.p4
            } else {
                [self.m[0][j], self.m[1][j], self.m[2][j]]
            }
        };
        let c: Vec<V3> = (0..4).map(col).collect();
        let p = [
            perm3([&c[1], &c[2], &c[3]]),
            perm3([&c[0], &c[2], &c[3]]),
            perm3([&c[0], &c[1], &c[3]]),
        ];
        let w = perm3([&c[0], &c[1], &c[2]]);
        let e = (p[0].hypot(p[1]).hypot(p[2]) + w * n(self.c)) / self.det;
        // solving with row-wise backward errors
        let rows: V3 = [0, 1, 2].map(|i| D::new(n(self.m[i]) * n(self.c) + self.p4[i].a()));
        let ai = self.inv.map(|r| r.map(|x| x.abs()));
        K * eps * (e + n(mv(&ai, rows)))
    }
    /// Bounds for the pixel of x by a camera with this matrix, to row-wise backward errors and a centre within dc.
    pub fn tol(&self, x: V3, dc: f64, eps: f64) -> Option<[f64; 2]> {
        let h = self.hom(x);
        let e: Vec<f64> =
            (0..3).map(|i| n(self.m[i]) * (K * eps * (n(x) + n(self.c)) + dc) + K * eps * self.p4[i].a()).collect();
        let w = h[2].a();
        if !(e[2] < 1e-3 * w) {
            return None;
        }
        let f = |i: usize| 1.01 * (e[i] / w + h[i].a() / w * e[2] / w + K * eps * h[i].a() / w);
        Some([f(0), f(1)])
    }
}

/// A finite matrix with a non-singular left block.
pub fn matrix<R: Sc>(g: &mut Rng) -> (SMatrix<R, 3, 4>, &'static str) {
    loop {
        let kind = g.below(8);
        let mut a = [[D::ZERO; 4]; 3];
        let name;
        match kind {
            0..=2 => {
                // camera parts
                name = "camera";
                let p = persp_of(&persp_params::<R>(g));
                let k = p.k();
                let m = rotm(quat(g));
                let c = match g.below(4) {
                    0 => [D::ZERO; 3],
                    _ => dv(vec3::<R>(g, R::DEC / 2.0)),
                };
                let kr = mm(&k, &m);
                let t = mv(&kr, c);
                for i in 0..3 {
                    for j in 0..3 {
                        a[i][j] = kr[i][j];
                    }
                    a[i][3] = -t[i];
                }
            }
            3 => {
                name = "random";
                for r in &mut a {
                    for x in r.iter_mut() {
                        let v = g.normal();
                        *x = rich(g, v);
                    }
                }
            }
            4 => {
                name = "integer";
                for r in &mut a {
                    for x in r.iter_mut() {
                        *x = D::new(g.below(11) as f64 - 5.0);
                    }
                }
            }
            5 => {
                name = "signed permutation";
                let mut p = [0, 1, 2];
                g.shuffle(&mut p);
                for i in 0..3 {
                    a[i][p[i]] = D::new(g.sign() * 2f64.powi(g.below(5) as i32));
                    let t = g.range(-5.0, 5.0);
                    a[i][3] = rich(g, t);
                }
            }
            6 => {
                name = "triangular";
                let upper = g.one_in(2);
                for i in 0..3 {
                    for j in 0..4 {
                        if i == j || j == 3 || (j > i) == upper {
                            let v = g.range(-5.0, 5.0);
                            a[i][j] = rich(g, v);
                        }
                    }
                }
            }
            _ => {
                name = "rows of different scales";
                for r in &mut a {
                    let s = g.log(-3.0, 3.0);
                    for x in r.iter_mut() {
                        let v = g.normal() * s;
                        *x = rich(g, v);
                    }
                }
            }
        }
        // overall scale and sign
        let f32s = R::EPS > 1e-10;
        let s = match g.below(8) {
            6 => D::new(g.sign() * 2f64.powi(g.below(if f32s { 61 } else { 281 }) as i32 - if f32s { 30 } else { 140 })),
            7 => {
                let m = if f32s { 9.0 } else { 40.0 };
                let x = g.sign() * g.log(-m, m);
                rich(g, x)
            }
            0 => D::new(-1.0),
            1 => D::new(g.sign() * 2f64.powi(g.below(20) as i32 - 10)),
            2 => {
                let x = g.sign() * g.log(-3.0, 3.0);
                rich(g, x)
            }
            3 if a[2][3].a() > 1e-3 => {
                let k = if g.one_in(2) { D::ONE } else { nearly(g) };
                k / a[2][3]
            }
            // nearly normalized
            4 => nearly(g),
            _ => D::ONE,
        };
        let m = SMatrix::<R, 3, 4>::from_fn(|i, j| R::of(a[i][j] * s));
        let p = Pm::new(&m);
        // squares and triple products must be representable
        let (lo, hi, l3, h3) = if f32s { (1e-12, 1e12, 1e-28, 1e34) } else { (1e-90, 1e90, 1e-270, 1e270) };
        let sizes = [0, 1, 2].map(|i| (n(p.m[i]), n(p.m[i]).hypot(p.p4[i].a())));
        let col = |j: usize| -> V3 { if j == 3 { p.p4 } else { [p.m[0][j], p.m[1][j], p.m[2][j]] } };
        let w = perm3([&col(0), &col(1), &col(2)]);
        let most = [[1, 2, 3], [0, 2, 3], [0, 1, 3]].iter().map(|c| perm3([&col(c[0]), &col(c[1]), &col(c[2])])).fold(w, f64::max);
        if sizes.iter().any(|(a, b)| !(*a > lo && *b < hi)) || !(w > l3 && most < h3) {
            continue;
        }
        if p.relcond() * R::EPS * K < 1e-1 {
            return (m, name);
        }
    }
}

/// The camera imported from the matrix p is what it should be.
pub fn imported<R: Sc>(g: &mut Rng, r: &mut Rec, p: &Pm, cam: &PCam<R>, det: &dyn Fn() -> String) {
    let eps = R::EPS;
    let i = cam.intrinsics();
    let c = cam.extrinsics().camcenter();
    let cd: V3 = [c[0].d(), c[1].d(), c[2].d()];
    let tc = p.tol_c(eps);
    r.check("the centre is the null vector", dist(cd, p.c), tc, || format!("{cam:?} expected centre {:?}; {}", p.c, det()));
    r.ensure("focal lengths are positive", i.fx().d().hi > 0.0 && i.fy().d().hi > 0.0, || format!("{cam:?}; {}", det()));
    let q = cam.extrinsics().pose().rotation.coords;
    let qn = q[0].d().sq() + q[1].d().sq() + q[2].d().sq() + q[3].d().sq();
    r.check("the rotation is proper", (qn - D::ONE).a(), K * eps, || format!("{cam:?}; {}", det()));
    let rm = cam.extrinsics().rotation();
    let m: M3 = [0, 1, 2].map(|i| [0, 1, 2].map(|j| rm[(i, j)].d()));
    r.check("the rotation matrix has determinant one", (crate::dd::det(&m) - D::ONE).a(), K * eps, || format!("{cam:?}; {}", det()));
    for _ in 0..3 {
        let x: [R; 3] = match g.below(4) {
            0 => vec3(g, R::DEC / 2.0),
            1 => {
                // near the centre
                let d = scale(D::new(g.len), dir(g));
                R::v(add(p.c, d))
            }
            _ => {
                // a point at some pixel and depth
                let mut h = v([g.range(-2.0, 2.0), g.range(-2.0, 2.0), g.sign() * 1.0]);
                let s = [n(p.m[0]), n(p.m[1]), n(p.m[2])];
                for k in 0..3 {
                    h[k] = h[k] * D::new(s[k]);
                }
                let z = g.len(-1.0, 2.0);
                let d = mv(&p.inv, h);
                R::v(add(p.c, scale(D::new(z / n(d).max(1e-300)), d)))
            }
        };
        let xd = dv(x);
        let h = p.hom(xd);
        match p.tol(xd, tc, eps) {
            None => r.inconclusive("projection of the imported camera"),
            Some(t) => {
                let got = placed!(g, 3, x, m => cam.world_to_pixel(&Points::new(m)).data);
                let want = [h[0] / h[2], h[1] / h[2]];
                r.class(if h[2].hi < 0.0 { "negative depth by the matrix" } else { "positive depth by the matrix" });
                for k in 0..2 {
                    r.check("projection of the imported camera", (got[k] - want[k]).a(), t[k], || {
                        format!("point {x:?} got {got:?} expected {want:?} {cam:?}; {}", det())
                    });
                }
            }
        }
    }
}
