//! The reference model: the geometry as the properties state it, in double-double, with forward error bounds.
//!
//! A bound is `K * eps` times the magnitudes of the terms a result is made of, with the conditioning of the
//! input, and does not assume an order of evaluation.  `None` means that rounding alone may make the result
//! meaningless: no verdict.
use crate::dd::*;

/// Allowance in units of the scalar's epsilon.  The crate as it is uses a few of them.
pub const K: f64 = 48.0;

/// Rigid motion from world to camera: r * (x - c).
#[derive(Clone, Copy, Debug)]
pub struct Ext {
    pub r: M3,
    pub c: V3,
}
impl Ext {
    pub fn to_cam(&self, x: V3) -> V3 {
        mv(&self.r, sub(x, self.c))
    }
    pub fn to_world(&self, p: V3) -> V3 {
        add(mtv(&self.r, p), self.c)
    }
    /// Bound of the distance between the computed and the exact camera coordinates of x.
    pub fn tol_cam(&self, x: V3, eps: f64) -> f64 {
        K * eps * (n(x) + n(self.c))
    }
    /// Bound for world coordinates of the camera-frame point p.
    pub fn tol_world(&self, p: V3, eps: f64) -> f64 {
        K * eps * (n(p) + n(self.c))
    }
    pub fn fwd(&self) -> V3 {
        self.r[2]
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Persp {
    pub fx: D,
    pub fy: D,
    pub sk: D,
    pub cx: D,
    pub cy: D,
}
impl Persp {
    pub fn pix(&self, p: V3) -> [D; 2] {
        [
            (self.fx * p[0] + self.sk * p[1]) / p[2] + self.cx,
            self.fy * p[1] / p[2] + self.cy,
        ]
    }
    /// Bounds for the pixel of a camera-frame point known to within `delta`.
    pub fn tol(&self, p: V3, delta: f64, eps: f64) -> Option<[f64; 2]> {
        let z = p[2].a();
        let (fx, fy, sk, cx, cy) = (self.fx.a(), self.fy.a(), self.sk.a(), self.cx.a(), self.cy.a());
        if !(delta < 1e-3 * z) {
            return None;
        }
        let nu = fx * p[0].a() + sk * p[1].a();
        let nv = fy * p[1].a();
        let tu = (fx + sk + cx) * delta / z + nu * delta / (z * z) + K * eps * (nu / z + cx);
        let tv = (fy + cy) * delta / z + nv * delta / (z * z) + K * eps * (nv / z + cy);
        Some([1.01 * tu, 1.01 * tv])
    }
    /// Direction, in the camera frame, of the ray of a pixel.
    pub fn dir(&self, uv: [D; 2]) -> V3 {
        let y = (uv[1] - self.cy) / self.fy;
        [(uv[0] - self.sk * y - self.cx) / self.fx, y, D::ONE]
    }
    /// Bound of the error of `dir` (as a vector) for a pixel known to within `duv`.
    pub fn tol_dir(&self, uv: [D; 2], duv: [f64; 2], eps: f64) -> f64 {
        let d = self.dir(uv);
        let (fx, fy, sk) = (self.fx.a(), self.fy.a(), self.sk.a());
        let ey = (K * eps * (uv[1].a() + self.cy.a()) + duv[1]) / fy + K * eps * d[1].a();
        let ex = (K * eps * (uv[0].a() + self.cx.a() + sk * d[1].a()) + duv[0] + sk * ey) / fx + K * eps * d[0].a();
        ex.hypot(ey) + K * eps * n(d)
    }
    pub fn k(&self) -> M3 {
        [
            [self.fx, self.sk, self.cx],
            [D::ZERO, self.fy, self.cy],
            [D::ZERO, D::ZERO, D::ONE],
        ]
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Orth {
    pub sx: D,
    pub sy: D,
    pub cx: D,
    pub cy: D,
}
impl Orth {
    pub fn pix(&self, p: V3) -> [D; 2] {
        [self.sx * p[0] + self.cx, self.sy * p[1] + self.cy]
    }
    pub fn tol(&self, p: V3, delta: f64, eps: f64) -> [f64; 2] {
        let f = |s: D, x: D, c: D| s.a() * delta + K * eps * (s.a() * x.a() + c.a());
        [f(self.sx, p[0], self.cx), f(self.sy, p[1], self.cy)]
    }
    /// Origin, in the camera frame, of the ray of a pixel.
    pub fn org(&self, uv: [D; 2]) -> V3 {
        [(uv[0] - self.cx) / self.sx, (uv[1] - self.cy) / self.sy, D::ZERO]
    }
    pub fn tol_org(&self, uv: [D; 2], duv: [f64; 2], eps: f64) -> f64 {
        let o = self.org(uv);
        let f = |s: D, u: D, c: D, du: f64, x: D| (K * eps * (u.a() + c.a()) + du) / s.a() + K * eps * x.a();
        f(self.sx, uv[0], self.cx, duv[0], o[0]).hypot(f(self.sy, uv[1], self.cy, duv[1], o[1]))
    }
}

/// Distance from point x to the line through c along d.
pub fn line_dist(x: V3, c: V3, d: V3) -> f64 {
    let d = unit(d);
    n(cross(sub(x, c), d))
}

/// Least-squares intersection of lines.
#[derive(Clone, Debug)]
pub struct Lsq {
    /// Sum of I - d d^T.
    pub s: M3,
    pub x: V3,
    /// Largest and smallest eigenvalue of s.
    pub lmax: f64,
    pub lmin: f64,
}
/// Eigenvalues of a symmetric 3x3 matrix (Jacobi), ascending.
pub fn eig3(m: &M3) -> [f64; 3] {
    let mut a = [[0.0; 3]; 3];
    // jacobi in double-double would be better for tiny eigenvalues; do it there
    let mut b = *m;
    for _ in 0..12 {
        for (p, q) in [(0, 1), (0, 2), (1, 2)] {
            if b[p][q].a() == 0.0 {
                continue;
            }
            let theta = (b[q][q] - b[p][p]) / (D::new(2.0) * b[p][q]);
            let t = {
                let s = if theta.hi >= 0.0 { D::ONE } else { -D::ONE };
                s / (theta.abs() + (theta * theta + D::ONE).sqrt())
            };
            let c = D::ONE / (t * t + D::ONE).sqrt();
            let s = t * c;
            let mut j = [[D::ZERO; 3]; 3];
            for i in 0..3 {
                j[i][i] = D::ONE;
            }
            j[p][p] = c;
            j[q][q] = c;
            j[p][q] = s;
            j[q][p] = -s;
            b = mm(&mm(&mt(&j), &b), &j);
            b[p][q] = D::ZERO;
            b[q][p] = D::ZERO;
        }
    }
    for i in 0..3 {
        a[0][i] = b[i][i].f();
    }
    let mut e = a[0];
    e.sort_by(|x, y| x.partial_cmp(y).unwrap_or(std::cmp::Ordering::Equal));
    e
}
pub fn lsq(rays: &[(V3, V3)]) -> Lsq {
    let mut s = [[D::ZERO; 3]; 3];
    let mut rhs = [D::ZERO; 3];
    // relative to the first centre, to lose nothing to cancellation
    let o = rays[0].0;
    for (c, d) in rays {
        let d = unit(*d);
        let c = sub(*c, o);
        let k = dot(d, c);
        for i in 0..3 {
            for j in 0..3 {
                s[i][j] -= d[i] * d[j];
            }
            s[i][i] += D::ONE;
            rhs[i] += c[i] - k * d[i];
        }
    }
    let e = eig3(&s);
    let x = add(mv(&inv(&s), rhs), o);
    Lsq { s, x, lmax: e[2], lmin: e[0] }
}
/// Sum of squared distances of x to the lines.
pub fn cost(x: V3, rays: &[(V3, V3)]) -> D {
    let mut t = D::ZERO;
    for (c, d) in rays {
        let p = cross(sub(x, *c), unit(*d));
        t += dot(p, p);
    }
    t
}
/// Bound of the error of the intersection computed at precision `eps`.
pub fn lsq_tol(l: &Lsq, rays: &[(V3, V3)], eps: f64) -> f64 {
    let m = rays.iter().map(|(c, _)| n(*c)).fold(0.0, f64::max);
    // the crate as it is needs less than two of these units
    (16.0 + rays.len() as f64) * eps * (l.lmax / l.lmin) * (m + n(l.x))
}
/// Exact derivative and bounds of the two rows; None where rounding may decide the sign of the depth.
pub fn derivative(e: &Ext, p: &Persp, x: V3, eps: f64) -> ([V3; 2], Option<[f64; 2]>) {
    let c = e.to_cam(x);
    let z = c[2];
    let zi = D::ONE / z;
    let nu = p.fx * c[0] + p.sk * c[1];
    let nv = p.fy * c[1];
    let row = |a: D, b: D, num: D| -> V3 {
        [0, 1, 2].map(|j| (a * e.r[0][j] + b * e.r[1][j]) * zi - num * e.r[2][j] * zi * zi)
    };
    let j = [row(p.fx, p.sk, nu), row(D::ZERO, p.fy, nv)];
    let d = e.tol_cam(x, eps);
    let az = z.a();
    if !(d < 1e-3 * az) {
        return (j, None);
    }
    let t = |a: f64, num: f64| (a / az + num / (az * az)) * (K * eps + 3.0 * d / az) + a * d / (az * az);
    let (fx, fy, sk, cx, cy) = (p.fx.a(), p.fy.a(), p.sk.a(), p.cx.a(), p.cy.a());
    let tol = [
        t(fx + sk + cx, fx * c[0].a() + sk * c[1].a() + cx * az),
        t(fy + cy, fy * c[1].a() + cy * az),
    ];
    (j, Some(tol))
}
