//! Sets of rays for the intersection properties.
use crate::prelude::*;

#[derive(Clone, Copy, Debug)]
pub struct RR<R: Sc> {
    pub c: [R; 3],
    pub d: [R; 3],
}
impl<R: Sc> RR<R> {
    pub fn of(c: V3, d: V3) -> RR<R> {
        RR { c: R::v(c), d: R::v(d) }
    }
    pub fn ex(&self) -> (V3, V3) {
        (dv(self.c), dv(self.d))
    }
    pub fn ray<F: CoordinateSystem>(&self) -> Ray<F, R> {
        Ray::new(row(self.c), row(self.d))
    }
}
pub fn exact<R: Sc>(s: &[RR<R>]) -> Vec<(V3, V3)> {
    s.iter().map(|r| r.ex()).collect()
}
/// The library's answer.
pub fn intersect<R: Sc, F: CoordinateSystem>(s: &[RR<R>]) -> Result<V3, Error> {
    let v: Vec<Ray<F, R>> = s.iter().map(|r| r.ray()).collect();
    best_intersection_of_rays(&v).map(|p| r3(&p.data))
}
pub fn ename(e: &Error) -> &'static str {
    match e {
        Error::InvalidInput => "InvalidInput",
        Error::SvdFailed => "SvdFailed",
        Error::MinimumTwoRaysNeeded => "MinimumTwoRaysNeeded",
        Error::InvalidRotationMatrix => "InvalidRotationMatrix",
        _ => "other",
    }
}
/// Largest angle between two of the lines.
pub fn spread(s: &[(V3, V3)]) -> f64 {
    let mut m = 0.0f64;
    let u: Vec<V3> = s.iter().take(200).map(|x| unit(x.1)).collect();
    // against the first two suffices to within a factor of two; be exact for small sets
    for i in 0..u.len().min(if u.len() > 40 { 3 } else { 40 }) {
        for j in 0..u.len() {
            m = m.max(n(cross(u[i], u[j])).min(1.0).asin());
        }
    }
    m
}
pub const MIN_ANGLE: f64 = 0.1 * std::f64::consts::PI / 180.0;

pub struct Set<R: Sc> {
    pub rays: Vec<RR<R>>,
    /// The point all the rays pass through, before rounding.
    pub meet: Option<V3>,
    pub class: &'static str,
}
pub fn ray_count(g: &mut Rng) -> usize {
    match g.below(16) {
        0..=4 => 2,
        5..=7 => 3,
        8..=10 => 4 + g.below(4),
        11..=14 => 2 + g.below(30),
        _ if g.one_in(25) => 300 + g.below(4000),
        // more than fit 16 bits
        _ if !cfg!(miri) && g.one_in(4000) => 65_537 + g.below(2000),
        _ if g.one_in(25) => g.size_word(5000).unwrap_or(50),
        _ => 50 + g.below(250),
    }
}
/// Rays at least two of which usually differ by more than the least angle.
pub fn ray_set<R: Sc>(g: &mut Rng) -> Set<R> {
    let k = ray_count(g);
    let kind = g.below(10);
    let dec = R::DEC / 3.0;
    let place = g.len(-dec, dec);
    let spreadv = g.len(-1.0, 1.5);
    let origin: V3 = if g.one_in(3) { [D::ZERO; 3] } else { scale(D::new(place), dir(g)) };
    let meets = kind < 4;
    let axis = dir(g);
    let cone = if kind == 3 || kind == 4 { g.log(-2.6, -0.5) } else { 0.0 };
    let shared = dv(R::v(add(origin, scale(D::new(spreadv), dir(g)))));
    let normal = unit(cross(axis, loop_dir(g, axis)));
    let mut rays = Vec::with_capacity(k);
    for i in 0..k {
        // direction
        let mut d = match kind {
            // a narrow cone
            3 | 4 => unit(add(axis, scale(D::new(cone), dir(g)))),
            // in one plane
            2 | 5 => {
                let d = dir(g);
                let d = sub(d, scale(dot(d, normal), normal));
                if n(d) < 1e-3 { axis } else { unit(d) }
            }
            // all but one parallel
            6 => if i == 0 { dir(g) } else { axis },
            // axis-aligned
            7 => {
                let mut a = [D::ZERO; 3];
                a[(i + g.below(2)) % 3] = D::new(g.sign());
                a
            }
            _ => dir(g),
        };
        // centre
        let s = D::new(g.sign() * g.log(-1.5, 1.5) * spreadv);
        let c = if meets {
            sub(origin, scale(s, d))
        } else if kind == 8 {
            // a common centre
            shared
        } else {
            let off = g.log(-3.0, 1.0) * spreadv;
            add(sub(origin, scale(s, d)), scale(D::new(off), dir(g)))
        };
        d = scale(dirlen::<R>(g) * D::new(g.sign()), d);
        rays.push(RR::of(c, d));
    }
    if g.one_in(8) && k > 2 {
        // the same ray again
        let i = g.below(k);
        rays[0] = rays[i];
    } else if g.one_in(8) && k > 2 {
        // nearly the same ray again
        let (i, j) = (g.below(k), g.below(k));
        let (c, d) = rays[i].ex();
        let e = g.log(-16.0, -2.0);
        let c2 = if g.one_in(2) { c } else { add(c, scale(D::new(e * spreadv), dir(g))) };
        let d2 = if g.one_in(2) { d } else { add(d, scale(D::new(e * n(d)), dir(g))) };
        if !meets {
            rays[j] = RR::of(c2, d2);
        }
    }
    Set {
        rays,
        meet: meets.then_some(origin),
        class: [
            "through a point",
            "through a point",
            "through a point, coplanar",
            "through a point, narrow cone",
            "skew, narrow cone",
            "skew, coplanar directions",
            "all but one parallel",
            "along the axes",
            "same centre",
            "skew",
        ][kind],
    }
}
fn loop_dir(g: &mut Rng, a: V3) -> V3 {
    loop {
        let d = dir(g);
        if n(cross(a, d)) > 0.1 {
            return d;
        }
    }
}
/// The precision of intersections: at most double.
pub fn eps_of<R: Sc>() -> f64 {
    R::EPS.max(f64::EPSILON)
}
/// How far the least-squares point may be from `p` because the lines are off `p` by their rounding.
pub fn meet_tol<R: Sc>(l: &Lsq, rays: &[(V3, V3)], p: V3) -> f64 {
    let eps = R::EPS;
    let s: f64 = rays.iter().map(|(c, _)| 2.0 * eps * (n(*c) + n(p) + n(sub(p, *c)))).sum();
    s / l.lmin
}
