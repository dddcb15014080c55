//! Ray bundles of both kinds, as raw data, posed, or out of a camera, with the rays they must hold.
use crate::prelude::*;
use cam_geom::ray_bundle_types::*;
use nalgebra::{allocator::Allocator, storage::Storage, storage::Owned, DefaultAllocator, Dim, Isometry3, Matrix};

pub type Rays = Vec<(V3, V3)>;

pub trait Kind<R: Sc>: Bundle<R> + Clone + PartialEq + std::fmt::Debug {
    const KIND: &'static str;
    fn raw<F: CoordinateSystem, N: Dim, S: Storage<R, N, U3>>(data: Matrix<R, N, U3, S>) -> RayBundle<F, Self, R, N, S>;
    fn plain() -> Self;
    /// Centre and direction of a row of raw data.
    fn ray(row: V3) -> (V3, V3);
}
impl<R: Sc> Kind<R> for SharedOriginRayBundle<R> {
    const KIND: &'static str = "shared origin";
    fn raw<F: CoordinateSystem, N: Dim, S: Storage<R, N, U3>>(data: Matrix<R, N, U3, S>) -> RayBundle<F, Self, R, N, S> {
        RayBundle::new_shared_zero_origin(data)
    }
    fn plain() -> Self {
        SharedOriginRayBundle::new_shared_zero_origin()
    }
    fn ray(row: V3) -> (V3, V3) {
        ([D::ZERO; 3], row)
    }
}
impl<R: Sc> Kind<R> for SharedDirectionRayBundle<R> {
    const KIND: &'static str = "shared direction";
    fn raw<F: CoordinateSystem, N: Dim, S: Storage<R, N, U3>>(data: Matrix<R, N, U3, S>) -> RayBundle<F, Self, R, N, S> {
        RayBundle::new_shared_plusz_direction(data)
    }
    fn plain() -> Self {
        SharedDirectionRayBundle::new_plusz_shared_direction()
    }
    fn ray(row: V3) -> (V3, V3) {
        (row, [D::ZERO, D::ZERO, D::ONE])
    }
}

/// A row of bundle data, a direction or an origin.
pub fn bundle_row<R: Sc>(g: &mut Rng) -> [R; 3] {
    loop {
        if g.one_in(3) {
            return R::v(scale(dirlen::<R>(g), dir(g)));
        }
        let r: [R; 3] = vec3(g, R::DEC / 2.0);
        let l = n(dv(r)) / g.len;
        if l > 10f64.powf(-R::DEC / 2.0) && l < 10f64.powf(R::DEC / 2.0 + 1.0) {
            return r;
        }
    }
}
/// A rigid motion p -> r * p + t as an isometry, and exactly.
pub struct Motion<R: Sc> {
    pub iso: Isometry3<R>,
    pub r: M3,
    pub t: V3,
}
pub fn motion<R: Sc>(g: &mut Rng) -> Motion<R> {
    let q: UnitQuaternion<R> = uq(quat(g));
    let t: [R; 3] = vec3(g, R::DEC / 2.0);
    Motion { iso: Isometry3::from_parts(Translation3::from(vr(t)), q), r: rot_of(&q), t: dv(t) }
}
impl<R: Sc> Motion<R> {
    pub fn ray(&self, (c, d): (V3, V3)) -> (V3, V3) {
        (add(mv(&self.r, c), self.t), mv(&self.r, d))
    }
}
pub fn rows<R: Sc, N: Dim, S: Storage<R, N, U3>>(m: &Matrix<R, N, U3, S>) -> Vec<V3> {
    (0..m.nrows()).map(|i| [m[(i, 0)].d(), m[(i, 1)].d(), m[(i, 2)].d()]).collect()
}
pub fn rows2<R: Sc, N: Dim, S: Storage<R, N, U2>>(m: &Matrix<R, N, U2, S>) -> Vec<[D; 2]> {
    (0..m.nrows()).map(|i| [m[(i, 0)].d(), m[(i, 1)].d()]).collect()
}

/// Signed distances to ask a bundle for.
pub fn distance<R: Sc>(g: &mut Rng) -> R {
    match g.below(7) {
        0 => R::f(0.0),
        1 => R::f(g.len),
        2 => R::f(-g.len),
        4 => R::of(D::new(g.sign() * g.len) * nearly(g)),
        3 => {
            let x = g.range(-100.0, 100.0) * g.len;
            R::of(rich(g, x))
        }
        _ => {
            let x = g.sign() * g.len(-R::DEC / 2.0, R::DEC / 2.0);
            R::of(rich(g, x))
        }
    }
}

/// Every point a bundle reports against the rays it must hold (known to within dc, and dd relative to their length).
pub fn points_on<F, B, R, N, S>(r: &mut Rec, b: &RayBundle<F, B, R, N, S>, rays: &Rays, s: R, dc: &[f64], dd: f64, det: &dyn Fn() -> String)
where
    F: CoordinateSystem,
    B: Bundle<R>,
    R: Sc,
    N: Dim,
    S: Storage<R, N, U3>,
    DefaultAllocator: Allocator<N, U3>,
{
    let eps = R::EPS;
    let por = rows(&b.point_on_ray().data);
    let pad = rows(&b.point_on_ray_at_distance(s).data);
    r.ensure("number of points on rays", por.len() == rays.len() && pad.len() == rays.len(), || {
        format!("{} and {} points of {} rays; {}", por.len(), pad.len(), rays.len(), det())
    });
    for (i, &(c, d)) in rays.iter().enumerate() {
        let (Some(&p), Some(&q)) = (por.get(i), pad.get(i)) else { return };
        let o = sub(p, c);
        let t = K * eps * (n(c) + n(o)) + dc[i] + dd * n(o);
        let show = |x: V3| format!("row {i}: point {x:?} of the ray from {c:?} along {d:?}; {}", det());
        r.check("a point on the ray is on its line", line_dist(p, c, d), t, || show(p));
        if n(o) > 100.0 * t {
            r.ensure("a point on the ray is on the side of its direction", dot(o, d).f() > 0.0, || show(p));
        } else if n(d) > 1e3 * (dc[i] + K * eps * n(c)) {
            // at the centre: k would not be positive
            r.ensure("a point on the ray is away from its centre", n(o) > 0.0, || show(p));
        } else {
            r.inconclusive("a point on the ray is on the side of its direction");
        }
        let sd = s.d();
        let want = add(c, scale(sd, unit(d)));
        r.check("point at the signed distance", dist(q, want), K * eps * (n(c) + sd.a()) + dc[i] + dd * sd.a(), || {
            format!("distance {sd:?} expected {want:?}; {}", show(q))
        });
    }
}
/// Centres and directions, for sizes known statically.
pub fn parts<F, B, R, N, S>(r: &mut Rec, b: &RayBundle<F, B, R, N, S>, rays: &Rays, dc: &[f64], dd: f64, det: &dyn Fn() -> String)
where
    F: CoordinateSystem,
    B: Bundle<R>,
    R: Sc,
    N: nalgebra::DimName,
    S: Storage<R, N, U3>,
    DefaultAllocator: Allocator<N, U3>,
{
    let c = rows(&b.centers());
    let d = rows(&b.directions());
    for i in 0..rays.len() {
        r.check("centres", dist(c[i], rays[i].0), dc[i], || format!("row {i}: {:?} expected {:?}; {}", c[i], rays[i].0, det()));
        r.check("directions", dist(d[i], rays[i].1), dd * n(rays[i].1), || {
            format!("row {i}: {:?} expected {:?}; {}", d[i], rays[i].1, det())
        });
    }
}
pub type OwnedBundle<F, B, R, N> = RayBundle<F, B, R, N, Owned<R, N, U3>>;
