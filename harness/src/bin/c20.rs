//! C20: user-defined camera models are used exactly as given.
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use nalgebra::storage::{Owned, Storage};
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, Dim, Dyn, Isometry3, Matrix};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

/// What the model was asked, and said.
#[derive(Default)]
struct Log<R> {
    points: Vec<[R; 3]>,
    pixels_out: Vec<[R; 2]>,
    pixels: Vec<[R; 2]>,
    rays: Vec<(V3, V3)>,
    calls: [u64; 2],
}
#[derive(Clone, Copy, Debug)]
enum Law {
    /// Unrelated to the input, different at every call.
    Scripted,
    /// Equidistant fisheye.
    Fisheye,
    /// Radial distortion.
    Radial,
    /// Pixels are angles.
    Spherical,
    /// Always not a number, or infinite.
    Broken,
}
/// A camera model that keeps a log.
struct Model<R: Sc, B> {
    law: Law,
    seed: u64,
    /// The frame its rays are reported from: a general centre or direction.
    pose: Option<Isometry3<R>>,
    motion: Option<(M3, V3)>,
    log: Rc<RefCell<Log<R>>>,
    _b: PhantomData<B>,
}
impl<R: Sc, B> Clone for Model<R, B> {
    fn clone(&self) -> Self {
        Model { law: self.law, seed: self.seed, pose: self.pose, motion: self.motion, log: self.log.clone(), _b: PhantomData }
    }
}
impl<R: Sc, B> std::fmt::Debug for Model<R, B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Model {:?} seed {} pose {:?}", self.law, self.seed, self.pose)
    }
}
impl<R: Sc, B> Model<R, B> {
    fn project(&self, i: u64, x: [R; 3]) -> [R; 2] {
        let k = R::f(300.0);
        let [x0, y0, z0] = x;
        match self.law {
            Law::Scripted => {
                let mut g = Rng::new(hash(&[self.seed, i]));
                let a = g.sign() * g.log(-10.0, 10.0);
                let b = g.sign() * g.log(-10.0, 10.0);
                [R::of(rich(&mut g, a)), R::of(rich(&mut g, b))]
            }
            Law::Fisheye => {
                let rho = (x0 * x0 + y0 * y0).sqrt();
                let th = rho.atan2(z0);
                let s = if rho > R::f(0.0) { th / rho } else { R::f(0.0) };
                [k * x0 * s, k * y0 * s]
            }
            Law::Radial => {
                let (a, b) = (x0 / z0, y0 / z0);
                let q = R::f(1.0) + R::f(0.2) * (a * a + b * b);
                [k * a * q, k * b * q]
            }
            Law::Spherical => [x0.atan2(z0), y0.atan2((x0 * x0 + z0 * z0).sqrt())],
            Law::Broken => {
                if i % 2 == 0 {
                    [R::f(f64::NAN), R::f(f64::INFINITY)]
                } else {
                    [R::f(0.0), R::f(f64::NAN)]
                }
            }
        }
    }
    fn row(&self, i: u64, uv: [R; 2]) -> [R; 3] {
        let [u, v] = uv;
        match self.law {
            Law::Scripted | Law::Broken => {
                let mut g = Rng::new(hash(&[self.seed, i, 1]));
                bundle_row(&mut g)
            }
            Law::Fisheye | Law::Radial => [u / R::f(300.0), v / R::f(300.0), R::f(1.0)],
            Law::Spherical => [u, v, R::f(0.5)],
        }
    }
}
impl<R: Sc, B: Kind<R>> IntrinsicParameters<R> for Model<R, B> {
    type BundleType = B;
    fn pixel_to_camera<IN, NPTS>(&self, pixels: &Pixels<R, NPTS, IN>) -> RayBundle<CameraFrame, B, R, NPTS, Owned<R, NPTS, U3>>
    where
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        let k = pixels.data.nrows();
        let mut l = self.log.borrow_mut();
        let at = l.calls[1];
        l.calls[1] += k as u64;
        let mut m = OMatrix::<R, NPTS, U3>::zeros_generic(NPTS::from_usize(k), U3);
        for i in 0..k {
            let uv = [pixels.data[(i, 0)], pixels.data[(i, 1)]];
            l.pixels.push(uv);
            let x = self.row(at + i as u64, uv);
            for j in 0..3 {
                m[(i, j)] = x[j];
            }
            let ray = B::ray(dv(x));
            l.rays.push(match &self.motion {
                None => ray,
                Some((r, t)) => (add(mv(r, ray.0), *t), mv(r, ray.1)),
            });
        }
        match self.pose {
            None => B::raw(m),
            Some(iso) => B::plain().to_pose(iso, &m),
        }
    }
    fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        let k = camera.data.nrows();
        let mut l = self.log.borrow_mut();
        let at = l.calls[0];
        l.calls[0] += k as u64;
        let mut m = OMatrix::<R, NPTS, U2>::zeros_generic(NPTS::from_usize(k), U2);
        for i in 0..k {
            let x = [camera.data[(i, 0)], camera.data[(i, 1)], camera.data[(i, 2)]];
            l.points.push(x);
            let p = self.project(at + i as u64, x);
            l.pixels_out.push(p);
            m[(i, 0)] = p[0];
            m[(i, 1)] = p[1];
        }
        Pixels::new(m)
    }
}

fn round<R: Sc, B: Kind<R>, N: Dim>(
    g: &mut Rng,
    r: &mut Rec,
    cam: &Camera<R, Model<R, B>>,
    e: &Ext,
    pts: &[[R; 3]],
    pix: &[[R; 2]],
    dim: N,
    det: &dyn Fn() -> String,
) where
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2> + Allocator<U1, U2>,
{
    let eps = R::EPS;
    let k = pts.len();
    let log = cam.intrinsics().log.clone();
    *log.borrow_mut() = Log::default();
    let m3 = Matrix::<R, N, U3, _>::from_fn_generic(dim, U3, |i, j| pts[i][j]);
    let m2 = Matrix::<R, N, U2, _>::from_fn_generic(dim, U2, |i, j| pix[i][j]);
    // projection: the model gets the camera-frame points, and its answer is the answer
    let out = cam.world_to_pixel(&Points::<WorldFrame, _, _, _>::new(m3));
    {
        let l = log.borrow();
        let n0 = l.points.len();
        r.ensure("the model is given every point", n0 >= k && out.data.nrows() == k, || {
            format!("{} points of {k} were given, {} rows returned; {}", n0, out.data.nrows(), det())
        });
        if n0 < k || out.data.nrows() != k {
            return;
        }
        for i in 0..k {
            let j = n0 - k + i;
            let want = e.to_cam(dv(pts[i]));
            let got = dv(l.points[j]);
            r.check("the model is given camera-frame points", dist(got, want), e.tol_cam(dv(pts[i]), eps), || {
                format!("row {i}: world {:?} was given as {got:?} expected {want:?}; {}", pts[i], det())
            });
            let p = l.pixels_out[j];
            r.ensure("the model's pixels are returned as they are", p[0].key() == out.data[(i, 0)].key() && p[1].key() == out.data[(i, 1)].key(), || {
                format!("row {i}: the model said {p:?}, the camera ({:?}, {:?}); {}", out.data[(i, 0)], out.data[(i, 1)], det())
            });
        }
    }
    // back-projection: the model gets the pixels, and its rays are moved
    let b = cam.pixel_to_world(&Pixels::new(m2));
    let l = log.borrow();
    let n0 = l.pixels.len();
    r.ensure("the model is given every pixel", n0 >= k && b.data.nrows() == k, || {
        format!("{} pixels of {k} were given, {} rows returned; {}", n0, b.data.nrows(), det())
    });
    if n0 < k || b.data.nrows() != k {
        return;
    }
    for i in 0..k {
        let p = l.pixels[n0 - k + i];
        r.ensure("the model is given the pixels as they are", p[0].key() == pix[i][0].key() && p[1].key() == pix[i][1].key(), || {
            format!("row {i}: {:?} was given as {p:?}; {}", pix[i], det())
        });
    }
    let cam_rays: Vec<(V3, V3)> = l.rays[n0 - k..].to_vec();
    let ok = cam_rays.iter().all(|(c, d)| n(*c).is_finite() && n(*d).is_finite() && n(*d) > 1e-6 && n(*d) < 1e9 && n(*c) < 1e9);
    if !ok {
        return r.inconclusive("rays of the model in the world");
    }
    let tm = cam.intrinsics().motion.map(|m| n(m.1)).unwrap_or(0.0);
    let want: Rays = cam_rays.iter().map(|(c, d)| (e.to_world(*c), mtv(&e.r, *d))).collect();
    let dc: Vec<f64> = cam_rays.iter().map(|(c, _)| e.tol_world(*c, eps) + K * eps * (2.0 * n(*c) + 2.0 * tm)).collect();
    let s: R = distance(g);
    points_on(r, &b, &want, s, &dc, 2.0 * K * eps, det);
}
fn any<R: Sc, B: Kind<R>>(g: &mut Rng, r: &mut Rec) {
    let (ep, e, _) = ext::<R>(g);
    let law = [Law::Scripted, Law::Fisheye, Law::Radial, Law::Spherical, Law::Broken][g.below(5)];
    let mo = g.one_in(2).then(|| motion::<R>(g));
    let model: Model<R, B> = Model {
        law,
        seed: g.u64(),
        pose: mo.as_ref().map(|m| m.iso),
        motion: mo.as_ref().map(|m| (m.r, m.t)),
        log: Rc::new(RefCell::new(Log { points: vec![], pixels_out: vec![], pixels: vec![], rays: vec![], calls: [0; 2] })),
        _b: PhantomData,
    };
    r.class(match law {
        Law::Scripted => "scripted",
        Law::Fisheye => "fisheye",
        Law::Radial => "radial",
        Law::Spherical => "spherical",
        Law::Broken => "NaN",
    });
    r.class(B::KIND);
    let cam = Camera::new(model, ep);
    let cam = if g.one_in(4) { cam.clone() } else { cam };
    let k = match g.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 5,
        4 if g.one_in(400) => g.below(3000),
        4 if g.one_in(40) => g.below(300),
        _ => g.below(20),
    };
    let pts: Vec<[R; 3]> = (0..k).map(|_| world_point(g, &e, false)).collect();
    let odd = g.one_in(4);
    let pix: Vec<[R; 2]> = (0..k)
        .map(|_| {
            if odd && g.one_in(2) {
                [R::f([f64::NAN, f64::INFINITY, -0.0, 1e30][g.below(4)]), R::f(1.0)]
            } else {
                pixel(g, [D::new(320.0), D::new(240.0)], [D::new(300.0), D::new(300.0)])
            }
        })
        .collect();
    let id = pts.first().copied().unwrap_or([R::f(0.0); 3]);
    r.input(key(&[id[0], id[1], id[2], cam.extrinsics().camcenter()[0]]), k > 0);
    let c2 = cam.clone();
    let det = move || format!("{} {k} rows {c2:?}", R::NAME);
    r.sample(&det);
    match k {
        1 => round::<R, B, Const<1>>(g, r, &cam, &e, &pts, &pix, Const, &det),
        2 => round::<R, B, Const<2>>(g, r, &cam, &e, &pts, &pix, Const, &det),
        3 => round::<R, B, Const<3>>(g, r, &cam, &e, &pts, &pix, Const, &det),
        5 => round::<R, B, Const<5>>(g, r, &cam, &e, &pts, &pix, Const, &det),
        k => round::<R, B, Dyn>(g, r, &cam, &e, &pts, &pix, Dyn(k), &det),
    }
}
fn model<R: Sc>(g: &mut Rng, r: &mut Rec) {
    if g.one_in(2) {
        any::<R, SharedOriginRayBundle<R>>(g, r)
    } else {
        any::<R, SharedDirectionRayBundle<R>>(g, r)
    }
}
fn main() {
    mon::main(Spec {
        id: "C20",
        families: families! { "model", model, 1 },
        quick: 3_000_000,
        rule: "a case is a camera with a logging user-defined model (scripted, fisheye, radial, spherical or NaN; either bundle type; rays from the origin or from elsewhere in the camera frame) and a batch of 0-19 (at times up to 3000) points and pixels; non-trivial with at least one row; distinct by the bits of a point and of the centre",
        min_distinct: 100_000,
        assumptions: &["bundle types are the two of the crate: users cannot construct bundles of others"],
    })
}
