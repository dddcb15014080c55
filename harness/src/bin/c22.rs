//! C22: no input makes the library panic, hang or touch memory it must not.
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use monitors::rays::*;
use nalgebra::{Const, Dyn, Matrix};
use std::fmt::Write;
use std::hint::black_box as bb;

/// A hostile value.
fn hv<R: Sc>(g: &mut Rng) -> R {
    let f32ish = R::EPS > 1e-10;
    let big = if f32ish { f32::MAX as f64 } else { f64::MAX };
    let tiny = if f32ish { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    let sub = if f32ish { f32::from_bits(1) as f64 } else { f64::from_bits(1) };
    R::f(match g.below(24) {
        0 | 1 => f64::NAN,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 | 5 => 0.0,
        6 => -0.0,
        7 => big,
        8 => -big,
        9 => tiny,
        10 => g.sign() * sub * (1 + g.below(5)) as f64,
        11 => g.sign() * big.sqrt() * g.log(-2.0, 2.0),
        12 => g.sign() * tiny.sqrt() * g.log(-2.0, 2.0),
        13 => g.sign() * g.log(-300.0, 300.0),
        14 => g.sign() * g.log(-38.0, 38.0),
        15..=17 => g.below(7) as f64 - 3.0,
        18 => 1.0 + g.sign() * R::EPS,
        _ => return coord(g, R::DEC),
    })
}
/// A value by the temper of the case: always tame, sometimes or always hostile.
fn val<R: Sc>(g: &mut Rng, t: usize) -> R {
    match t {
        0 => coord(g, 3.0),
        1 if g.one_in(6) => hv(g),
        1 => coord(g, 3.0),
        _ => hv(g),
    }
}
fn v3<R: Sc>(g: &mut Rng, t: usize) -> [R; 3] {
    match g.below(6) {
        0 if t > 0 => [R::f(0.0); 3],
        1 if t > 0 => {
            let x = hv(g);
            [x, x, x]
        }
        _ => [val(g, t), val(g, t), val(g, t)],
    }
}
fn unitq<R: Sc>(g: &mut Rng, t: usize) -> UnitQuaternion<R> {
    if t > 0 && g.one_in(4) {
        let q = Quaternion::new(val(g, t), val(g, t), val(g, t), val(g, t));
        if g.one_in(2) {
            Unit::new_unchecked(q)
        } else {
            UnitQuaternion::new_normalize(q)
        }
    } else {
        uq(quat(g))
    }
}
fn extr<R: Sc>(g: &mut Rng, t: usize) -> ExtrinsicParameters<R> {
    match g.below(4) {
        0 => {
            let c = v3::<R>(g, t);
            let at = match g.below(4) {
                0 => c,
                _ => v3(g, t),
            };
            let up = match g.below(3) {
                0 => Unit::new_unchecked(vr(v3(g, t))),
                1 => Unit::new_normalize(vr(at) - vr(c)),
                _ => Unit::new_normalize(vr(v3(g, t))),
            };
            ExtrinsicParameters::from_view(&vr(c), &vr(at), &up)
        }
        1 => ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(vr(v3(g, t))), unitq(g, t))),
        _ => ExtrinsicParameters::from_rotation_and_camcenter(unitq(g, t), Point3::from(vr(v3(g, t)))),
    }
}
fn mat34<R: Sc>(g: &mut Rng, t: usize) -> SMatrix<R, 3, 4> {
    let kind = g.below(6);
    let mut m = SMatrix::<R, 3, 4>::from_fn(|_, _| val(g, t));
    match kind {
        0 => {
            for j in 0..4 {
                m[(2, j)] = m[(0, j)] + m[(1, j)];
            }
        }
        1 => {
            let j = g.below(3);
            for i in 0..3 {
                m[(i, j)] = R::f(0.0);
            }
        }
        2 => m = SMatrix::zeros(),
        3 => {
            m = SMatrix::identity();
            m[(g.below(3), g.below(4))] = hv(g);
        }
        _ => {}
    }
    m
}
fn pinh<R: Sc>(g: &mut Rng, t: usize) -> SMatrix<R, 3, 4> {
    let mut m = SMatrix::<R, 3, 4>::identity();
    for (i, j) in [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2)] {
        m[(i, j)] = val(g, t);
    }
    if g.one_in(2) {
        m[(g.below(3), g.below(4))] = hv(g);
    }
    m
}
struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
fn show(x: &dyn std::fmt::Debug) {
    let _ = write!(Null, "{x:?}{x:#?}");
}

fn bundle<R: Sc, B: Kind<R>, N: nalgebra::Dim>(
    g: &mut Rng,
    r: &mut Rec,
    ep: &ExtrinsicParameters<R>,
    b: &OwnedBundle<CameraFrame, B, R, N>,
    t: usize,
) where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<N, U3>,
    nalgebra::storage::Owned<R, N, U3>: Clone + PartialEq,
{
    let w = ep.ray_camera_to_world(b);
    bb(b.point_on_ray());
    let d: R = val(g, t);
    bb(b.point_on_ray_at_distance(d));
    bb(w.point_on_ray());
    bb(w.point_on_ray_at_distance(d));
    bb(w.clone() == w);
    show(&w);
    r.count("operations that returned", 7);
}
fn ops<R: Sc, const N: usize>(g: &mut Rng, r: &mut Rec, t: usize) {
    let ep = extr::<R>(g, t);
    bb((ep.forward(), ep.up(), ep.right()));
    bb(ep.clone() == ep);
    show(&ep);
    let pp = PerspectiveParams { fx: val(g, t), fy: val(g, t), skew: val(g, t), cx: val(g, t), cy: val(g, t) };
    let op = OrthographicParams { sx: val(g, t), sy: val(g, t), cx: val(g, t), cy: val(g, t) };
    let pi: IntrinsicParametersPerspective<R> = pp.into();
    let oi: IntrinsicParametersOrthographic<R> = op.into();
    show(&pi);
    show(&oi);
    let pc = Camera::new(pi.clone(), ep.clone());
    let oc = Camera::new(oi.clone(), ep.clone());
    show(&pc);
    bb(pc.clone() == pc);
    bb(oc.clone() == oc);
    let k = match g.below(5) {
        0 => 0,
        1 => 1,
        _ => g.below(12),
    };
    r.input(key(&[pc.intrinsics().fx(), pc.intrinsics().cx(), ep.camcenter()[0], ep.pose().rotation.w]), t > 0);
    // fixed and dynamic batches
    let f3 = SMatrix::<R, N, 3>::from_fn(|_, _| val(g, t));
    let f2 = SMatrix::<R, N, 2>::from_fn(|_, _| val(g, t));
    let d3 = Matrix::<R, Dyn, U3, _>::from_fn_generic(Dyn(k), U3, |_, _| val(g, t));
    let d2 = Matrix::<R, Dyn, U2, _>::from_fn_generic(Dyn(k), U2, |_, _| val(g, t));
    macro_rules! both {
        ($n:ty, $m3:expr, $m2:expr) => {{
            let (m3, m2) = ($m3, $m2);
            let w = Points::<WorldFrame, R, $n, _>::new(m3.clone());
            let c = Points::<CameraFrame, R, $n, _>::new(m3.clone());
            let p = Pixels::new(m2.clone());
            show(&w);
            bb(ep.world_to_camera(&w));
            bb(ep.camera_to_world(&c));
            bb(pc.world_to_pixel(&w));
            bb(oc.world_to_pixel(&w));
            bb(pi.camera_to_pixel(&c));
            bb(oi.camera_to_pixel(&c));
            let b1 = pc.pixel_to_world(&p);
            let b2 = oc.pixel_to_world(&p);
            bb((b1.point_on_ray(), b2.point_on_ray()));
            let b1 = pi.pixel_to_camera(&p);
            let b2 = oi.pixel_to_camera(&p);
            bundle(g, r, &ep, &b1, t);
            bundle(g, r, &ep, &b2, t);
            let s1: OwnedBundle<CameraFrame, SharedOriginRayBundle<R>, R, $n> = Kind::raw(m3.clone());
            let s2: OwnedBundle<CameraFrame, SharedDirectionRayBundle<R>, R, $n> = Kind::raw(m3.clone());
            bundle(g, r, &ep, &s1, t);
            bundle(g, r, &ep, &s2, t);
            bb(p.clone());
            r.count("operations that returned", 14);
            (b1, b2)
        }};
    }
    let (b1, b2) = both!(Const<N>, f3, f2);
    bb((b1.centers(), b1.directions(), b2.centers(), b2.directions()));
    both!(Dyn, d3, d2);
    let one = pc.pixel_to_world(&px([val(g, t), val(g, t)]));
    let s = one.to_single_ray();
    bb((s.center, s.direction));
    // matrices and linearization
    bb(pc.as_camera_matrix());
    let j = JacobianPerspectiveCache::new(&pc);
    bb(j.linearize_at(&wpt(v3(g, t))));
    match Camera::from_perspective_matrix(&mat34::<R>(g, t)) {
        Ok(c) => {
            r.class("imported");
            show(&c);
            bb(c.as_camera_matrix());
            bb(c.world_to_pixel(&wpt(v3(g, t))));
        }
        Err(e) => {
            r.class("not imported");
            show(&e);
            bb(e.to_string());
        }
    }
    match IntrinsicParametersPerspective::from_normalized_3x4_matrix(pinh::<R>(g, t)) {
        Ok(i) => {
            r.class("pinhole matrix accepted");
            show(&i)
        }
        Err(e) => {
            r.class("pinhole matrix refused");
            show(&e)
        }
    }
    r.count("operations that returned", 20);
    r.ensure("every operation returned", true, || String::new());
    r.sample(|| format!("{} {pc:?} {oi:?}", R::NAME));
}
fn hostile<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let t = g.below(3);
    r.class(["ordinary values", "some hostile values", "hostile values"][t]);
    match g.below(4) {
        0 => ops::<R, 1>(g, r, t),
        1 => ops::<R, 2>(g, r, t),
        2 => ops::<R, 3>(g, r, t),
        _ => ops::<R, 5>(g, r, t),
    }
}
/// Intersections of anything.
fn intersections<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let k = match g.below(40) {
        0 => 200 + g.below(300),
        1..=5 => g.below(2),
        _ => 2 + g.below(8),
    };
    let t = 1 + g.below(2);
    let d0: [R; 3] = v3(g, t);
    let par = g.one_in(3);
    let s: Vec<RR<R>> = (0..k).map(|_| RR { c: v3(g, t), d: if par { d0 } else { v3(g, t) } }).collect();
    r.input(key(&[d0[0], d0[1], d0[2]]), k > 1);
    r.class(match intersect::<R, WorldFrame>(&s) {
        Ok(x) if x.iter().all(|x| x.is_finite()) => "intersection is finite",
        Ok(_) => "intersection is not finite",
        Err(Error::MinimumTwoRaysNeeded) => "two rays needed",
        Err(_) => "intersection refused",
    });
    r.count("operations that returned", 1);
    r.ensure("every operation returned", true, || String::new());
    r.sample(|| format!("{} {k} rays {:?}", R::NAME, s.first()));
}
/// Very many rows or rays: nothing may depend on there being few, least of all the stack.
fn many<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let t = g.below(2);
    let k = if cfg!(miri) { 40 } else { 1_000_000 + g.below(200_000) };
    let few: Vec<[R; 3]> = (0..61).map(|_| v3(g, t)).collect();
    let d: R = val(g, t);
    let ep = extr::<R>(g, t);
    let pi: IntrinsicParametersPerspective<R> =
        PerspectiveParams { fx: val(g, t), fy: val(g, t), skew: val(g, t), cx: val(g, t), cy: val(g, t) }.into();
    let oi: IntrinsicParametersOrthographic<R> = OrthographicParams { sx: val(g, t), sy: val(g, t), cx: val(g, t), cy: val(g, t) }.into();
    let m3 = || Matrix::<R, Dyn, U3, _>::from_fn_generic(Dyn(k), U3, |i, j| few[i % 61][j]);
    let m2 = || Matrix::<R, Dyn, U2, _>::from_fn_generic(Dyn(k), U2, |i, j| few[i % 61][j]);
    let what = g.below(7);
    r.class(["many points", "many pixels, perspective", "many pixels, orthographic", "many rays of one origin", "many rays of one direction", "many rays to intersect", "many equal bundles"][what]);
    r.input(key(&[few[0][0], few[0][1], d, ep.camcenter()[0]]), true);
    match what {
        0 => {
            let w = Points::<WorldFrame, R, Dyn, _>::new(m3());
            let c = ep.world_to_camera(&w);
            bb((pi.camera_to_pixel(&c), oi.camera_to_pixel(&c), ep.camera_to_world(&c)));
        }
        1 => {
            let b = ep.ray_camera_to_world(&pi.pixel_to_camera(&Pixels::new(m2())));
            bb((b.point_on_ray(), b.point_on_ray_at_distance(d)));
        }
        2 => {
            let b = ep.ray_camera_to_world(&oi.pixel_to_camera(&Pixels::new(m2())));
            bb((b.point_on_ray(), b.point_on_ray_at_distance(d)));
        }
        3 => {
            let b: OwnedBundle<CameraFrame, SharedOriginRayBundle<R>, R, Dyn> = Kind::raw(m3());
            bb((b.point_on_ray(), b.point_on_ray_at_distance(d), ep.ray_camera_to_world(&b)));
        }
        4 => {
            let b: OwnedBundle<CameraFrame, SharedDirectionRayBundle<R>, R, Dyn> = Kind::raw(m3());
            bb((b.point_on_ray(), b.point_on_ray_at_distance(d), ep.ray_camera_to_world(&b)));
        }
        5 => {
            let s: Vec<RR<R>> = (0..k).map(|i| RR { c: few[i % 61], d: few[(i + i / 61) % 61] }).collect();
            bb(intersect::<R, WorldFrame>(&s).is_ok());
        }
        _ => {
            let b: OwnedBundle<CameraFrame, SharedOriginRayBundle<R>, R, Dyn> = Kind::raw(m3());
            bb(b.clone() == b);
            show(&Points::<WorldFrame, R, Dyn, _>::new(m3()));
        }
    }
    r.count("rows of very large batches", k as u64);
    r.ensure("every operation returned", true, || String::new());
}
/// Deserialization of arbitrary bytes and of damaged text.
#[cfg(feature = "serde")]
fn garbage<R: Sc + serde::Serialize + serde::de::DeserializeOwned>(g: &mut Rng, r: &mut Rec) {
    let ep = extr::<R>(g, 1);
    let i: IntrinsicParametersPerspective<R> =
        PerspectiveParams { fx: val(g, 1), fy: val(g, 1), skew: val(g, 1), cx: val(g, 1), cy: val(g, 1) }.into();
    let cam = Camera::new(i, ep);
    r.input(key(&[cam.extrinsics().camcenter()[0], cam.intrinsics().fx()]), true);
    type B<R> = OwnedBundle<CameraFrame, SharedOriginRayBundle<R>, R, Const<2>>;
    let b: B<R> = Kind::raw(SMatrix::from_fn(|_, _| val(g, 1)));
    let mut bytes = bincode::serialize(&cam).unwrap_or_default();
    let mut text = serde_json::to_string(&(&cam, &b)).unwrap_or_default().into_bytes();
    for x in [&mut bytes, &mut text] {
        for _ in 0..g.below(6) {
            if x.is_empty() {
                break;
            }
            let at = g.below(x.len());
            match g.below(4) {
                0 => x[at] = g.u64() as u8,
                1 => {
                    x.remove(at);
                }
                2 => {
                    let c = b"{}[],:\"0-.eEnul tr\\"[g.below(19)];
                    x.insert(at, c);
                }
                _ => x.truncate(at),
            }
        }
    }
    if g.one_in(4) {
        bytes = (0..g.below(150)).map(|_| g.u64() as u8).collect();
    }
    let mut got = 0;
    if let Ok(c) = bincode::deserialize::<PCam<R>>(&bytes) {
        show(&c);
        bb(c.world_to_pixel(&wpt(v3(g, 1))));
        got += 1;
    }
    bb(bincode::deserialize::<OCam<R>>(&bytes).is_ok());
    bb(bincode::deserialize::<B<R>>(&bytes).is_ok());
    bb(bincode::deserialize::<ExtrinsicParameters<R>>(&bytes).is_ok());
    if let Ok((c, b)) = serde_json::from_slice::<(PCam<R>, B<R>)>(&text) {
        show(&c);
        show(&b);
        bb(b.point_on_ray());
        got += 1;
    }
    bb(serde_json::from_slice::<OCam<R>>(&text).is_ok());
    r.class(["nothing was deserialized", "one value was deserialized", "two values were deserialized"][got]);
    r.count("operations that returned", 6);
    r.ensure("every operation returned", true, || String::new());
}
fn main() {
    let mut families = families! { "hostile", hostile, 16_000; "intersections", intersections, 12_000; "very many", many, 1 };
    #[cfg(feature = "serde")]
    {
        families.push(Family { name: "garbage f64", weight: 12_000, run: garbage::<f64> });
        families.push(Family { name: "garbage f32", weight: 8_000, run: garbage::<f32> });
    }
    mon::main(Spec {
        id: "C22",
        families,
        quick: 1_500_000,
        rule: "a case is a pass over all public operations with hostile values (NaN, infinities, zeros, subnormal, extreme and ordinary numbers, degenerate parameters, batches of 0-12 rows), an intersection of up to 500 hostile rays, an operation on a million rows or rays, or the deserialization of damaged text and bytes; non-trivial unless all values are ordinary; distinct by the bits of some values",
        min_distinct: 50_000,
        assumptions: &["running out of memory is not considered", "the watchdog allows 40 s of CPU time for a case that takes milliseconds"],
    })
}
