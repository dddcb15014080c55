//! C23: operations are pure: no dependence on history, sharing or threads.
//!
//! A case is a pool of objects, many of them differing in one respect only, and a list of operations on them.
//! What each operation must give is recorded from objects of its own; then the operations are run again and
//! again, in other orders, on shared objects, on copies, on objects moved or replaced in place, and from
//! several threads at once, and every result is compared bit for bit.
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use monitors::rays::{intersect, RR};
use nalgebra::{Const, Dyn, Matrix};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

/// An object and everything derived from it.
#[derive(Clone)]
struct Obj<R: Sc> {
    p: PCam<R>,
    o: OCam<R>,
    so: OwnedBundle<CameraFrame, SharedOriginRayBundle<R>, R, Const<3>>,
    sd: OwnedBundle<WorldFrame, SharedDirectionRayBundle<R>, R, Const<3>>,
}
/// What an object is made of.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Parts<R: Sc> {
    q: [R; 4],
    c: [R; 3],
    f: [R; 5],
    s: [R; 4],
    /// 0: centre and rotation; 1: pose
    route: usize,
}
fn build<R: Sc>(x: &Parts<R>) -> Obj<R> {
    let q = Unit::new_unchecked(Quaternion::new(x.q[0], x.q[1], x.q[2], x.q[3]));
    let e = match x.route {
        0 => ExtrinsicParameters::from_rotation_and_camcenter(q, Point3::from(vr(x.c))),
        _ => ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(vr(x.c)), q)),
    };
    let p = Camera::new(PerspectiveParams { fx: x.f[0], fy: x.f[1], skew: x.f[2], cx: x.f[3], cy: x.f[4] }.into(), e.clone());
    let o = Camera::new(OrthographicParams { sx: x.s[0], sy: x.s[1], cx: x.s[2], cy: x.s[3] }.into(), e);
    let rows = SMatrix::<R, 3, 3>::from_fn(|i, j| x.c[(i + j) % 3] + x.f[i]);
    let so = RayBundle::new_shared_zero_origin(rows);
    let sd = o.pixel_to_world(&Pixels::new(SMatrix::<R, 3, 2>::from_fn(|i, j| x.f[i + j])));
    Obj { p, o, so, sd }
}
/// Arguments of an operation.
#[derive(Clone, Debug)]
struct Arg<R: Sc> {
    x: [R; 3],
    uv: [R; 2],
    s: R,
    xs: Vec<[R; 3]>,
}
const NOPS: usize = 30;
/// A result, exactly: every NaN is the same.
struct Key(u64);
impl Key {
    fn put<R: Sc>(&mut self, x: R) {
        let k = if x.d().is_nan() { u128::MAX } else { x.key() };
        self.0 = hash(&[self.0, k as u64, (k >> 64) as u64]);
    }
    fn mat<'a, R: Sc>(&mut self, m: impl IntoIterator<Item = &'a R>) {
        for x in m {
            self.put(*x);
        }
    }
    fn text(&mut self, s: &str) {
        for b in s.bytes() {
            self.0 = hash(&[self.0, b as u64]);
        }
    }
}
fn op<R: Sc>(i: usize, z: &Obj<R>, a: &Arg<R>) -> u64 {
    let mut k = Key(i as u64);
    let e = z.p.extrinsics();
    let w = wpt(a.x);
    let c = cpt(a.x);
    let u = px(a.uv);
    let batch = || Matrix::<R, Dyn, U3, _>::from_fn_generic(Dyn(a.xs.len()), Const::<3>, |i, j| a.xs[i][j]);
    match i {
        0 => k.mat(&z.p.world_to_pixel(&w).data),
        1 => k.mat(&z.o.world_to_pixel(&w).data),
        2 => k.mat(&z.p.intrinsics().camera_to_pixel(&c).data),
        3 => k.mat(&z.o.intrinsics().camera_to_pixel(&c).data),
        4 => k.mat(&e.world_to_camera(&w).data),
        5 => k.mat(&e.camera_to_world(&c).data),
        6 => k.mat(&z.p.pixel_to_world(&u).point_on_ray().data),
        7 => k.mat(&z.p.pixel_to_world(&u).point_on_ray_at_distance(a.s).data),
        8 => k.mat(&z.o.pixel_to_world(&u).point_on_ray().data),
        9 => k.mat(&z.o.pixel_to_world(&u).point_on_ray_at_distance(a.s).data),
        10 => k.mat(&z.p.intrinsics().pixel_to_camera(&u).directions()),
        11 => k.mat(&z.o.intrinsics().pixel_to_camera(&u).centers()),
        12 => {
            let r = z.p.pixel_to_world(&u).to_single_ray();
            k.mat(&r.center);
            k.mat(&r.direction);
        }
        13 => {
            k.mat(e.forward().iter());
            k.mat(e.up().iter());
            k.mat(e.right().iter());
        }
        14 => {
            k.mat(e.camcenter().iter());
            k.mat(e.matrix());
            k.mat(e.rotation().matrix());
            k.mat(e.translation().iter());
            k.mat(e.pose().to_homogeneous().iter());
        }
        15 => k.mat(&z.p.as_camera_matrix()),
        16 => {
            // an import of this camera's matrix, and its export
            match PCam::from_perspective_matrix(&z.p.as_camera_matrix()) {
                Ok(p) => {
                    k.mat(&p.world_to_pixel(&w).data);
                    k.mat(p.extrinsics().matrix());
                    k.put(p.intrinsics().skew());
                }
                Err(e) => k.text(&format!("{e:?}")),
            }
        }
        17 => k.mat(&JacobianPerspectiveCache::new(&z.p).linearize_at(&w)),
        18 => {
            let p = z.p.intrinsics();
            for x in [p.fx(), p.fy(), p.skew(), p.cx(), p.cy()] {
                k.put(x);
            }
        }
        19 => k.text(&format!("{:?} {:?} {:?} {:?}", z.p, z.o, z.so, z.sd)),
        20 => k.mat(&z.so.point_on_ray().data),
        21 => k.mat(&z.sd.point_on_ray_at_distance(a.s).data),
        22 => {
            let b = e.ray_camera_to_world(&z.so);
            k.mat(&b.centers());
            k.mat(&b.directions());
            k.mat(&z.sd.centers());
            k.mat(&z.sd.directions());
        }
        23 => k.mat(z.p.world_to_pixel(&Points::<WorldFrame, R, Dyn, _>::new(batch())).data.iter()),
        24 => k.mat(z.o.world_to_pixel(&Points::<WorldFrame, R, Dyn, _>::new(batch())).data.iter()),
        25 => {
            let uv = Matrix::<R, Dyn, U2, _>::from_fn_generic(Dyn(a.xs.len()), Const::<2>, |i, j| a.xs[i][j]);
            k.mat(z.p.pixel_to_world(&Pixels::new(uv)).point_on_ray_at_distance(a.s).data.iter());
        }
        26 => {
            let s: Vec<RR<R>> = a.xs.iter().map(|x| RR { c: *x, d: [x[1] - a.x[0], x[2] - a.x[1], x[0] - a.x[2]] }).collect();
            match intersect::<R, WorldFrame>(&s) {
                Ok(x) => k.mat(&x.map(R::of)),
                Err(e) => k.text(&format!("{e}")),
            }
        }
        27 => {
            let v = ExtrinsicParameters::from_view(&vr(a.x), &e.camcenter().coords, &e.up());
            k.mat(v.matrix());
        }
        28 => {
            k.put(R::f(if z.p == z.p.clone() && z.so == z.so.clone() { 1.0 } else { 0.0 }));
            k.put(R::f(if z.p.extrinsics() == z.o.extrinsics() { 1.0 } else { 0.0 }));
        }
        _ => serial(&mut k, z),
    }
    k.0
}
#[cfg(feature = "serde")]
fn serial<R: Sc>(k: &mut Key, z: &Obj<R>) {
    use std::any::Any;
    // only f32 and f64 can be serialized
    macro_rules! go {
        ($($t:ty)*) => {$(
            if let Some(z) = (z as &dyn Any).downcast_ref::<Obj<$t>>() {
                let s = serde_json::to_string(&(&z.p, &z.o, &z.so)).unwrap_or_default();
                k.text(&s);
                if let Ok((p, _, _)) = serde_json::from_str::<(PCam<$t>, OCam<$t>, serde_json::Value)>(&s) {
                    k.mat(p.extrinsics().matrix());
                    k.mat(&p.as_camera_matrix());
                }
            }
        )*};
    }
    go!(f32 f64);
}
#[cfg(not(feature = "serde"))]
fn serial<R: Sc>(k: &mut Key, z: &Obj<R>) {
    k.mat(z.p.extrinsics().matrix());
}
/// Objects, many differing in one respect only.
fn pool<R: Sc>(g: &mut Rng, n: usize) -> Vec<Parts<R>> {
    let fresh = |g: &mut Rng| -> Parts<R> {
        let q = uq::<R>(quat(g));
        let f = persp_params::<R>(g);
        let s = ortho_params::<R>(g);
        Parts {
            q: [q.w, q.i, q.j, q.k],
            c: vec3(g, R::DEC / 2.0),
            f: [f.fx, f.fy, f.skew, f.cx, f.cy],
            s: [s.sx, s.sy, s.cx, s.cy],
            route: g.below(2),
        }
    };
    let mut v: Vec<Parts<R>> = vec![fresh(g)];
    while v.len() < n {
        let mut x = v[g.below(v.len())];
        let near = |g: &mut Rng, x: R| R::of(x.d() * nearly(g));
        match g.below(14) {
            0 => x = fresh(g),
            // nearly the same, or the same numbers in other places or of other signs
            8 => {
                let i = g.below(3);
                x.c[i] = near(g, x.c[i]);
            }
            9 => {
                let i = g.below(5);
                x.f[i] = near(g, x.f[i]);
            }
            10 => {
                let i = g.below(4);
                x.s[i] = near(g, x.s[i]);
            }
            11 => {
                let (i, j) = (g.below(3), g.below(3));
                x.c.swap(i, j);
                let (i, j) = (3 + g.below(2), 3 + g.below(2));
                x.f.swap(i, j);
                x.f.swap(0, 1);
            }
            12 => {
                let i = g.below(3);
                x.c[i] = -x.c[i];
                let i = g.below(5);
                x.f[i] = -x.f[i];
                x.q = if g.one_in(2) { x.q } else { x.q.map(|q| -q) };
            }
            1 => {
                let q = uq::<R>(quat(g));
                x.q = [q.w, q.i, q.j, q.k];
            }
            2 => x.c = vec3(g, R::DEC / 2.0),
            3 => x.c[g.below(3)] = coord(g, R::DEC / 2.0),
            4 => x.f[2 + g.below(3)] = principal(g),
            5 => x.f[g.below(2)] = focal(g),
            6 => x.s[g.below(2)] = focal(g),
            7 => x.route = 1 - x.route,
            _ => x.s[2 + g.below(2)] = principal(g),
        }
        v.push(x);
    }
    v
}
struct Shared<'a, R: Sc> {
    objs: &'a [Obj<R>],
    args: &'a [Arg<R>],
}
// Whether the objects may be shared between threads is not left to their types: an unsynchronized
// cell in them would be seen as a wrong result here and as a data race by the interpreter.
unsafe impl<R: Sc> Sync for Shared<'_, R> {}
impl<R: Sc> Shared<'_, R> {
    fn run(&self, (i, z, a): (usize, usize, usize)) -> u64 {
        op(i, &self.objs[z], &self.args[a])
    }
}

struct Case<R: Sc> {
    parts: Vec<Parts<R>>,
    args: Vec<Arg<R>>,
    calls: Vec<(usize, usize, usize)>,
    want: Vec<u64>,
}
fn setup<R: Sc>(g: &mut Rng, r: &mut Rec, n: usize) -> Case<R> {
    let m = 2 + g.below(4);
    let parts = pool::<R>(g, m);
    let mut args: Vec<Arg<R>> = Vec::new();
    for _ in 0..1 + g.below(3) {
        let k = g.below(7);
        let mut x = vec3(g, R::DEC / 2.0);
        if let (Some(l), true) = (args.last(), g.one_in(2)) {
            // differing in one coordinate only
            let y: [R; 3] = l.x;
            let j = g.below(3);
            let keep = x[j];
            x = y;
            x[j] = keep;
        }
        let mut a = Arg {
            x,
            uv: [coord(g, 3.0), coord(g, 3.0)],
            s: coord(g, 2.0),
            xs: (0..k).map(|_| vec3(g, R::DEC / 2.0)).collect(),
        };
        if let (Some(l), true) = (args.last(), g.one_in(2)) {
            // nearly as before, or the same in another order, or other in one row
            let l: Arg<R> = l.clone();
            match g.below(5) {
                0 => a.x = l.x.map(|x| R::of(x.d() * nearly(g))),
                1 => a.uv = [l.uv[0], R::of(l.uv[1].d() * nearly(g))],
                2 => {
                    a.xs = l.xs;
                    g.shuffle(&mut a.xs);
                }
                3 => {
                    a.xs = l.xs;
                    if !a.xs.is_empty() {
                        let i = g.below(a.xs.len());
                        a.xs[i] = vec3(g, R::DEC / 2.0);
                    }
                }
                _ => a = Arg { s: a.s, ..l },
            }
        }
        args.push(a);
    }
    if g.one_in(4) {
        let i = g.below(args.len());
        args[i].x[g.below(3)] = R::f(f64::NAN);
    }
    let mut calls: Vec<(usize, usize, usize)> = Vec::new();
    // neighbouring calls often share operation and argument, or object
    while calls.len() < n {
        let (mut i, mut z, mut a) = (g.below(NOPS), g.below(m), g.below(args.len()));
        if let Some(l) = calls.last() {
            match g.below(3) {
                0 => (i, a) = (l.0, l.2),
                1 => z = l.1,
                _ => {}
            }
        }
        i = i.min(NOPS - 1);
        z = z.min(m - 1);
        a = a.min(args.len() - 1);
        calls.push((i, z, a));
    }
    let want: Vec<u64> = calls.iter().map(|&(i, z, a)| op(i, &build(&parts[z]), &args[a])).collect();
    r.input(hash(&[key(&[parts[0].q[0], parts[0].c[0], parts[0].f[0]]), n as u64, hash(&want)]), true);
    Case { parts, args, calls, want }
}
impl<R: Sc> Case<R> {
    fn show(&self, i: usize) -> String {
        let (o, z, a) = self.calls[i];
        format!("{}: operation {o} of {:?} with {:?}", R::NAME, self.parts[z], self.args[a])
    }
    fn check(&self, r: &mut Rec, name: &'static str, i: usize, got: u64) {
        r.ensure(name, got == self.want[i], || format!("another result than before; {}", self.show(i)));
        r.count("calls compared", 1);
    }
}
/// One thread, many orders.
fn history<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let n = if cfg!(miri) { 10 } else { 20 + g.below(60) };
    let c = setup::<R>(g, r, n);
    let mut objs: Vec<Obj<R>> = c.parts.iter().map(build).collect();
    let mut before = Key(0);
    for o in &objs {
        before.text(&format!("{:?} {:?} {:?} {:?}", o.p, o.o, o.so, o.sd));
    }
    let mut order: Vec<usize> = (0..n).collect();
    let s = Shared { objs: &objs, args: &c.args };
    for i in order.iter().copied() {
        let got = s.run(c.calls[i]);
        c.check(r, "same on shared objects", i, got);
    }
    for _ in 0..2 {
        g.shuffle(&mut order);
        for &i in &order {
            let got = s.run(c.calls[i]);
            c.check(r, "same in another order", i, got);
            if g.one_in(8) {
                let got = s.run(c.calls[i]);
                c.check(r, "same when repeated", i, got);
            }
        }
    }
    let mut after = Key(0);
    for o in &objs {
        after.text(&format!("{:?} {:?} {:?} {:?}", o.p, o.o, o.so, o.sd));
    }
    r.ensure("objects are unchanged", before.0 == after.0 && c.parts.iter().zip(&objs).all(|(p, o)| same(&build(p), o)), || {
        format!("{:?}", c.parts)
    });
    // objects come and go at one place in memory
    let mut place = Box::new(objs[0].clone());
    for &i in order.iter().take(n / 2) {
        let (o, z, a) = c.calls[i];
        match g.below(3) {
            0 => *place = build(&c.parts[z]),
            1 => *place = objs[z].clone(),
            _ => std::mem::swap(&mut *place, &mut objs[z]),
        }
        let got = op(o, &place, &c.args[a]);
        c.check(r, "same for objects replaced in place", i, got);
        objs[z] = (*place).clone();
    }
    // each derived state from a copy of a copy, with a use in between
    let copies: Vec<Obj<R>> = objs.iter().map(|o| o.clone()).collect();
    drop(objs);
    let s = Shared { objs: &copies, args: &c.args };
    g.shuffle(&mut order);
    for &i in order.iter().take(n / 2) {
        let got = s.run(c.calls[i]);
        c.check(r, "same on copies", i, got);
    }
    r.class("one thread");
    r.sample(|| format!("{} {n} calls on {} objects: {:?} {:?}", R::NAME, c.parts.len(), &c.calls[..6], c.parts));
}
fn same<R: Sc>(a: &Obj<R>, b: &Obj<R>) -> bool {
    a.p == b.p && a.o == b.o && a.so == b.so && a.sd == b.sd
}
/// The Jacobian cache and rays of one object, used in turns with those of others.
fn derived<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let m = 2 + g.below(4);
    let parts = pool::<R>(g, m);
    r.input(key(&[parts[0].q[0], parts[0].c[0], parts[0].f[0]]), true);
    r.class("derived objects");
    let objs: Vec<Obj<R>> = parts.iter().map(build).collect();
    let pts: Vec<[R; 3]> = (0..4).map(|_| vec3(g, R::DEC / 2.0)).collect();
    let mat = |x: &SMatrix<R, 2, 3>| {
        let mut k = Key(0);
        k.mat(x);
        k.0
    };
    let want: Vec<Vec<u64>> =
        objs.iter().map(|o| pts.iter().map(|x| mat(&JacobianPerspectiveCache::new(&o.p).linearize_at(&wpt(*x)))).collect()).collect();
    let js: Vec<_> = objs.iter().map(|o| JacobianPerspectiveCache::new(&o.p)).collect();
    let bs: Vec<_> = objs.iter().map(|o| o.p.pixel_to_world(&px([o.p.intrinsics().cx(), pts[0][0]]))).collect();
    let s: R = distance(g);
    let at = |b: &OwnedBundle<WorldFrame, SharedOriginRayBundle<R>, R, U1>| {
        let mut k = Key(0);
        k.mat(&b.point_on_ray().data);
        k.mat(&b.point_on_ray_at_distance(s).data);
        k.0
    };
    let bwant: Vec<u64> = bs.iter().map(at).collect();
    drop(objs);
    for _ in 0..30 {
        let (i, j) = (g.below(m), g.below(4));
        r.ensure("same Jacobian whatever happened before", mat(&js[i].linearize_at(&wpt(pts[j]))) == want[i][j], || {
            format!("{} {:?} at {:?}", R::NAME, parts[i], pts[j])
        });
        r.ensure("same ray points whatever happened before", at(&bs[i]) == bwant[i], || format!("{} {:?}", R::NAME, parts[i]));
        r.count("calls compared", 3);
    }
}
static TICKET: AtomicU64 = AtomicU64::new(0);
/// Several threads sharing the objects.
fn threads<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let n = if cfg!(miri) { 10 } else { 24 + g.below(40) };
    let c = setup::<R>(g, r, n);
    let objs: Vec<Obj<R>> = c.parts.iter().map(build).collect();
    let s = Shared { objs: &objs, args: &c.args };
    let k = 2 + g.below(3);
    let rounds = if cfg!(miri) { 1 } else { 4 };
    let seeds: Vec<u64> = (0..k).map(|_| g.u64()).collect();
    let ready = AtomicUsize::new(0);
    let (s, ready, c) = (&s, &ready, &c);
    // per thread: (ticket before, ticket after, call, result)
    let logs: Vec<Vec<(u64, u64, usize, u64)>> = std::thread::scope(|t| {
        let h: Vec<_> = seeds
            .iter()
            .map(|seed| {
                t.spawn(move || {
                    let mut g = Rng::new(*seed);
                    let mut order: Vec<usize> = (0..n).collect();
                    let mut log = Vec::with_capacity(n * rounds);
                    ready.fetch_add(1, SeqCst);
                    while ready.load(SeqCst) < k {
                        std::thread::yield_now();
                    }
                    for _ in 0..rounds {
                        g.shuffle(&mut order);
                        for &i in &order {
                            let a = TICKET.fetch_add(1, SeqCst);
                            let x = s.run(c.calls[i]);
                            let b = TICKET.fetch_add(1, SeqCst);
                            log.push((a, b, i, x));
                            if g.one_in(16) {
                                std::thread::yield_now();
                            }
                        }
                    }
                    log
                })
            })
            .collect();
        // A panic in the crate ends a thread: it is passed on as the panic of this case.
        h.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    let mut ev: Vec<(u64, u64, usize)> = Vec::new();
    for (t, l) in logs.iter().enumerate() {
        for &(a, b, i, x) in l {
            c.check(r, "same from several threads", i, x);
            ev.push((a, b, t));
        }
    }
    ev.sort();
    let (mut last, mut over, mut inter) = (0, 0, 0u64);
    for (a, b, t) in &ev {
        if *a < last {
            over += 1;
        }
        last = last.max(*b);
        inter = hash(&[inter, *t as u64]);
    }
    let copy: Vec<Obj<R>> = c.parts.iter().map(build).collect();
    r.ensure("objects are unchanged", objs.iter().zip(&copy).all(|(a, b)| same(a, b)), || format!("{:?}", c.parts));
    r.count("calls overlapping one of another thread", over);
    r.count("histories with several threads", 1);
    r.input(inter, over > 0);
    r.class(match k {
        2 => "2 threads",
        3 => "3 threads",
        _ => "4 threads",
    });
}
fn main() {
    mon::main(Spec {
        id: "C23",
        families: families! { "history", history, 4; "derived", derived, 1; "threads", threads, 1 },
        quick: 120_000,
        rule: "a case is a history of 20-80 distinct calls of 30 operations on a pool of 2-5 objects differing in a few parameters, run first each on objects of its own and then in several orders on shared, copied and replaced objects or from 2-4 threads at once; non-trivial if calls of several threads overlapped, or one thread made all calls; distinct by the bits of the results and by the order of calls between threads",
        min_distinct: 5_000,
        assumptions: &["the interleavings are those that the scheduler of this machine and of the interpreter produced"],
    })
}
