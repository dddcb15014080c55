//! C26: the camera-model conformance helper accepts exactly correct models.
use cam_geom::intrinsic_test_utils::roundtrip_intrinsics;
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use nalgebra::storage::{Owned, Storage};
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    /// Nowhere.
    No,
    /// At one pixel: in the ray of the pixel, or in the pixel of the point.
    Ray(i64, i64),
    Pix(i64, i64),
    /// Everywhere off the grid.
    Off,
    /// At every pixel of the grid.
    All,
}
#[derive(Clone, Copy, Debug)]
struct Grid {
    w: usize,
    h: usize,
    step: usize,
    border: usize,
}
impl Grid {
    fn pixels(&self) -> Vec<(i64, i64)> {
        let mut v = Vec::new();
        for y in (self.border..self.h - self.border).step_by(self.step) {
            for x in (self.border..self.w - self.border).step_by(self.step) {
                v.push((x as i64, y as i64));
            }
        }
        v
    }
    fn has(&self, (x, y): (i64, i64)) -> bool {
        let one = |x: i64, n: usize| {
            let b = self.border as i64;
            x >= b && x < n as i64 - b && (x - b) % self.step as i64 == 0
        };
        one(x, self.w) && one(y, self.h)
    }
}
/// The pixels of an image, and some outside.
#[derive(Default)]
struct Asked {
    w: i64,
    bits: Vec<bool>,
    outside: Vec<(i64, i64)>,
}
impl Asked {
    fn new(g: &Grid) -> Asked {
        Asked { w: g.w as i64, bits: vec![false; g.w * g.h], outside: Vec::new() }
    }
    fn put(&mut self, p: (i64, i64)) {
        let i = if p.0 >= 0 && p.1 >= 0 && p.0 < self.w { (p.0 + p.1 * self.w) as usize } else { usize::MAX };
        match self.bits.get_mut(i) {
            Some(b) => *b = true,
            None => self.outside.push(p),
        }
    }
    fn has(&self, p: (i64, i64)) -> bool {
        self.bits[(p.0 + p.1 * self.w) as usize]
    }
    /// A pixel asked for that is not of the grid.
    fn extra(&self, g: &Grid) -> Option<(i64, i64)> {
        let w = self.w;
        let all = self.bits.iter().enumerate().filter(|x| *x.1).map(|(i, _)| (i as i64 % w, i as i64 / w));
        self.outside.first().copied().or_else(|| all.into_iter().find(|p| !g.has(*p)))
    }
}
/// A model that is right, except where it is not.
struct Model<R: Sc, B> {
    grid: Grid,
    at: Where,
    err: [R; 2],
    /// Scale of directions and focal length.
    f: R,
    /// The pixels asked for.
    asked: Rc<RefCell<Asked>>,
    odd: Rc<RefCell<Vec<[R; 2]>>>,
    _b: PhantomData<B>,
}
impl<R: Sc, B> Clone for Model<R, B> {
    fn clone(&self) -> Self {
        Model { grid: self.grid, at: self.at, err: self.err, f: self.f, asked: self.asked.clone(), odd: self.odd.clone(), _b: PhantomData }
    }
}
impl<R: Sc, B> std::fmt::Debug for Model<R, B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "model of {:?} wrong at {:?} by {:?}, focal length {:?}", self.grid, self.at, self.err, self.f)
    }
}
fn nearest<R: Sc>(u: [R; 2]) -> (i64, i64) {
    (u[0].d().f().round() as i64, u[1].d().f().round() as i64)
}
impl<R: Sc, B> Model<R, B> {
    fn off(&self, p: (i64, i64), ray: bool) -> bool {
        match self.at {
            Where::No => false,
            Where::Ray(x, y) => ray && p == (x, y),
            Where::Pix(x, y) => !ray && p == (x, y),
            Where::Off => !ray && !self.grid.has(p),
            Where::All => !ray,
        }
    }
}
impl<R: Sc, B: Kind<R>> IntrinsicParameters<R> for Model<R, B> {
    type BundleType = B;
    fn pixel_to_camera<IN, NPTS>(&self, pixels: &Pixels<R, NPTS, IN>) -> RayBundle<CameraFrame, B, R, NPTS, Owned<R, NPTS, U3>>
    where
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        let k = pixels.data.nrows();
        let mut m = OMatrix::<R, NPTS, U3>::zeros_generic(NPTS::from_usize(k), U3);
        for i in 0..k {
            let mut u = [pixels.data[(i, 0)], pixels.data[(i, 1)]];
            let p = nearest(u);
            if u[0].d().f() == p.0 as f64 && u[1].d().f() == p.1 as f64 {
                self.asked.borrow_mut().put(p);
            } else {
                self.odd.borrow_mut().push(u);
            }
            if self.off(p, true) {
                u = [u[0] + self.err[0], u[1] + self.err[1]];
            }
            let z = if B::KIND == "shared origin" { self.f } else { R::f(0.0) };
            (m[(i, 0)], m[(i, 1)], m[(i, 2)]) = (u[0], u[1], z);
        }
        B::raw(m)
    }
    fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        let k = camera.data.nrows();
        let mut m = OMatrix::<R, NPTS, U2>::zeros_generic(NPTS::from_usize(k), U2);
        for i in 0..k {
            let s = if B::KIND == "shared origin" { self.f / camera.data[(i, 2)] } else { R::f(1.0) };
            let mut u = [camera.data[(i, 0)] * s, camera.data[(i, 1)] * s];
            if self.off(nearest(u), false) {
                u = [u[0] + self.err[0], u[1] + self.err[1]];
            }
            (m[(i, 0)], m[(i, 1)]) = (u[0], u[1]);
        }
        Pixels::new(m)
    }
}
fn size(g: &mut Rng) -> usize {
    match g.below(6) {
        0 => g.below(3),
        1 if g.one_in(20) => 100 + g.below(600),
        1 if g.one_in(40) => 600 + g.below(3500),
        1 if g.one_in(40) => g.size_word(5000).unwrap_or(1),
        1 => 1 + g.below(100),
        _ => 2 + g.below(24),
    }
}
fn case<R: Sc, B: Kind<R>>(g: &mut Rng, r: &mut Rec) {
    if R::EPS > 1e-18 && g.one_in(4000) {
        return whole::<R, B>(g, r);
    }
    let (w, h) = (size(g), size(g));
    grid_of::<R, B>(g, r, w, h, 80_000.0);
}
/// Images of real sizes, at every pixel.
fn whole<R: Sc, B: Kind<R>>(g: &mut Rng, r: &mut Rec) {
    let (w, h) = g.pick(&[(640, 480), (1280, 720), (1280, 1024), (1920, 1080), (2048, 2048), (2592, 1944), (800, 1300), (1, 2_000_000), (1024, 1024)]);
    let (w, h) = if g.one_in(4) { (h, w) } else { (w, h) };
    let most = if R::EPS > 1e-10 { 10_000 } else { usize::MAX };
    grid_of::<R, B>(g, r, w.min(most), h.min(most), 1e7);
}
fn grid_of<R: Sc, B: Kind<R>>(g: &mut Rng, r: &mut Rec, mut w: usize, mut h: usize, most: f64) {
    let whole = most > 1e6;
    if !whole && g.one_in(400) {
        // long and thin
        w = g.below(if R::EPS > 1e-10 { 10_000 } else { 80_000 });
        h = g.below(4);
        if g.one_in(2) {
            (w, h) = (h, w);
        }
    }
    let border = match g.below(3) {
        0 => 0,
        1 if !whole => w.min(h) / 2,
        _ if whole => g.below(w.min(h) / 2 + 1).min(20),
        _ => g.below(w.min(h) / 2 + 1),
    };
    let step = match g.below(4) {
        _ if whole => 1 + g.below(9) / 8,
        0 => 1,
        1 => 1 + g.below(120),
        2 if g.one_in(20) => 100 + g.below(1000),
        _ => 1 + g.below(9),
    };
    // at most some ten thousand pixels, or some million
    let step = step.max(((w * h) as f64 / most).sqrt() as usize);
    let grid = Grid { w, h, step, border };
    let px = grid.pixels();
    // a tolerance well above the rounding of the model
    let least: f64 = if R::EPS > 1e-10 { -2.5 } else { -7.0 };
    let tol = g.log(least.max((100.0 * w.max(h).max(1) as f64 * R::EPS).log10()), -0.6);
    let eps: R = R::of(rich(g, tol));
    let tol = eps.d().f();
    let one = |g: &mut Rng, px: &[(i64, i64)]| -> (i64, i64) {
        match g.below(4) {
            0 => px[0],
            1 => px[px.len() - 1],
            _ => px[g.below(px.len())],
        }
    };
    let (at, k) = match g.below(8) {
        0 => (Where::No, 0.0),
        1 => (Where::Off, if g.one_in(2) { f64::NAN } else { 3.0 }),
        2 => (Where::All, g.range(-0.95, 0.95)),
        3 if !px.is_empty() => (Where::All, g.sign() * g.range(1.05, 3.0)),
        4 | 5 if !px.is_empty() => {
            let (x, y) = one(g, &px);
            let k = match g.below(4) {
                0 => f64::NAN,
                1 => g.sign() * g.range(1.05, 2.0),
                2 => g.sign() * 0.3 / tol.max(1e-9),
                _ => g.sign() * g.range(0.1, 0.95),
            };
            // an error of a third of a pixel or less is not taken for another pixel
            (Where::Pix(x, y), if k.abs() * tol > 0.45 { g.sign() * 0.45 / tol } else { k })
        }
        _ if !px.is_empty() => {
            let (x, y) = one(g, &px);
            let k = match g.below(3) {
                0 => f64::NAN,
                1 => g.sign() * g.range(1.05, 1000.0),
                _ => g.sign() * g.range(0.1, 0.95),
            };
            (Where::Ray(x, y), k)
        }
        _ => (Where::No, 0.0),
    };
    let both = g.below(3);
    let d = R::f(k * tol);
    let z = R::f(0.0);
    let err = [[d, z], [z, d], [d, d]][both];
    let f = R::f(2f64.powi(g.below(12) as i32 - 1));
    let m = Model::<R, B> { grid, at, err, f, asked: Rc::new(RefCell::new(Asked::new(&grid))), odd: Default::default(), _b: PhantomData };
    let good = match at {
        Where::No | Where::Off => true,
        _ => k.abs() < 1.0,
    };
    r.input(hash(&[w as u64, h as u64, border as u64, step as u64, tol.to_bits(), k.to_bits()]), !px.is_empty());
    r.class(match at {
        Where::No => "right",
        Where::Off => "wrong off the grid only",
        Where::All if good => "wrong by less than the tolerance everywhere",
        Where::All => "wrong by more than the tolerance everywhere",
        Where::Pix(..) | Where::Ray(..) if good => "wrong by less than the tolerance at one pixel",
        _ if k.is_nan() => "not a number at one pixel",
        _ => "wrong by more than the tolerance at one pixel",
    });
    if px.is_empty() {
        r.class("empty grid");
    }
    let show = || format!("{} {} {m:?}, tolerance {tol:e}", R::NAME, B::KIND);
    r.sample(show);
    let res = mon::guard(|| roundtrip_intrinsics(&m, w, h, step, border, eps));
    match (&res, good) {
        (Err((loc, e)), true) => {
            r.ensure("a right model is accepted", false, || format!("panic at {loc}: {}; {}", &e[..e.len().min(200)], show()));
        }
        (Ok(()), true) => {
            r.ensure("a right model is accepted", true, String::new);
        }
        (_, false) => {
            r.ensure("a wrong model is refused", res.is_err(), show);
        }
    }
    if good {
        // which pixels it looked at
        let asked = m.asked.borrow();
        let missing = px.iter().find(|p| !asked.has(**p));
        r.ensure("every pixel of the grid is tested", missing.is_none(), || format!("pixel {missing:?} was not; {}", show()));
        let extra = asked.extra(&grid);
        r.ensure("no pixel off the grid is tested", extra.is_none() && m.odd.borrow().is_empty(), || {
            format!("pixel {extra:?} {:?} was; {}", m.odd.borrow().first(), show())
        });
        r.count("pixels tested", px.len() as u64);
    }
}
fn any<R: Sc>(g: &mut Rng, r: &mut Rec) {
    if g.one_in(2) {
        case::<R, SharedOriginRayBundle<R>>(g, r)
    } else {
        case::<R, SharedDirectionRayBundle<R>>(g, r)
    }
}
/// The built-in models, with and without a tolerance they can meet.
fn builtin<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (w, h) = (1 + g.below(40), 1 + g.below(40));
    let (step, border) = (1 + g.below(12), g.below(w.min(h) / 2 + 1));
    let eps = R::EPS;
    let pp = persp_params::<R>(g);
    let p = persp_of(&pp);
    let op = ortho_params::<R>(g);
    let o = ortho_of(&op);
    let grid = Grid { w, h, step, border };
    let (mut tp, mut to) = (0.0f64, 0.0f64);
    for (x, y) in grid.pixels() {
        let uv = [D::new(x as f64), D::new(y as f64)];
        let d = p.dir(uv);
        let td = p.tol_dir(uv, [0.0; 2], eps);
        let s = td + K * eps * n(d);
        // depth one: the error of the ray carries over by the focal lengths
        if let Some(t) = p.tol(d, s, eps) {
            tp = tp.max(t[0]).max(t[1]);
        } else {
            return r.inconclusive("built-in models are accepted");
        }
        let og = o.org(uv);
        let s = o.tol_org(uv, [0.0; 2], eps) + K * eps * n(og);
        let t = o.tol(og, s, eps);
        to = to.max(t[0]).max(t[1]);
    }
    r.input(key(&[pp.fx, pp.cx, op.sx]), true);
    r.class("built-in models");
    let pi: IntrinsicParametersPerspective<R> = pp.clone().into();
    let oi: IntrinsicParametersOrthographic<R> = op.clone().into();
    let a = mon::guard(|| roundtrip_intrinsics(&pi, w, h, step, border, R::f(2.0 * tp)));
    let b = mon::guard(|| roundtrip_intrinsics(&oi, w, h, step, border, R::f(2.0 * to)));
    for x in [a, b] {
        r.ensure("built-in models are accepted", x.is_ok(), || format!("{} {grid:?} {pp:?} {op:?}: {:?}", R::NAME, x.err().map(|e| e.0)));
    }
}
fn main() {
    mon::main(Spec {
        id: "C26",
        families: families! { "models", any, 6; "built-in", builtin, 1 },
        quick: 900_000,
        rule: "a case is a grid (sizes 0-4100, when thin 0-80000, at most some 80000 pixels but now and then whole images of up to 5 million, borders up to half the size, steps 1-1100), a tolerance and a camera model that logs the pixels it is asked for and is right, or wrong by more or less than the tolerance or not a number at one pixel, at all, or only off the grid; or a built-in model; non-trivial if the grid has a pixel; distinct by all numbers of the case",
        min_distinct: 20_000,
        assumptions: &["models are deterministic", "the step is at least one and the borders fit in the size"],
    })
}
