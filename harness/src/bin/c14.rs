//! C14: degenerate ray sets are reported or resolved, never garbage.
use monitors::prelude::*;
use monitors::rays::*;

fn few<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let k = g.below(2);
    let s: Vec<RR<R>> = (0..k)
        .map(|_| {
            let weird = [R::f(0.0), R::f(f64::NAN), R::f(f64::INFINITY), R::f(1e30), R::f(1e-30)];
            let one = |g: &mut Rng| -> [R; 3] {
                if g.one_in(3) {
                    [weird[g.below(5)], weird[g.below(5)], weird[g.below(5)]]
                } else {
                    vec3(g, R::DEC)
                }
            };
            RR { c: one(g), d: one(g) }
        })
        .collect();
    let id = s.first().map(|x| x.c).unwrap_or([R::f(0.0); 3]);
    r.input(key(&id), k == 1);
    r.class(if k == 0 { "no rays" } else { "one ray" });
    let got = intersect::<R, WorldFrame>(&s);
    r.ensure("fewer than two rays are reported", matches!(got, Err(Error::MinimumTwoRaysNeeded)), || {
        format!("{} {s:?}: {}", R::NAME, got.as_ref().map(|x| format!("{x:?}")).unwrap_or_else(|e| ename(e).to_string()))
    });
}
/// Anything finite with non-zero directions, at any angle.
fn finite<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let k = ray_count(g);
    let axis = dir(g);
    let ang = match g.below(4) {
        0 => 0.0,
        1 => g.log(-17.0, -6.0),
        2 => g.log(-8.0, -2.0),
        _ => g.log(-2.0, 0.0),
    };
    let (cm, dm) = if R::NAME == "f32" { (25.0, 12.0) } else { (60.0, 60.0) };
    let mag = match g.below(3) {
        0 => 0.0,
        1 => g.range(-5.0, 5.0),
        _ => g.range(-cm, cm),
    };
    let lens = match g.below(3) {
        0 => 0.0,
        1 => 2.0,
        _ => dm,
    };
    let same = g.one_in(4);
    let c0: V3 = scale(D::new(10f64.powf(mag)), dir(g));
    let s: Vec<RR<R>> = (0..k)
        .map(|_| {
            let d = unit(add(axis, scale(D::new(ang), dir(g))));
            let l = g.sign() * 10f64.powf(g.range(-1.0, 1.0) * lens);
            let off = 10f64.powf(mag + g.range(-6.0, 0.0));
            let c = if same { c0 } else { add(c0, scale(D::new(off), dir(g))) };
            RR::of(c, scale(D::new(l), d))
        })
        .collect();
    r.input(key(&[s[0].c[0], s[0].c[1], s[0].d[0], s[1].d[0]]), true);
    r.class(if ang == 0.0 {
        "parallel"
    } else if ang < 1e-6 {
        "within 1e-6"
    } else if ang < 1e-2 {
        "within 1e-2"
    } else {
        "wide"
    });
    let det = || format!("{} {k} rays: {:?}", R::NAME, &s[..k.min(6)]);
    r.sample(det);
    match intersect::<R, WorldFrame>(&s) {
        Ok(x) => {
            r.ensure("the intersection is finite", x.iter().all(|a| a.is_finite()), || format!("{x:?} for {}", det()));
        }
        Err(e) => {
            r.ensure("the intersection is a point", false, || format!("{} for {}", ename(&e), det()));
        }
    }
}
/// Parallel rays: the point is as close to them as can be.
fn parallel<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let k = ray_count(g);
    // a direction of the scalar type, with multiples that are exact or rounded
    let d0 = dir(g);
    let exactly = g.one_in(2);
    let base: [R; 3] = R::v(d0);
    let place = g.len(-R::DEC / 3.0, R::DEC / 3.0);
    let o = if g.one_in(3) { [D::ZERO; 3] } else { scale(D::new(place), dir(g)) };
    let size = g.len(-R::DEC / 3.0, R::DEC / 3.0);
    let coincide = g.one_in(6);
    let s: Vec<RR<R>> = (0..k)
        .map(|_| {
            let d = if exactly {
                let l = g.sign() * 2f64.powi(g.below(17) as i32 - 8);
                scale(D::new(l), dv(base))
            } else {
                scale(dirlen::<R>(g) * D::new(g.sign()), d0)
            };
            let along = scale(D::new(g.range(-1.0, 1.0) * size), d0);
            let c = if coincide { add(o, along) } else { add(add(o, scale(D::new(g.log(-3.0, 0.0) * size), dir(g))), along) };
            RR::of(c, d)
        })
        .collect();
    r.input(key(&[s[0].c[0], s[0].c[1], s[0].d[0], s[1].d[0], s[1].c[0]]), true);
    r.class(if exactly { "exactly parallel" } else { "parallel to rounding" });
    let det = || format!("{} {k} parallel rays: {:?}", R::NAME, &s[..k.min(6)]);
    r.sample(det);
    let ex = exact(&s);
    match intersect::<R, WorldFrame>(&s) {
        Err(e) => {
            r.ensure("parallel rays are resolved", false, || format!("{} for {}", ename(&e), det()));
        }
        Ok(x) => {
            r.ensure("parallel rays are resolved", x.iter().all(|a| a.is_finite()), || format!("{x:?} for {}", det()));
            // optimum: the mean of the centres, in the plane perpendicular to the rays
            let u = unit(ex[0].1);
            let mean = scale(D::new(1.0) / D::new(k as f64), ex.iter().fold([D::ZERO; 3], |a, (c, _)| add(a, *c)));
            let e = sub(x, mean);
            let perp = sub(e, scale(dot(e, u), u));
            let m = ex.iter().map(|(c, _)| n(*c)).fold(0.0, f64::max);
            let tol = (4.0 * K + k as f64) * eps_of::<R>() * (m + n(x));
            r.check("parallel rays: the nearest point to all", n(perp), tol, || format!("got {x:?} optimum {mean:?} and along the rays; {}", det()));
        }
    }
}
fn main() {
    mon::main(Spec {
        id: "C14",
        families: families! { "few", few, 1; "finite", finite, 4; "parallel", parallel, 4 },
        quick: 2_500_000,
        rule: "a case is a set of 0 or 1 rays with any values; of 2-4300 finite rays at any angle, with centres and directions over many orders of magnitude; or of 2-4300 rays parallel exactly or to rounding; non-trivial unless there are no rays; distinct by the bits of the first rays",
        min_distinct: 50_000,
        assumptions: &["squared lengths of directions and products of coordinates neither overflow nor underflow"],
    })
}
