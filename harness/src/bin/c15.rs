//! C15: the best intersection does not depend on how the rays are presented.
use monitors::bundles::motion;
use monitors::prelude::*;
use monitors::rays::*;

fn meta<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let s = ray_set::<R>(g);
    if s.rays.len() > 60 {
        return;
    }
    let ex = exact(&s.rays);
    let sp = spread(&ex);
    let inside = sp >= MIN_ANGLE;
    let id = s.rays[0];
    r.input(key(&[id.c[0], id.c[1], id.d[0], id.d[1], s.rays[1].d[0]]), inside);
    if !inside {
        return r.inconclusive("presentation");
    }
    let Ok(x) = intersect::<R, WorldFrame>(&s.rays) else {
        r.ensure("an intersection", false, || format!("{:?}", s.rays));
        return;
    };
    let l = lsq(&ex);
    let eps = eps_of::<R>();
    let t0 = lsq_tol(&l, &ex, eps);
    let mut rays = s.rays.clone();
    // applies one or several changes
    let mut mo = None;
    let mut what = String::new();
    for _ in 0..1 + g.below(3) {
        match g.below(6) {
            0 => {
                what += " reordered";
                r.class("reordered");
                g.shuffle(&mut rays);
            }
            1 => {
                what += " reversed";
                r.class("reversed");
                for x in &mut rays {
                    if g.one_in(2) {
                        x.d = x.d.map(|a| -a);
                    }
                }
            }
            2 => {
                what += " rescaled";
                r.class("rescaled");
                for x in &mut rays {
                    let k = rich2::<R>(g);
                    x.d = R::v(scale(k, dv(x.d)));
                }
            }
            3 => {
                what += " slid";
                r.class("slid");
                for x in &mut rays {
                    let k = D::new(g.range(-3.0, 3.0) * (g.len + n(sub(dv(x.c), l.x))));
                    x.c = R::v(add(dv(x.c), scale(k, unit(dv(x.d)))));
                }
            }
            4 => {
                what += " repeated";
                r.class("repeated");
                let k = 1 + g.below(3);
                let one = rays.clone();
                for _ in 0..k {
                    rays.extend_from_slice(&one);
                }
            }
            _ => {
                if mo.is_none() {
                    what += " moved";
                    r.class("moved");
                    let m = motion::<R>(g);
                    for x in &mut rays {
                        let (c, d) = m.ray(x.ex());
                        *x = RR::of(c, d);
                    }
                    mo = Some(m);
                }
            }
        }
        // later changes assume the rays are where they were
        if mo.is_some() {
            break;
        }
    }
    let ex2 = exact(&rays);
    let to = |p: V3| match &mo {
        Some(m) => add(mv(&m.r, p), m.t),
        None => p,
    };
    let Ok(y) = intersect::<R, WorldFrame>(&rays) else {
        r.ensure("an intersection", false, || format!("{what}: {rays:?}"));
        return;
    };
    let l2 = lsq(&ex2);
    // rounding of the changed rays moves the exact optimum by this much
    let moved = dist(l2.x, to(l.x));
    let t1 = lsq_tol(&l2, &ex2, eps);
    let a = &s.rays;
    let det = || format!("{}{what}: {} rays {:?} and {:?}", R::NAME, a.len(), &a[..a.len().min(5)], &rays[..a.len().min(5)]);
    r.sample(det);
    r.check("presentation", dist(y, to(x)), moved + t0 + t1, || format!("{x:?} became {y:?}, expected {:?}; {}", to(x), det()));
}
fn rich2<R: Sc>(g: &mut Rng) -> D {
    let x = g.sign() * g.log(-R::DEC / 3.0, R::DEC / 3.0);
    rich(g, x)
}
fn main() {
    mon::main(Spec {
        id: "C15",
        families: families! { "rays", meta, 1 },
        quick: 1_200_000,
        rule: "a case is a set of 2-60 rays and a changed presentation of the same lines (reordered, reversed, rescaled, slid, repeated, moved, or several of these); non-trivial if two rays differ by at least 0.1 degree; distinct by the bits of the first rays",
        min_distinct: 50_000,
        assumptions: &["centres and directions are of moderate size", "rays within about 0.03 degree of each other are treated as parallel by design"],
    })
}
