//! C13: the best intersection minimizes the summed squared distance to all rays.
use monitors::prelude::*;
use monitors::rays::*;

fn best<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let s = ray_set::<R>(g);
    let ex = exact(&s.rays);
    let k = ex.len();
    let sp = spread(&ex);
    let id = s.rays[0];
    let inside = sp >= MIN_ANGLE;
    r.input(key(&[id.c[0], id.c[1], id.d[0], id.d[1], s.rays[1].d[0]]), inside);
    if !inside {
        r.class("too nearly parallel for this property");
        return r.inconclusive("least-squares point");
    }
    r.class(s.class);
    r.class(match k {
        2 => "2 rays",
        3..=9 => "3-9 rays",
        10..=49 => "10-49 rays",
        _ => "50 or more rays",
    });
    let rays = s.rays.clone();
    let det = move || format!("{} {k} rays: {:?}", R::NAME, &rays[..k.min(6)]);
    r.sample(&det);
    let got = if g.one_in(2) { intersect::<R, WorldFrame>(&s.rays) } else { intersect::<R, CameraFrame>(&s.rays) };
    let x = match got {
        Ok(x) => x,
        Err(e) => {
            r.ensure("rays that are not parallel have an intersection", false, || format!("{} for {}", ename(&e), det()));
            return;
        }
    };
    r.ensure("rays that are not parallel have an intersection", true, &det);
    let l = lsq(&ex);
    let tol = lsq_tol(&l, &ex, eps_of::<R>());
    r.check("least-squares point", dist(x, l.x), tol, || format!("got {x:?} expected {:?}; {}", l.x, det()));
    // the statement itself: no larger sum of squared distances than at nearby points or the model's optimum
    let fx = cost(x, &ex).f();
    let slack = l.lmax * tol * tol;
    r.check("cost at the intersection", fx - cost(l.x, &ex).f(), slack + 1e-25 * fx, || format!("got {x:?} expected {:?}; {}", l.x, det()));
    for _ in 0..2 {
        let y = add(x, scale(D::new(g.log(-6.0, 1.0) * (g.len + n(x))), dir(g)));
        let fy = cost(y, &ex).f();
        r.check("cost at the intersection and elsewhere", fx - fy, slack + 1e-25 * fx, || format!("less at {y:?} than at {x:?}; {}", det()));
    }
    if let Some(p) = s.meet {
        r.check("rays through a point intersect there", dist(x, p), tol + meet_tol::<R>(&l, &ex, p), || {
            format!("got {x:?}, they meet at {p:?}; {}", det())
        });
    }
}
fn main() {
    mon::main(Spec {
        id: "C13",
        families: families! { "rays", best, 1 },
        quick: 800_000,
        rule: "a case is a set of 2-4300 rays, skew or through a point, with directions of any length, and the returned point; non-trivial if two rays differ by at least 0.1 degree; distinct by the bits of the first rays",
        min_distinct: 50_000,
        assumptions: &["centres and directions are of moderate size", "rays within about 0.03 degree of each other are treated as parallel by design"],
    })
}
