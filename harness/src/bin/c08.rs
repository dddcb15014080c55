//! C08: a camera imported from a 3x4 matrix projects like the matrix.
use monitors::prelude::*;
use monitors::pmat::*;

fn import<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let (m, kind) = matrix::<R>(g);
    r.class(kind);
    let mut k = Vec::new();
    for i in 0..3 {
        for j in 0..4 {
            k.push(m[(i, j)]);
        }
    }
    let eps = R::EPS;
    let p = Pm::new(&m);
    r.input(key(&k), k.iter().all(|x| x.d().a() > 0.0));
    // in memory of its own, or within that of another matrix
    let storage = g.below(6);
    let res = match storage {
        0 => {
            let mut big = SMatrix::<R, 5, 6>::from_element(R::f(f64::NAN));
            big.fixed_view_mut::<3, 4>(1, 2).copy_from(&m);
            Camera::from_perspective_matrix(&big.fixed_view::<3, 4>(1, 2))
        }
        1 => {
            let mem: Vec<R> = (0..3).flat_map(|i| (0..5).map(move |j| (i, j))).map(|(i, j)| if j < 4 { m[(i, j)] } else { R::f(f64::NAN) }).collect();
            let v = nalgebra::MatrixView::<R, U3, nalgebra::U4, nalgebra::Dyn, nalgebra::Dyn>::from_slice_with_strides_generic(
                &mem,
                nalgebra::Const::<3>,
                nalgebra::Const::<4>,
                nalgebra::Dyn(5),
                nalgebra::Dyn(1),
            );
            Camera::from_perspective_matrix(&v)
        }
        _ => Camera::from_perspective_matrix(&m),
    };
    r.class(["view into a matrix", "row-major view"].get(storage).copied().unwrap_or("owned matrix"));
    let det = || format!("{} {kind} matrix {k:?}", R::NAME);
    let cam = match res {
        Ok(c) => c,
        Err(_) => {
            // only a matrix singular to rounding may be refused
            if p.relcond() * eps * K < 1e-2 {
                r.ensure("a non-singular matrix is accepted", false, det);
            } else {
                r.class("refused");
                r.inconclusive("a non-singular matrix is accepted");
            }
            return;
        }
    };
    let c = cam.extrinsics().camcenter();
    let i = cam.intrinsics();
    let q = cam.extrinsics().pose().rotation.coords;
    let fin = [i.fx(), i.fy(), i.skew(), i.cx(), i.cy(), c[0], c[1], c[2], q[0], q[1], q[2], q[3]].iter().all(|x| x.fin());
    r.ensure("the camera is finite", fin, || format!("{cam:?}; {}", det()));
    if !(p.relcond() * eps * K < 1e-2) {
        return r.inconclusive("projection of the imported camera");
    }
    r.ensure("a non-singular matrix is accepted", true, det);
    imported(g, r, &p, &cam, &det);
    r.sample(|| format!("{cam:?} from {}", det()));
}
/// Singular and nearly singular finite matrices: an error or a finite camera.
fn singular<R: Sc>(g: &mut Rng, r: &mut Rec) {
    let mut a = [[R::f(0.0); 4]; 3];
    let kind = g.below(7);
    let int = |g: &mut Rng| R::f(g.below(7) as f64 - 3.0);
    for row in &mut a {
        for x in row.iter_mut() {
            *x = if kind < 4 { int(g) } else { coord(g, R::DEC) };
        }
    }
    match kind {
        0 => {}
        1 => {
            for j in 0..4 {
                a[2][j] = a[0][j] + a[1][j];
            }
        }
        2 => {
            let i = g.below(3);
            a[i] = [R::f(0.0), R::f(0.0), R::f(0.0), int(g)];
        }
        3 => {
            let j = g.below(3);
            for row in &mut a {
                row[j] = R::f(0.0);
            }
        }
        4 => {
            let k = int(g);
            for j in 0..3 {
                a[1][j] = a[0][j] * k;
            }
        }
        5 => {
            for row in &mut a {
                row[2] = row[0] - row[1];
            }
        }
        _ => {
            // rows that differ in the last bits
            a[2] = a[1];
            a[2][0] = a[2][0] + R::f(R::EPS) * a[2][0];
        }
    }
    let m = SMatrix::<R, 3, 4>::from_fn(|i, j| a[i][j]);
    let flat: Vec<R> = a.iter().flatten().copied().collect();
    r.input(key(&flat), flat.iter().any(|x| x.d().a() > 0.0));
    let det = || format!("{} matrix {a:?}", R::NAME);
    match Camera::from_perspective_matrix(&m) {
        Ok(cam) => {
            r.class("singular: finite camera");
            let c = cam.extrinsics().camcenter();
            let i = cam.intrinsics();
            let q = cam.extrinsics().pose().rotation.coords;
            let fin = [i.fx(), i.fy(), i.skew(), i.cx(), i.cy(), c[0], c[1], c[2], q[0], q[1], q[2], q[3]].iter().all(|x| x.fin());
            r.ensure("the camera is finite", fin, || format!("{cam:?}; {}", det()));
        }
        Err(e) => {
            r.class("singular: error");
            r.ensure("the error is invalid input", matches!(e, Error::InvalidInput | Error::SvdFailed | Error::InvalidRotationMatrix), det);
        }
    }
}
fn main() {
    mon::main(Spec {
        id: "C08",
        families: families! { "import", import, 4; "singular", singular, 1 },
        quick: 5_000_000,
        rule: "a case is a 3x4 matrix with a well or badly conditioned left block (from camera parts, random, permutations, orthogonal, triangular, integer; any scale and sign) and 3 points, or a singular one; non-trivial if no entry is zero (singular: not all are); distinct by its bits",
        min_distinct: 100_000,
        assumptions: &["the matrix's entries and their squares and triple products neither overflow nor underflow"],
    })
}
