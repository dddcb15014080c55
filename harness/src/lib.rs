//! Monitors for cam-geom: workloads, reference model, oracles and verdicts.  See /verif/DESIGN.md.
pub mod bundles;
#[cfg(feature = "guided")]
pub mod cov;
pub mod dd;
pub mod gen;
pub mod model;
pub mod heap;
pub mod mon;
pub mod pmat;
#[cfg(feature = "alloc")]
pub mod rays;
pub mod rng;
pub mod sc;
pub mod wide;

pub mod prelude {
    pub use crate::dd::*;
    pub use crate::gen::*;
    pub use crate::model::*;
    pub use crate::mon::{self, key, Family, Rec, Spec};
    pub use crate::rng::{hash, Rng};
    pub use crate::sc::Sc;
    pub use crate::wide::{w, wf, W};
    pub use cam_geom::*;
    pub use nalgebra::{
        Isometry3, OMatrix, Point3, Quaternion, RealField, SMatrix, Translation3, Unit, UnitQuaternion, Vector3, U1, U2, U3,
    };

    /// The three scalar types a family is run with (the interpreter is too slow for the third).
    #[macro_export]
    macro_rules! families {
        ($($name:literal, $f:ident, $w:expr);* $(;)?) => {
            vec![$(
                Family { name: concat!($name, " f64"), weight: 3 * $w, run: $f::<f64> },
                Family { name: concat!($name, " f32"), weight: 2 * $w, run: $f::<f32> },
                #[cfg(not(miri))]
                Family { name: concat!($name, " wide"), weight: 1 * $w, run: $f::<W> },
            )*]
        };
    }
    pub use crate::{families, placed, placed_fixed};

    pub fn row<R: Sc>(x: [R; 3]) -> SMatrix<R, 1, 3> {
        SMatrix::<R, 1, 3>::new(x[0], x[1], x[2])
    }
    pub fn row2<R: Sc>(x: [R; 2]) -> SMatrix<R, 1, 2> {
        SMatrix::<R, 1, 2>::new(x[0], x[1])
    }
    pub fn wpt<R: Sc>(x: [R; 3]) -> Points<WorldFrame, R, U1, nalgebra::ArrayStorage<R, 1, 3>> {
        Points::new(row(x))
    }
    pub fn cpt<R: Sc>(x: [R; 3]) -> Points<CameraFrame, R, U1, nalgebra::ArrayStorage<R, 1, 3>> {
        Points::new(row(x))
    }
    pub fn px<R: Sc>(x: [R; 2]) -> Pixels<R, U1, nalgebra::ArrayStorage<R, 1, 2>> {
        Pixels::new(row2(x))
    }
    pub fn r3<R: Sc>(m: &SMatrix<R, 1, 3>) -> V3 {
        [m[(0, 0)].d(), m[(0, 1)].d(), m[(0, 2)].d()]
    }
    pub fn r2<R: Sc>(m: &SMatrix<R, 1, 2>) -> [D; 2] {
        [m[(0, 0)].d(), m[(0, 1)].d()]
    }
    pub fn dist(a: V3, b: V3) -> f64 {
        n(sub(a, b))
    }
    pub fn dd2<R: Sc>(x: [R; 2]) -> [D; 2] {
        [x[0].d(), x[1].d()]
    }
    pub use cam_geom::{CameraFrame, WorldFrame};
}
