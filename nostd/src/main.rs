//! An executable without std and without alloc that uses cam-geom and prints what it computed (C21).
#![no_std]
#![no_main]

use cam_geom::*;
use core::ffi::{c_char, c_int};
use nalgebra::*;

#[link(name = "c")]
extern "C" {
    fn printf(f: *const c_char, ...) -> c_int;
    fn abort() -> !;
}
// symbols of libgcc that core may refer to
#[link(name = "gcc_s")]
extern "C" {}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { abort() }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> f64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
}

#[no_mangle]
pub extern "C" fn main(_argc: c_int, _argv: *const *const c_char) -> c_int {
    let mut g = Rng(0x9e3779b97f4a7c15);
    for _ in 0..20000 {
        let mut v = || g.next();
        let q = UnitQuaternion::new_normalize(Quaternion::new(v(), v(), v(), v()));
        let c = Point3::new(10.0 * v(), 10.0 * v(), 10.0 * v());
        let p = PerspectiveParams {
            fx: 500.0 + 400.0 * v(),
            fy: 500.0 + 400.0 * v(),
            skew: v(),
            cx: 320.0 + 100.0 * v(),
            cy: 240.0 + 100.0 * v(),
        };
        let pt = RowVector3::new(20.0 * v(), 20.0 * v(), 20.0 * v());
        let ep = ExtrinsicParameters::from_rotation_and_camcenter(q, c);
        let cam = Camera::new(IntrinsicParametersPerspective::from(p.clone()), ep);
        let uv = cam.world_to_pixel(&Points::new(pt));
        let ray = cam.pixel_to_world(&uv).to_single_ray();
        let out = [
            q.w, q.i, q.j, q.k, c[0], c[1], c[2], p.fx, p.fy, p.skew, p.cx, p.cy, pt[0], pt[1], pt[2], uv.data[0], uv.data[1],
            ray.direction[0], ray.direction[1], ray.direction[2],
        ];
        for x in out {
            unsafe { printf(b"%016llx \0".as_ptr() as *const c_char, x.to_bits()) };
        }
        unsafe { printf(b"\n\0".as_ptr() as *const c_char) };
    }
    0
}
