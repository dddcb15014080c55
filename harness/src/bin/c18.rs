//! C18: serialization round trips every value and rejects malformed input.
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::*;
use monitors::bundles::*;
use monitors::prelude::*;
use nalgebra::{Const, Dyn, Matrix};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::fmt::Debug;

/// Values to serialize: also numbers that are awkward to print.
fn awkward<R: Sc>(g: &mut Rng, x: R) -> R {
    match g.below(20) {
        0 => R::f(-0.0),
        1 => R::f(0.1),
        2 => R::f(1.0 / 3.0),
        3 => R::of(D::new(x.d().hi * (1.0 + R::EPS))),
        4 => R::f(16777217.0),
        5 => R::f(9007199254740993.0),
        6 => R::f(5e-324f64.max(f64::from(f32::from_bits(1)) * (R::EPS > 1e-10) as u8 as f64)),
        7 => R::f(if R::EPS > 1e-10 { f32::MAX as f64 } else { f64::MAX }),
        8 => R::f(if R::EPS > 1e-10 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE }),
        _ => x,
    }
}

/// JSON text of a value, its objects' fields in a random order, one field duplicated at the chosen object.
fn text(g: &mut Rng, v: &Value, dup: &mut Option<usize>) -> String {
    let ws = |g: &mut Rng| -> &'static str { [" ", "", "\n", "\t"][g.below(4)] };
    match v {
        Value::Object(m) => {
            let mut parts: Vec<String> = Vec::new();
            let mine = match dup {
                Some(0) => {
                    *dup = None;
                    true
                }
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            };
            for (k, x) in m {
                let t = text(g, x, dup);
                parts.push(format!("\"{k}\"{}:{}{t}", ws(g), ws(g)));
            }
            if mine && !parts.is_empty() {
                let k = g.below(parts.len());
                parts.push(parts[k].clone());
            }
            g.shuffle(&mut parts);
            format!("{{{}{}{}}}", ws(g), parts.join(","), ws(g))
        }
        Value::Array(a) => {
            let p: Vec<String> = a.iter().map(|x| text(g, x, dup)).collect();
            format!("[{}]", p.join(","))
        }
        x => x.to_string(),
    }
}
/// Structures as arrays in the order of their fields.
fn positional(v: &Value, order: &[&str]) -> Value {
    match v {
        Value::Object(m) => {
            let mut a = Vec::new();
            for k in order {
                if let Some(x) = m.get(*k) {
                    a.push(positional(x, order));
                }
            }
            Value::Array(a)
        }
        x => x.clone(),
    }
}
const ORDER: &[&str] = &[
    "intrinsics", "extrinsics", "params", "rquat", "camcenter", "fx", "fy", "skew", "sx", "sy", "cx", "cy", "coords", "data",
    "bundle_type", "center", "direction",
];
fn objects(v: &Value) -> usize {
    match v {
        Value::Object(m) => 1 + m.values().map(objects).sum::<usize>(),
        Value::Array(a) => a.iter().map(objects).sum(),
        _ => 0,
    }
}
/// All the ways `x` is brought back.
fn back<T: Serialize + DeserializeOwned + Debug>(g: &mut Rng, r: &mut Rec, x: &T, det: &dyn Fn() -> String) -> Vec<(&'static str, T)> {
    let mut out = Vec::new();
    let mut put = |r: &mut Rec, name: &'static str, v: Result<T, String>| match v {
        Ok(v) => {
            r.class(name);
            out.push((name, v));
        }
        Err(e) => {
            r.ensure("serialized values can be deserialized", false, || format!("{name}: {e}; {}", det()));
        }
    };
    let js = |e: serde_json::Error| e.to_string();
    match serde_json::to_string(x) {
        Ok(s) => put(r, "JSON", serde_json::from_str(&s).map_err(js)),
        Err(e) => put(r, "JSON", Err(e.to_string())),
    }
    let v = match serde_json::to_value(x) {
        Ok(v) => v,
        Err(e) => {
            put(r, "JSON value", Err(e.to_string()));
            return out;
        }
    };
    put(r, "JSON value", serde_json::from_value(v.clone()).map_err(js));
    let t = text(g, &v, &mut None);
    put(r, "JSON, any field order", serde_json::from_str(&t).map_err(|e| format!("{e} in {t}")));
    put(r, "JSON, from a reader", serde_json::from_reader(t.as_bytes()).map_err(js));
    let p = positional(&v, ORDER);
    put(r, "JSON, positional", serde_json::from_str(&p.to_string()).map_err(|e| format!("{e} in {p}")));
    match bincode::serialize(x) {
        Ok(b) => put(r, "bincode", bincode::deserialize(&b).map_err(|e| e.to_string())),
        Err(e) => put(r, "bincode", Err(e.to_string())),
    }
    out
}

/// A way the input is wrong.
fn wrong(g: &mut Rng, old: &Value) -> Value {
    let options: [Value; 6] = [
        Value::Null,
        Value::Bool(true),
        Value::String("1.0".into()),
        serde_json::json!({}),
        serde_json::json!([]),
        serde_json::json!([[]]),
    ];
    loop {
        let o = &options[g.below(6)];
        let same = std::mem::discriminant(o) == std::mem::discriminant(old);
        // an object in place of an object, or an array of an object, could be legitimate
        if !same && !(old.is_object() && o.is_array() && o.as_array().map(|a| a.len() > 0) == Some(true)) {
            return o.clone();
        }
    }
}
/// Breaks one field somewhere in the value; says how.
fn break_field(g: &mut Rng, v: &mut Value, kind: usize) -> Option<String> {
    // collect the paths of the objects
    fn paths(v: &Value, at: String, out: &mut Vec<String>) {
        if let Value::Object(m) = v {
            if !m.is_empty() {
                out.push(at.clone());
            }
            for (k, x) in m {
                paths(x, format!("{at}/{k}"), out);
            }
        }
    }
    let mut ps = Vec::new();
    paths(v, String::new(), &mut ps);
    let p = ps[g.below(ps.len())].clone();
    let m = v.pointer_mut(&p)?.as_object_mut()?;
    let keys: Vec<String> = m.keys().cloned().collect();
    let k = keys[g.below(keys.len())].clone();
    match kind {
        0 => {
            m.remove(&k);
            Some(format!("missing {p}/{k}"))
        }
        1 => {
            let w = wrong(g, &m[&k]);
            let s = format!("{p}/{k} is {w}");
            m.insert(k, w);
            Some(s)
        }
        2 => {
            // a name that is almost right
            let x = m.remove(&k)?;
            let name = match g.below(3) {
                0 => k.to_uppercase(),
                1 => format!("{k}_"),
                _ => k[1..].to_string(),
            };
            let s = format!("{p}/{k} is called {name}");
            m.insert(name, x);
            Some(s)
        }
        _ => {
            // an array one short, or with an element of the wrong type
            let a = m.get_mut(&k)?.as_array_mut()?;
            if a.is_empty() {
                return None;
            }
            if g.one_in(2) {
                a.pop();
                Some(format!("{p}/{k} is one element short"))
            } else {
                let i = g.below(a.len());
                a[i] = wrong(g, &a[i]);
                Some(format!("{p}/{k}/{i} is {}", a[i]))
            }
        }
    }
}
/// Malformed input must be an error.
fn malformed<T: Serialize + DeserializeOwned + Debug>(g: &mut Rng, r: &mut Rec, x: &T, unknown_rejected: &[&str]) {
    let ok = serde_json::to_value(x).ok().filter(|v| v.is_object());
    let Some(v0) = ok else {
        r.ensure("parameters serialize as structures", false, || format!("{x:?}"));
        return;
    };
    let judge = |r: &mut Rec, how: &str, input: &str, got: Result<T, String>| {
        r.class(how.split(' ').next().unwrap_or(""));
        r.ensure("malformed input is an error", got.is_err(), || format!("{how}: {input} gave {:?}", got.as_ref().ok()));
    };
    for kind in 0..4 {
        let mut v = v0.clone();
        if let Some(how) = break_field(g, &mut v, kind) {
            let how = ["missing: ", "mistyped: ", "misnamed: ", "array: "][kind].to_string() + &how;
            let t = text(g, &v, &mut None);
            judge(r, &how, &t, serde_json::from_str(&t).map_err(|e| e.to_string()));
            judge(r, &how, &t, serde_json::from_value(v).map_err(|e| e.to_string()));
        }
    }
    let k = g.below(objects(&v0));
    let t = text(g, &v0, &mut Some(k));
    judge(r, "duplicate field", &t, serde_json::from_str(&t).map_err(|e| e.to_string()));
    // a field nobody knows, where the parameters are strict about it
    for p in unknown_rejected {
        let mut v = v0.clone();
        if let Some(Value::Object(m)) = v.pointer_mut(p) {
            m.insert(["cache", "extra", "pose"][g.below(3)].into(), serde_json::json!(1.0));
            let t = text(g, &v, &mut None);
            judge(r, "unknown field", &t, serde_json::from_str(&t).map_err(|e| e.to_string()));
        }
    }
    // positional and short, at any level
    let mut p = positional(&v0, ORDER);
    fn shorten(g: &mut Rng, v: &mut Value) {
        let Value::Array(a) = v else { return };
        let inner: Vec<usize> = (0..a.len()).filter(|i| a[*i].is_array()).collect();
        if !inner.is_empty() && g.one_in(2) {
            let i = inner[g.below(inner.len())];
            shorten(g, &mut a[i]);
        } else {
            a.pop();
        }
    }
    shorten(g, &mut p);
    let t = p.to_string();
    judge(r, "positional input too short", &t, serde_json::from_str(&t).map_err(|e| e.to_string()));
    // truncated
    let t = text(g, &v0, &mut None);
    let t = t.trim_end();
    let cutat = g.below(t.len());
    judge(r, "truncated JSON", &t[..cutat], serde_json::from_str(&t[..cutat]).map_err(|e| e.to_string()));
    if let Ok(b) = bincode::serialize(x) {
        let cutat = g.below(b.len());
        judge(r, "truncated bincode", &format!("{:?}", &b[..cutat]), bincode::deserialize(&b[..cutat]).map_err(|e| e.to_string()));
    }
    // something else altogether
    let t = ["null", "true", "3.5", "\"x\"", "[]", "{}"][g.below(6)];
    judge(r, "other value", t, serde_json::from_str(t).map_err(|e| e.to_string()));
}
fn k2<R: Sc, N: nalgebra::Dim, M: nalgebra::Dim, S: nalgebra::RawStorage<R, N, M>>(m: &Matrix<R, N, M, S>) -> Vec<u128> {
    m.iter().map(|x| x.key()).collect()
}
/// Everything extrinsic parameters say.
fn ext_bits<R: Sc>(g: &mut Rng, e: &ExtrinsicParameters<R>) -> Vec<u128> {
    let mut v = k2(&e.camcenter().coords);
    v.extend(k2(&e.pose().rotation.coords));
    v.extend(k2(&e.pose().translation.vector));
    v.extend(k2(e.matrix()));
    v.extend(k2(e.rotation().matrix()));
    v.extend(k2(&e.translation().coords));
    v.extend(k2(e.forward().as_ref()));
    v.extend(k2(e.up().as_ref()));
    v.extend(k2(e.right().as_ref()));
    let p: [R; 3] = vec3(g, 2.0);
    v.extend(k2(&e.world_to_camera(&wpt(p)).data));
    v.extend(k2(&e.camera_to_world(&cpt(p)).data));
    let w = e.ray_camera_to_world(&RayBundle::<CameraFrame, _, R, U1, _>::new_shared_zero_origin(row(p)));
    v.extend(k2(&w.centers()));
    v.extend(k2(&w.directions()));
    v
}
fn ser<R>(g: &mut Rng, r: &mut Rec)
where
    R: Sc + Serialize + DeserializeOwned,
{
    let bits = |v: &Vec<u128>, w: &Vec<u128>| -> bool { v == w };
    let pp = {
        let mut p = persp_params::<R>(g);
        if g.one_in(3) {
            p = PerspectiveParams { fx: awkward(g, p.fx), fy: awkward(g, p.fy), skew: awkward(g, p.skew), cx: awkward(g, p.cx), cy: awkward(g, p.cy) };
        }
        p
    };
    let op = {
        let mut p = ortho_params::<R>(g);
        if g.one_in(3) {
            p = OrthographicParams { sx: awkward(g, p.sx), sy: awkward(g, p.sy), cx: awkward(g, p.cx), cy: awkward(g, p.cy) };
        }
        p
    };
    let pi: IntrinsicParametersPerspective<R> = pp.clone().into();
    let oi: IntrinsicParametersOrthographic<R> = op.clone().into();
    let (ep, _, _) = ext::<R>(g);
    // quaternions a little off unit length are kept as they are, too
    let ep = if g.one_in(4) {
        let k = R::f(1.0 + g.sign() * g.log(-5.0, -2.0));
        let q = ep.pose().rotation.coords * k;
        ExtrinsicParameters::from_rotation_and_camcenter(Unit::new_unchecked(Quaternion::from(q)), *ep.camcenter())
    } else {
        ep
    };
    r.input(key(&[pp.fx, pp.cx, ep.camcenter()[0], ep.pose().rotation.w]), true);
    let which = g.below(8);
    let seed = g.u64();
    let x: [R; 3] = vec3(g, 2.0);
    let uv: [R; 2] = [principal(g), principal(g)];
    macro_rules! same {
        ($name:expr, $how:expr, $x:expr, $y:expr, $obs:expr) => {{
            let (x0, y0) = (&$x, &$y);
            let d = || format!("{} via {}: {:?} came back as {:?}", $name, $how, x0, y0);
            r.ensure("deserialized values are equal", x0 == y0, d);
            r.ensure("deserialized values look the same", format!("{x0:?}") == format!("{y0:?}"), d);
            let obs: fn(&mut Rng, &_, [R; 3], [R; 2]) -> Vec<u128> = $obs;
            let a = obs(&mut Rng::new(seed), x0, x, uv);
            let b = obs(&mut Rng::new(seed), y0, x, uv);
            r.ensure("deserialized values act the same", bits(&a, &b), || format!("{} point {x:?} pixel {uv:?}: {a:?} and {b:?}", d()));
        }};
    }
    let sd = format!("{} {pp:?} {op:?} {ep:?}", R::NAME);
    r.sample(|| sd.clone());
    let det = move || sd.clone();
    match which {
        0 => {
            r.class("extrinsic parameters");
            for (how, y) in back(g, r, &ep, &det) {
                same!("extrinsics", how, ep, y, |g, e, _, _| ext_bits(g, e));
            }
            malformed(g, r, &ep, &[""]);
        }
        1 => {
            r.class("perspective intrinsics");
            for (how, y) in back(g, r, &pi, &det) {
                same!("perspective intrinsics", how, pi, y, |_, i: &IntrinsicParametersPerspective<R>, x, uv| {
                    let mut v = k2(&i.camera_to_pixel(&cpt(x)).data);
                    v.extend(k2(&i.pixel_to_camera(&px(uv)).data));
                    v.extend([i.fx(), i.fy(), i.skew(), i.cx(), i.cy()].map(|x| x.key()));
                    v
                });
            }
            malformed(g, r, &pi, &[""]);
        }
        2 => {
            r.class("orthographic intrinsics");
            for (how, y) in back(g, r, &oi, &det) {
                same!("orthographic intrinsics", how, oi, y, |_, i: &IntrinsicParametersOrthographic<R>, x, uv| {
                    let mut v = k2(&i.camera_to_pixel(&cpt(x)).data);
                    v.extend(k2(&i.pixel_to_camera(&px(uv)).data));
                    v
                });
            }
            malformed(g, r, &oi, &[]);
        }
        3 => {
            r.class("parameter structures");
            for (how, y) in back(g, r, &pp, &det) {
                same!("perspective parameters", how, pp, y, |_, i: &PerspectiveParams<R>, _, _| [i.fx, i.fy, i.skew, i.cx, i.cy].map(|x| x.key()).to_vec());
            }
            malformed(g, r, &pp, &[]);
            for (how, y) in back(g, r, &op, &det) {
                same!("orthographic parameters", how, op, y, |_, i: &OrthographicParams<R>, _, _| [i.sx, i.sy, i.cx, i.cy].map(|x| x.key()).to_vec());
            }
            malformed(g, r, &op, &[]);
        }
        4 => {
            r.class("perspective camera");
            let cam = Camera::new(pi, ep);
            for (how, y) in back(g, r, &cam, &det) {
                same!("perspective camera", how, cam, y, |g, c: &PCam<R>, x, uv| {
                    let mut v = ext_bits(g, c.extrinsics());
                    v.extend(k2(&c.world_to_pixel(&wpt(x)).data));
                    let b = c.pixel_to_world(&px(uv));
                    v.extend(k2(&b.centers()));
                    v.extend(k2(&b.directions()));
                    v.extend(k2(&c.as_camera_matrix()));
                    v.extend(k2(&JacobianPerspectiveCache::new(c).linearize_at(&wpt(x))));
                    v
                });
            }
            malformed(g, r, &cam, &["/intrinsics", "/extrinsics"]);
        }
        5 => {
            r.class("orthographic camera");
            let cam = Camera::new(oi, ep);
            for (how, y) in back(g, r, &cam, &det) {
                same!("orthographic camera", how, cam, y, |g, c: &OCam<R>, x, uv| {
                    let mut v = ext_bits(g, c.extrinsics());
                    v.extend(k2(&c.world_to_pixel(&wpt(x)).data));
                    let b = c.pixel_to_world(&px(uv));
                    v.extend(k2(&b.centers()));
                    v.extend(k2(&b.directions()));
                    v
                });
            }
            malformed(g, r, &cam, &["/extrinsics"]);
        }
        6 => {
            if g.one_in(2) {
                bundle_ser::<R, SharedOriginRayBundle<R>>(g, r, &ep)
            } else {
                bundle_ser::<R, SharedDirectionRayBundle<R>>(g, r, &ep)
            }
        }
        _ => {
            if g.one_in(2) {
                bundle_dyn::<R, SharedOriginRayBundle<R>>(g, r, &ep)
            } else {
                bundle_dyn::<R, SharedDirectionRayBundle<R>>(g, r, &ep)
            }
        }
    }
}
fn bundle_ser<R, B>(g: &mut Rng, r: &mut Rec, ep: &ExtrinsicParameters<R>)
where
    R: Sc + Serialize + DeserializeOwned,
    B: Kind<R> + Serialize + DeserializeOwned,
{
    r.class("ray bundle");
    let m = SMatrix::<R, 3, 3>::from_fn(|_, _| {
        let x = coord(g, 3.0);
        awkward(g, x)
    });
    let b: OwnedBundle<CameraFrame, B, R, Const<3>> = B::raw(m);
    let w = ep.ray_camera_to_world(&b);
    macro_rules! go {
        ($b:expr, $f:ty) => {
            let det = || format!("{:?}", $b);
            for (how, y) in back(g, r, &$b, &det) {
                let y: OwnedBundle<$f, B, R, Const<3>> = y;
                let fin = m.iter().all(|x| x.d().a() < 1e18);
                let obs = |b: &OwnedBundle<$f, B, R, Const<3>>| {
                    let mut v = k2(&b.data);
                    v.extend(k2(&b.centers()));
                    v.extend(k2(&b.directions()));
                    if fin {
                        v.extend(k2(&b.point_on_ray().data));
                        v.extend(k2(&b.point_on_ray_at_distance(R::f(2.5)).data));
                    }
                    v
                };
                let (p, q) = (obs(&$b), obs(&y));
                r.ensure("deserialized bundles act the same", p == q, || format!("{how}: {:?} came back as {y:?}", $b));
                r.ensure("deserialized bundles look the same", format!("{y:?}") == det(), || format!("{how}: {:?} came back as {y:?}", $b));
                r.ensure("deserialized bundles are equal", y == $b, || format!("{how}: {:?} came back as {y:?}", $b));
            }
        };
    }
    go!(b, CameraFrame);
    if w.data.iter().all(|x| x.fin()) {
        go!(w, WorldFrame);
    }
}
fn bundle_dyn<R, B>(g: &mut Rng, r: &mut Rec, ep: &ExtrinsicParameters<R>)
where
    R: Sc + Serialize + DeserializeOwned,
    B: Kind<R> + Serialize + DeserializeOwned,
{
    r.class("ray bundle of dynamic size");
    let k = if g.one_in(40) { g.below(400) } else { g.below(6) };
    let m = Matrix::<R, Dyn, U3, _>::from_fn_generic(Dyn(k), U3, |_, _| coord(g, 3.0));
    let b: OwnedBundle<CameraFrame, B, R, Dyn> = B::raw(m);
    let w = ep.ray_camera_to_world(&b);
    let det = || format!("{w:?}");
    for (how, y) in back(g, r, &w, &det) {
        let y: OwnedBundle<WorldFrame, B, R, Dyn> = y;
        let obs = |b: &OwnedBundle<WorldFrame, B, R, Dyn>| {
            let mut v = k2(&b.data);
            v.push(b.data.nrows() as u128);
            v.extend(k2(&b.point_on_ray().data));
            v.extend(k2(&b.point_on_ray_at_distance(R::f(-2.5)).data));
            v
        };
        let (p, q) = (obs(&w), obs(&y));
        r.ensure("deserialized bundles act the same", p == q, || format!("{how}: {w:?} came back as {y:?}"));
        r.ensure("deserialized bundles look the same", format!("{y:?}") == det(), || format!("{how}: {w:?} came back as {y:?}"));
        r.ensure("deserialized bundles are equal", y == w, || format!("{how}: {w:?} came back as {y:?}"));
    }
}
fn main() {
    mon::main(Spec {
        id: "C18",
        families: vec![
            Family { name: "serde f64", weight: 3, run: ser::<f64> },
            Family { name: "serde f32", weight: 2, run: ser::<f32> },
        ],
        quick: 900_000,
        rule: "a case is a value (extrinsic or intrinsic parameters, camera or ray bundle, also with awkward numbers) brought back by six routes and compared in all its operations, and about ten malformed inputs made from it; every case is non-trivial; distinct by the bits of some parameters",
        min_distinct: 30_000,
        assumptions: &["values are finite", "formats: serde_json (text, value, reader, structures as arrays) and bincode"],
    })
}
