import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Perspective projection follows the pinhole equation",
"Projecting a world point with a perspective camera yields u = (fx*x + skew*y)/z + cx and v = fy*y/z + cy, where (x,y,z) is the point in the camera frame, to within the rounding error of the scalar type. This holds for every pose, for focal lengths of either sign, for any skew and principal point, and for points in front of or behind the camera (z not 0).",
["inputs"],"all perspective parameters with fx,fy nonzero, all rigid poses, all finite world points with z != 0 and no overflow, f32 and f64",
"One camera (fx~fy~100, skew 0.1) on a pixel grid is sampled and only as a roundtrip of two inverse functions, so an error made in both directions, with negative focal lengths, large skew or behind the camera goes unseen.",
["src/camera.rs","src/intrinsics_perspective.rs","src/extrinsics.rs"],
[("Camera::world_to_pixel composes extrinsics and intrinsics","src/camera.rs"),("camera_to_pixel multiplies the cached 3x4 matrix and divides","src/intrinsics_perspective.rs")],
["Camera::world_to_pixel","IntrinsicParameters::camera_to_pixel"],
[("cache_p","3x4 intrinsic matrix derived from the parameters","src/intrinsics_perspective.rs")])
p("C02","Perspective back-projection inverts projection",
"For every pixel, the world ray returned by a perspective camera starts at the camera centre and points into the half space in front of the camera, and every point on it at a positive distance projects back to that pixel. Conversely the ray of the pixel a visible point (z > 0) projects to passes through that point. Both hold to within rounding error.",
["inputs"],"all perspective cameras with nonzero focal lengths, all finite pixels, all positive distances, all points with z > 0, f32 and f64",
"The roundtrip tests use one camera with skew 0.1 (0.1% of the focal length), so a wrong skew, centre or sign that matters only for other cameras survives the 1e-10 tolerance or is never reached; distances other than the default one are not projected back.",
["src/camera.rs","src/intrinsics_perspective.rs","src/ray_bundle_types.rs","src/extrinsics.rs"],
[("pixel_to_camera solves the upper triangular intrinsic matrix","src/intrinsics_perspective.rs"),("shared-origin bundle moved into the world frame","src/ray_bundle_types.rs")],
["Camera::pixel_to_world","RayBundle::{centers,directions,point_on_ray,point_on_ray_at_distance,to_single_ray}"])
p("C03","Orthographic projection is the scaled parallel projection",
"Projecting a world point with an orthographic camera yields u = sx*x + cx and v = sy*y + cy, where (x,y,z) is the point in the camera frame, to within rounding error. The depth z has no influence on the pixel.",
["inputs"],"all orthographic parameters, all rigid poses, all finite world points, f32 and f64",
"One camera with nearly equal scales is roundtripped; the forward formula is never compared with an independent value, and depth independence is not tested.",
["src/camera.rs","src/intrinsics_orthographic.rs","src/extrinsics.rs"],
[("camera_to_pixel scales and offsets x and y","src/intrinsics_orthographic.rs")],
["Camera::world_to_pixel","IntrinsicParameters::camera_to_pixel"])
p("C04","Orthographic back-projection inverts projection",
"For every pixel, the world ray returned by an orthographic camera is parallel to and in the same sense as the camera's viewing direction, starts in the plane through the camera centre perpendicular to it, and every point on it, at any signed distance, projects back to that pixel. Conversely the ray of the pixel a point projects to is a line through that point.",
["inputs"],"all orthographic cameras with nonzero scales, all finite pixels, all signed distances, all world points, f32 and f64",
"One camera, one default distance; the ray's direction and origin plane are not checked at all.",
["src/camera.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs"],
[("pixel_to_camera inverts scale and offset","src/intrinsics_orthographic.rs"),("shared-direction bundle moved into the world frame","src/ray_bundle_types.rs")],
["Camera::pixel_to_world","RayBundle::{centers,directions,point_on_ray_at_distance,to_single_ray}"])
p("C05","World and camera frames are related by one rigid motion",
"Converting points from world to camera coordinates and back are exact inverses of one another (up to rounding error), preserve all distances and handedness, and take the camera centre to the camera-frame origin and back. The camera coordinates of a world point X are R*(X - C) for the rotation R and centre C the parameters were built from.",
["inputs"],"all rotations (all quaternions, including half turns and negated ones), all centres, all finite points, f32 and f64",
"Tests convert four axis points for a single pose.",
["src/extrinsics.rs"],
[("world_to_camera uses the cached pose, camera_to_world the cached inverse pose","src/extrinsics.rs"),("cache filled once in from_rotation_and_camcenter","src/extrinsics.rs")],
["ExtrinsicParameters::{world_to_camera,camera_to_world}"],
[("cache","pose, inverse pose, rotation, translation and 3x4 matrix derived from rotation and centre","src/extrinsics.rs")])
p("C06","Every view of a camera pose describes the same pose",
"However extrinsic parameters were built (from rotation and centre, from a pose, from a view, by cloning or by deserialization), the pose, 3x4 matrix, rotation, translation, camera centre, and the forward, up and right unit vectors they report all describe the same rigid transform, to within rounding error. In particular translation = -R*C, the 3x4 matrix is [R|t], forward, up and right are the world directions of camera +Z, -Y and +X however far the camera is from the origin, and building from a reported pose gives the same parameters again.",
["inputs","histories"],"all rotations, all centres including very distant ones, all construction paths and chains of them, f32 and f64",
"Tests compare rotation and centre after one from_pose call for one pose; matrix, translation, forward, up and right have no test.",
["src/extrinsics.rs","src/camera.rs"],
[("cached derived forms","src/extrinsics.rs"),("from_pose recovers the centre from the translation","src/extrinsics.rs"),("lookdir derives forward/up/right","src/extrinsics.rs")],
["ExtrinsicParameters::{pose,matrix,rotation,translation,camcenter,forward,up,right,from_pose}"],
[("cache","seven derived forms of the pose that must agree","src/extrinsics.rs")])
p("C07","A camera built from a view looks where it was told to",
"Extrinsic parameters built from a camera centre, a look-at point and an up vector keep that centre, look along the direction to the look-at point (which lands on the +Z axis of the camera frame at its true distance), and have a roll such that the up vector lies in the plane of the camera's forward and up axes on the side of up. This holds for every non-degenerate view (look-at distinct from centre, up not parallel to the viewing direction).",
["inputs"],"all non-degenerate (centre, look-at, up) triples, f32 and f64",
"Two hand computed views are tested; a roll or handedness error for other octants, or precision loss near half turns (a past defect noted in the tests), is not reached.",
["src/extrinsics.rs"],
[("from_view composes a look-at rotation and a half turn about the viewing axis","src/extrinsics.rs")],
["ExtrinsicParameters::{from_view,forward,up,right,world_to_camera}"])
p("C08","A camera imported from a 3x4 matrix projects like the matrix",
"A perspective camera created from a 3x4 projection matrix with a non-singular left 3x3 block projects every point to the same pixel as homogeneous multiplication by the matrix, whatever the matrix's overall scale and sign. The camera has positive focal lengths, a proper rotation and its centre at the null vector of the matrix. A finite matrix never yields a camera with non-finite parameters: it is an error instead.",
["inputs"],"all finite 3x4 matrices: products K[R|t] with focal lengths of either sign and any skew, times any nonzero scale, arbitrary dense matrices, singular ones; f32 and f64",
"The tests import two matrices (one exported from the single test camera, one from a DLT without checking the result).",
["src/camera.rs"],
[("RQ decomposition with sign fixing","src/camera.rs"),("camera centre from cofactors","src/camera.rs")],
["Camera::from_perspective_matrix"])
p("C09","The exported camera matrix projects like the camera",
"Every perspective camera with finite parameters exports a finite 3x4 matrix that, by homogeneous multiplication, maps every world point to the pixel the camera projects it to, including cameras at or level with the world origin. Importing the exported matrix gives a camera with the same projection and centre.",
["inputs"],"all perspective cameras (any pose, including a zero camera-frame depth of the world origin, either sign of focal length, any skew) and all world points with z != 0, f32 and f64",
"One camera is exported in the tests and compared at two points with tolerance 1e-5.",
["src/camera.rs","src/extrinsics.rs","src/intrinsics_perspective.rs"],
[("as_camera_matrix multiplies intrinsics by the cached 3x4 pose and normalizes","src/camera.rs")],
["Camera::as_camera_matrix","Camera::from_perspective_matrix"])
p("C10","Only normalized pinhole intrinsic matrices are accepted",
"Building perspective intrinsics from a 3x4 intrinsic matrix succeeds exactly when the lower-left entries and last column are zero and the entry (2,2) is one (to rounding), and reports invalid input otherwise, including for NaN in those entries. On success the parameters are exactly the corresponding matrix entries and behave like intrinsics built from those parameters directly.",
["inputs"],"all 3x4 matrices: valid ones with any parameters, valid ones with any single or multiple structural entries perturbed by any amount beyond rounding, NaN and infinities; f32 and f64",
"The test perturbs six of the seven structural entries, each by +1.1 (or 0.1) only, and never looks at the resulting parameters.",
["src/intrinsics_perspective.rs"],
[("from_normalized_3x4_matrix entry checks","src/intrinsics_perspective.rs")],
["IntrinsicParametersPerspective::{from_normalized_3x4_matrix,params,fx,fy,skew,cx,cy}"])
p("C11","Ray bundles answer consistently about the rays they hold",
"For both kinds of ray bundle, in any frame and however obtained, the centres, directions, single-ray view, point on each ray and point at a given signed distance all describe the same rays, row for row: a point on a ray is centre + k*direction with k > 0, and the point at distance s is centre + s*direction/|direction|. Bundles created from raw data hold exactly that data, with a shared origin at zero or a shared +Z direction.",
["inputs"],"all bundle data (non-zero directions), all signed distances including zero, any number of rays, bundles created directly, from pixels or moved between frames; f32 and f64",
"Two tests with two rays each use freshly created bundles only: origin at zero and direction +Z, so every use of the stored origin or direction is invisible to them.",
["src/ray_bundle_types.rs","src/lib.rs"],
[("Bundle implementations for shared origin and shared direction","src/ray_bundle_types.rs"),("RayBundle forwards to its bundle type","src/lib.rs")],
["RayBundle::{centers,directions,to_single_ray,point_on_ray,point_on_ray_at_distance,data}"],
[("center / direction","the shared part of the bundle","src/ray_bundle_types.rs")])
p("C12","Moving rays to the world frame moves every point on them",
"Converting a ray bundle from the camera frame to the world frame is the rigid motion of the camera pose applied to every ray: centres move as points, directions rotate without translation and keep their length, and the point at any distance along a converted ray is the converted point at that distance along the original ray. The number and order of rays is kept.",
["inputs"],"all poses, both bundle kinds, any number of rays, all distances, f32 and f64",
"Conversion is only reached through two camera roundtrips with one pose, which cancel many errors.",
["src/ray_bundle_types.rs","src/extrinsics.rs"],
[("to_pose transforms the shared part once and the per-ray part row by row","src/ray_bundle_types.rs"),("ray_camera_to_world passes the cached inverse pose","src/extrinsics.rs")],
["ExtrinsicParameters::ray_camera_to_world","ExtrinsicParameters::camera_to_world"])
p("C13","The best intersection minimizes summed squared distance to all rays",
"For two or more rays that are not all parallel (some two differ by at least 0.1 degree), the returned point minimizes the sum of squared distances to the (infinite) lines through the rays, to the accuracy the scalar type and the conditioning of the rays allow. If all rays pass through one point, it is that point.",
["inputs"],"any number (>= 2) of rays with finite centres and finite non-zero directions of any length, at any distance from the origin; f32 and f64",
"One exactly intersecting pair is tested; the least squares case (skew rays, more than two rays, unnormalized directions) has no test, and an accuracy loss at well-conditioned inputs is not visible in one sample.",
["src/ray_intersection.rs"],
[("normal equations and pseudo-inverse","src/ray_intersection.rs")],
["best_intersection_of_rays"])
p("C14","Degenerate ray sets are reported or resolved, never garbage",
"With fewer than two rays the intersection is always the error saying that at least two are needed, and with two or more finite rays with non-zero directions, of magnitudes whose squares neither overflow nor underflow, it is always a finite point. If all rays are parallel, that point still minimizes the summed squared distance to the lines, to within rounding error.",
["inputs"],"empty and single-ray slices; parallel, antiparallel, identical and coincident rays in any number and any direction, near-parallel ones; f32 and f64",
"No test covers fewer than two rays or any degenerate configuration.",
["src/ray_intersection.rs","src/lib.rs"],
[("length check","src/ray_intersection.rs"),("rank cutoff of the pseudo-inverse","src/ray_intersection.rs")],
["best_intersection_of_rays","Error"])
p("C15","Best intersection does not depend on how the rays are presented",
"The best intersection is unchanged by reordering the rays, by rescaling or reversing any ray's direction, by sliding any ray's centre along its line, and by repeating the whole set of rays; and it moves with the rays under any common rotation and translation. All of this holds to within the accuracy the conditioning of the rays allows.",
["inputs"],"all sets of two or more not-all-parallel rays and all such re-presentations of them, f32 and f64",
"Metamorphic relations over inputs: one sample of one ray pair says nothing about them.",
["src/ray_intersection.rs"],
[("directions normalized, sums symmetric in the rays","src/ray_intersection.rs")],
["best_intersection_of_rays"])
p("C16","Triangulating a point's images recovers the point",
"If a point in front of two or more perspective cameras with different centres (not in line with the point), or seen by orthographic cameras with different viewing directions, or by a mix of both, is projected into each, then intersecting the world rays of those pixels recovers the point, to the accuracy that pixel rounding and the viewing geometry allow.",
["inputs"],"all sets of 2..n cameras of mixed kinds, all points, f32 and f64",
"A single pair of perspective cameras and a single point are tested; orthographic or mixed rigs never.",
["src/camera.rs","src/ray_intersection.rs","src/ray_bundle_types.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs"],
[("world_to_pixel, pixel_to_world, to_single_ray and best_intersection_of_rays in sequence","src/ray_intersection.rs")],
["Camera::{world_to_pixel,pixel_to_world}","RayBundle::to_single_ray","best_intersection_of_rays"])
p("C17","The linearization is the derivative of the projection",
"For every perspective camera and every world point not in its focal plane, the linearization at the point is the 2x3 matrix of partial derivatives of pixel coordinates with respect to world coordinates at that point. This includes cameras at or level with the world origin, focal lengths of either sign, and points behind the camera; one linearization object may be evaluated at any number of points.",
["inputs"],"all perspective cameras and all points with z != 0, f32 and f64",
"One camera, one point and one offset along z are compared with tolerance 1e-4, so four of the six entries of the matrix are never used.",
["src/linearize.rs"],
[("JacobianPerspectiveCache::new builds the camera matrix, linearize_at evaluates closed form derivatives","src/linearize.rs")],
["linearize::JacobianPerspectiveCache::{new,linearize_at}"],
[("m","camera matrix up to scale","src/linearize.rs")])
p("C18","Serialization round trips every value and rejects malformed input",
"Cameras, intrinsic and extrinsic parameters and ray bundles survive serialization and deserialization unchanged: equal under comparison and indistinguishable in every operation, in self-describing and in positional formats and with fields in any order. Missing, duplicate or mistyped fields of intrinsic or extrinsic parameters are errors, never a panic or a partially filled value; so are unknown fields of extrinsic parameters and of perspective intrinsics.",
["inputs"],"all finite values of every serializable type, all field orders, map and sequence encodings, all single structural corruptions of an encoding; f32 and f64",
"Each type is round tripped once with one value through JSON maps; the sequence path, field order, error paths and post-deserialization behaviour have no test.",
["src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs","src/lib.rs","src/camera.rs"],
[("hand written Deserialize rebuilding derived state","src/extrinsics.rs"),("hand written Deserialize rebuilding the cached matrix","src/intrinsics_perspective.rs")],
["Serialize and Deserialize of the public types"],
[("cache","skipped in serialization and rebuilt","src/extrinsics.rs")])
p("C19","Batches are converted row by row, whatever their size or storage",
"Every operation on a batch of points, pixels or rays returns one row per input row, in the same order, and each row's result is what that row alone would give, whatever the number of rows (including none and very many), the storage of the matrix (fixed or dynamic size, owned or strided views), and the contents of the other rows, even if those are NaN or infinite.",
["inputs"],"all batch sizes, all matrix storages accepted by the API, all contents of other rows, every batch operation of cameras, extrinsics, intrinsics and bundles; f32 and f64",
"Tests use owned storage with a handful of sizes and do not mix valid and invalid rows.",
["src/camera.rs","src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs"],
[("row loops over generic storage","src/extrinsics.rs"),("row loops over generic storage","src/intrinsics_perspective.rs")],
["all functions taking Points, Pixels or RayBundle"])
p("C20","User-defined camera models are used exactly as given",
"A camera with a user-supplied intrinsic model, linear or not and with either kind of ray bundle, projects by handing the model exactly the camera-frame points and back-projects by moving exactly the model's camera-frame rays into the world frame. Nothing else of the model is assumed or altered.",
["inputs","programs"],"all implementations of the intrinsic-parameters interface (modelled by distorting, recording and adversarial models), all poses, all points and pixels",
"No test defines a camera model; both tested models are linear and built in.",
["src/camera.rs","src/lib.rs","src/extrinsics.rs"],
[("Camera generic over IntrinsicParameters","src/camera.rs")],
["Camera::{world_to_pixel,pixel_to_world,intrinsics,extrinsics}","trait IntrinsicParameters"])
p("C21","Fixed-size use needs no heap and no standard library",
"With matrices of statically known size, constructing cameras, projecting, back-projecting, converting, linearizing and importing or exporting matrices performs no heap allocation, in every feature configuration. The crate works without the standard library and then gives the same results as with it, to within rounding error.",
["configurations","inputs"],"feature sets {std}, {alloc}, {none}; all operations on statically sized data except ray intersection; all inputs",
"The tests require std and do not observe allocations; the no-std configurations are only compiled.",
["src/lib.rs","Cargo.toml","src/camera.rs","src/extrinsics.rs","src/linearize.rs"],
[("no_std attribute and feature gates","src/lib.rs"),("owned storage of fixed-size matrices is on the stack","src/camera.rs")],
["global allocator calls during API operations","results in each feature configuration"])
p("C22","No input makes the library panic, hang or touch memory it must not",
"Every public operation, except the assertion helper for testing camera models, returns normally for every input, including NaN, infinities, zeros, subnormal and huge values, degenerate parameters and empty batches: no panic, no endless loop, no undefined behaviour.",
["inputs"],"all bit patterns of all numeric arguments, all batch sizes, all public operations, f32 and f64, with and without debug assertions",
"Tests only use well-behaved values.",
["src/lib.rs","src/camera.rs","src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs","src/ray_intersection.rs","src/linearize.rs"],
[("unsafe code denied","src/lib.rs"),("bounded decomposition iterations and error returns","src/ray_intersection.rs")],
["process state: panics, signals, sanitizer and interpreter reports, CPU time"])
p("C23","Operations are pure: no dependence on history, sharing or threads",
"The result of an operation depends only on its arguments: repeating it, in any order and interleaved with any other operations on the same or other objects, from one thread or many threads sharing the objects, gives bit-identical results and leaves all objects unchanged.",
["histories","schedules"],"all sequences of operations on any number of shared objects, all thread interleavings",
"Tests perform each operation once or twice on fresh objects in one thread.",
["src/camera.rs","src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs","src/linearize.rs","src/ray_intersection.rs"],
[("all methods take shared references and hold no interior mutability; derived state is computed at construction","src/extrinsics.rs")],
["recorded history of calls and results per thread"])
p("C24","Results carry the precision of the scalar type they are computed with",
"The library works with any real scalar type, not only f32 and f64, nor only types that are Copy or own no memory: construction, projection, back-projection, frame conversion, matrix import and export and linearization in a wider scalar type agree with an exact model to that type's precision, and the f32 and f64 results are those results rounded, up to accumulated rounding error. Ray intersection in any scalar type is accurate to at least the lesser of that type's and double precision. No scalar outlives the objects that hold it.",
["inputs","programs"],"all real scalar types (represented by f32, f64, a monitored 80-bit type and a boxed, not Copy, counted one), all inputs",
"Two tests run in f32; no test uses a scalar type of its own, and no test can see digits lost below 1e-10.",
["src/camera.rs","src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/linearize.rs","src/ray_intersection.rs","src/ray_bundle_types.rs"],
[("all code generic over RealField, constants via convert","src/camera.rs"),("sums specialised to f64","src/ray_intersection.rs")],
["all numeric operations instantiated with a user-defined scalar"])
p("C25","Parameter objects are faithful values",
"Accessors return exactly the values an object was built from; clones compare equal and behave identically; two cameras, intrinsic or extrinsic parameter objects or ray bundles built from equal values compare equal, and changing any single parameter makes them unequal. Debug output shows the parameters and is the same for objects built from the same values.",
["inputs"],"all finite parameter values, every single-parameter change, all types with accessors, Clone, PartialEq or Debug; f32 and f64",
"Equality is asserted positively on single serde examples only; a comparison or clone ignoring a parameter would pass.",
["src/camera.rs","src/extrinsics.rs","src/intrinsics_perspective.rs","src/intrinsics_orthographic.rs","src/ray_bundle_types.rs","src/lib.rs"],
[("derived PartialEq and Clone, manual Debug hiding caches","src/extrinsics.rs"),("manual Debug","src/intrinsics_perspective.rs")],
["accessors, Clone, PartialEq, Debug"])
p("C26","The camera-model conformance helper accepts exactly correct models",
"The public roundtrip helper for camera models returns normally for every model whose pixel-ray-pixel roundtrip is accurate to the given tolerance on the whole pixel grid it is asked to test, and panics for every model that is off by more than the tolerance, or yields NaN, at any one pixel of that grid. The grid is every step-th pixel from the border up to, but not including, the size less the border in each dimension, and nothing outside it.",
["inputs","programs"],"all camera models including ones wrong at a single grid pixel, all grid sizes, steps and borders with 2*border not exceeding the size, all tolerances",
"The helper is only ever run on the two correct built-in models; that it can fail, and where it looks, is untested.",
["src/intrinsic_test_utils.rs"],
[("generate_uv_raw grid and assert_abs_diff_eq","src/intrinsic_test_utils.rs")],
["intrinsic_test_utils::roundtrip_intrinsics"])
p("C27","Frames cannot be mixed in a program that compiles",
"A program that passes camera-frame points or rays where world-frame ones are needed, or the reverse, or matrices of wrong dimension, does not compile.",
["programs"],"all client programs",
"Unit tests only contain programs that compile.",
["src/lib.rs","src/extrinsics.rs","src/camera.rs"],
[("phantom coordinate-system type parameters","src/lib.rs")],
["type checker"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
