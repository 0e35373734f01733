#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is claimed once bin/props.json has it."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, M, Q, C, L, CO, H = "src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/convert.rs", "src/lib.rs", "src/collision.rs", "src/packed_vector.rs"
ALLCFG = "every input of the stated domain, on every code path the build selects (no intrinsics, SSE2, SSE3, SSE4.1, AVX, FMA, AVX2, favor_intel; debug and release)"
TESTS = "The existing tests are mostly doc examples: a few hand-picked inputs per function, run in one build configuration. "
def p(id, title, statement, files, mech, text=None, why=None, over=("inputs", "configurations")):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text or "For " + ALLCFG + "."),
                why_tests_cant=TESTS + (why or "They cannot cover the input space, nor the other backends."),
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
PROPS = [
p("C01", "Lane accessors, swizzles, permutes and shifts move exactly the named lanes",
  "Reading, replacing, splatting, swizzling, permuting, merging, shifting, rotating or inserting vector components moves exactly the 32-bit lanes the call names, bit for bit (NaN payloads included), and leaves every other lane as it was. Compile-time permute/swizzle types (all 4096 and 256 of them) give the same result as the run-time functions for every index combination.",
  [V, L], [("XMVectorSwizzle/XMVectorPermute/Insert/Shift/Rotate", V), ("Permute and Swizzle traits with specialised SSE forms", L)],
  why="There are 4096 permutes, 256 swizzles, 32 insert selections and several backends; a test reaches a few."),
p("C02", "Bitwise operations, constants and selection are exact on all 128 bits",
  "AND, AND-complement, OR, XOR and NOR act on every bit; select takes each bit from the second operand exactly where the control bit is set; and the control/constant constructors (select control, binary constant, splat constants, true/false masks, epsilon, infinity, QNaN, sign mask) produce exactly their documented bit patterns for all arguments.",
  [V, L], [("XMVectorSelect, XMVectorAndInt...", V), ("XMVectorSetBinaryConstant, XMVectorSplatConstant", L)]),
p("C03", "Comparisons follow IEEE ordering; 2/3/4-component tests look at just those lanes",
  "Lane-wise comparisons, bounds tests, near-equality and NaN/infinity classification return an all-ones or all-zeros mask per lane that follows IEEE ordering (NaN unordered, +0 = -0), and the integer comparisons follow bit equality. The boolean 2-, 3-, 4-component, quaternion, plane and matrix forms are the exact conjunction (or, for not-equal/NaN/infinite, disjunction) over their own lanes and ignore the others.",
  [V, Q, M], [("XMVectorEqual ... XMVectorInBounds", V), ("XMVector2/3/4 predicates", V), ("XMMatrixIsNaN/IsInfinite/IsIdentity", M)]),
p("C04", "Comparison records agree with the comparison they describe",
  "Every record-returning comparison reports all-true exactly when every compared lane satisfies the relation and all-false exactly when none does (bounds records: all-in-bounds), and returns the same mask as the plain comparison. The record queries (all/any true/false, mixed, all/any bounds) decode any record accordingly.",
  [V, L], [("XM*R functions computing CR6 bits", V), ("XMComparison*", L)]),
p("C05", "Lane arithmetic is correctly rounded IEEE arithmetic",
  "Add, subtract, multiply, divide, scale, square root, reciprocal, negate and absolute value are correctly rounded per lane for all finite, denormal, infinite and NaN operands; multiply-add forms give the fused or the twice-rounded result and nothing else; reciprocal square root equals one of its two correctly rounded evaluations. No lane influences another.",
  [V], [("XMVectorAdd ... XMVectorReciprocalSqrt", V), ("XM_FMADD_PS/XM_FNMADD_PS", L)]),
p("C06", "Min, max, clamp and saturate select the right operand in every lane",
  "Minimum and maximum return the lesser/greater operand of each lane exactly, and the second operand when neither is (equal, or a NaN operand); clamp returns the value limited to [min, max], a NaN value staying NaN, and saturate the value limited to [0, 1] for non-NaN values.",
  [V], [("XMVectorMin/Max/Clamp/Saturate", V)]),
p("C07", "Rounding to integers is exact; Mod is the truncated remainder",
  "Round (ties to even), truncate, floor and ceiling return exactly the mathematical integer for every finite input of any magnitude, and keep NaN and infinity; Mod(x, y) is x minus y times the truncated quotient, with NaN where that is undefined.",
  [V], [("XMVectorRound/Truncate/Floor/Ceiling/Mod", V)]),
p("C08", "Loads and stores move exactly the storage type's words and touch nothing else",
  "Loading a vector or matrix type places its words in the documented lanes (missing vector lanes are zero, missing matrix elements are those of the identity), storing writes exactly the words of the type, and neither reads nor writes a byte outside the object, wherever it lies. Load followed by store reproduces the object.",
  [C], [("XMLoad*/XMStore*", C)]),
p("C09", "Integer-float vector conversions scale, truncate and saturate correctly",
  "Converting integers to floats gives the (correctly rounded) value divided by 2^exponent for all signed or unsigned words; converting floats to integers multiplies by 2^exponent, truncates toward zero, and saturates at the ends of the integer range, for every non-NaN input.",
  [C], [("XMConvertVector*", C)]),
p("C10", "Half-precision conversion is exact one way and round-to-nearest-even the other",
  "Every one of the 65536 halves converts to the float with the same value (NaN to NaN), and every float converts to the nearest half, ties to even, with gradual underflow, overflow to infinity and NaN kept NaN; a half survives the round trip.",
  [H], [("XMConvertHalfToFloat/XMConvertFloatToHalf", H)]),
p("C11", "Precise trigonometric functions are accurate over their whole domain",
  "Sine, cosine, sine/cosine pairs, tangent, arcsine, arccosine, arctangent and two-argument arctangent (vector and scalar forms) are within a few units of 1e-6 of the true value over their documented domains, including all quadrants, axis cases, signed zeros and domain ends. Lanes are independent.",
  [V, Q], [("XMVectorSin ... XMVectorATan2", V), ("XMScalarSin ... XMScalarACos", Q)],
  why="Accuracy at every argument and quadrant boundary is not settled by a handful of angles."),
p("C12", "Estimate functions stay within their advertised error of the precise ones",
  "Every *Est function (trigonometric, inverse trigonometric, reciprocal, square-root, length, normalize, angle; vector and scalar) stays within the small error it advertises of the true result over the whole domain where the precise function is defined.",
  [V, Q], [("XMVectorSinEst ... XMVectorATan2Est", V), ("XMVector2/3/4*Est", V), ("XMScalar*Est", Q)]),
p("C13", "Exponential, power and hyperbolic functions are accurate and total",
  "Exp2 (and its alias Exp), Pow, SinH, CosH and TanH agree with the true functions for every finite input - the exponential and hyperbolic functions to about 1e-5 of their scale (cosh x for SinH/CosH, 1 for TanH), Pow to a couple of units in the last place. Exp2 underflows gradually to zero, overflows to infinity and maps NaN to NaN; Pow follows the C99 table at zero, one, negative, infinite and NaN arguments.",
  [V], [("XMVectorExp2/Exp/Pow/SinH/CosH/TanH", V)]),
p("C14", "Angle reduction and degree/radian conversion preserve the angle",
  "Reduced angles lie in [-pi, pi) (to rounding) and differ from the input by a whole number of turns; sums and differences of reduced angles lie in [-pi, pi) exactly; degree/radian conversion multiplies by pi/180 or its inverse.",
  [V, Q, L], [("XMVectorModAngles/AddAngles/SubtractAngles", V), ("XMScalarModAngle", Q), ("XMConvertToRadians/Degrees", L)]),
p("C15", "Dot, cross and squared-length products use exactly their own lanes",
  "2D, 3D and 4D dot products, cross products, squared lengths and lane sums equal the defining polynomial of their lanes within floating-point rounding, replicated to the documented lanes, whatever the unused lanes contain.",
  [V, Q], [("XMVector2/3/4Dot, Cross, LengthSq", V), ("XMVectorSum", V), ("XMQuaternionDot/LengthSq", Q)]),
p("C16", "Length, normalization and length clamping are right at every magnitude",
  "Length and reciprocal length match the Euclidean norm; normalization returns a parallel unit vector, zero for the zero vector and NaN for an infinite length; clamping the length returns the vector itself when within the limits and otherwise a parallel vector of the limiting length.",
  [V, Q], [("XMVector2/3/4Length/Normalize/ClampLength", V), ("XMQuaternionNormalize", Q)]),
p("C17", "Reflection, refraction, angles and line geometry meet their definitions",
  "Reflect, refract (with total internal reflection), components along/perpendicular to a normal, orthogonal vectors, angles between vectors and normals, point-line distance, 2D line intersection and the Fresnel term satisfy their defining formulas within floating-point error for all admissible inputs, in 2, 3 and 4 dimensions.",
  [V, Q], [("XMVector2/3/4Reflect/Refract/Orthogonal/Angle*", V), ("XMVector3ComponentsFromNormal, LinePointDistance", V), ("XMVector2IntersectLine", V), ("XMFresnelTerm", Q)]),
p("C18", "Interpolation agrees with its basis polynomials and end points",
  "Lerp, Hermite, Catmull-Rom and barycentric interpolation (scalar- and vector-parameter forms) evaluate their basis polynomials within rounding, and return the end points at parameters 0 and 1.",
  [V], [("XMVectorLerp/Hermite/CatmullRom/BaryCentric(V)", V)]),
p("C19", "Transforming vectors is multiplication by the matrix, with the documented divide",
  "Transforming 2D, 3D and 4D vectors, coordinates (with division by w), normals (no translation), rotating by quaternions, and projecting/unprojecting through a viewport equal the row-vector matrix product of the inputs within floating-point error; inverse rotation and unprojection undo the forward direction.",
  [V, M], [("XMVector2/3/4Transform*", V), ("XMVector3Rotate/InverseRotate", V), ("XMVector3Project/Unproject", V)]),
p("C20", "Matrix product, transpose, determinant and inverse are linear algebra",
  "Matrix product, product-transpose, transpose, determinant, tensor product and inverse equal their textbook definitions within floating-point error for every finite matrix (transpose exactly), and the inverse of a singular matrix is reported as infinite with determinant zero.",
  [M], [("XMMatrixMultiply/Transpose/Determinant/Inverse", M)]),
p("C21", "Scaling, rotation, translation and composite affine matrices do what they name",
  "Translation, scaling, axis, Euler-angle, normal-axis and quaternion rotation matrices, 2D/3D (affine) transformations, reflection and shadow matrices, applied to points, perform exactly the named geometric operation in the documented order.",
  [M], [("XMMatrixTranslation ... XMMatrixShadow", M)]),
p("C22", "View and projection matrices map eye frame and view volume as documented",
  "Look-at/look-to matrices are rigid transforms taking the eye to the origin and the view direction to +Z (left-handed) or -Z (right-handed) with the up vector in the YZ half-plane; perspective and orthographic matrices of all forms map the view volume's planes onto the canonical volume with depth 0 at the near and 1 at the far plane.",
  [M], [("XMMatrixLookAt/LookTo", M), ("XMMatrixPerspective*/Orthographic*", M)]),
p("C23", "Quaternion algebra and its conversions to rotations are consistent",
  "Quaternion product, conjugate, inverse, normalization and identity obey Hamilton's rules in the documented order; quaternions from axis-angle, Euler angles and rotation matrices represent the same rotation as the corresponding matrices for every rotation (all branches of the matrix conversion), and axis-angle extraction inverts construction.",
  [Q], [("XMQuaternionMultiply/Inverse/RotationAxis/RotationMatrix/ToAxisAngle", Q)]),
p("C24", "Spherical interpolation, logarithm and exponential of quaternions are right",
  "Slerp moves along the shorter great arc at constant speed and hits both end points, squad/setup and barycentric forms compose slerps as defined, and Ln/Exp of unit/pure quaternions are mutually inverse; vector-parameter forms agree with scalar ones.",
  [Q], [("XMQuaternionSlerp/Squad/SquadSetup/BaryCentric/Ln/Exp", Q)]),
p("C25", "Matrix decomposition recovers scale, rotation and translation",
  "Decomposing a scale-rotate-translate matrix yields factors whose recomposition is the matrix, with a unit rotation quaternion and the exact translation, for every axis ordering of scales, mirrored or degenerate (zero-scale) axes; matrices that are not of that form are refused.",
  [M], [("XMMatrixDecompose", M)]),
p("C26", "Plane construction, products, normalization and intersections are geometric",
  "Planes from points/point-normal contain their points and have unit normals (from points), plane dot products and normalization follow their formulas, plane transformation and near-equality follow the documented matrix and epsilon rule, and line/plane and plane/plane intersections lie on both operands (NaN when parallel).",
  [Q], [("XMPlane*", Q)]),
p("C27", "Bounding volumes intersect exactly when they share a point",
  "For spheres, axis-aligned boxes, oriented boxes and frustums, the pairwise intersection tests and point containment agree with exact geometry for all configurations outside the rounding-error band around contact (including right-handed frustums and nearly parallel edges), and are symmetric in the two volumes.",
  [CO], [("Bounding*::Intersects*", CO), ("separating-axis tests", CO)]),
p("C28", "Containment classification separates disjoint, intersecting and contained",
  "Contains tests report Disjoint only for objects with no common point, Contains exactly for objects (points, triangles, spheres, boxes, frustums) wholly inside the volume, and Intersects otherwise, outside the rounding-error band. The frustum's Contains of triangles, spheres, boxes and frustums is the documented six-plane test: Disjoint exactly when the object lies beyond one of the six planes, so an object outside only past an edge or corner may be Intersects.",
  [CO], [("Bounding*::Contains*", CO)]),
p("C29", "Ray tests report a hit exactly when the ray meets the object, at its distance",
  "For spheres, boxes, oriented boxes, frustums and triangles, a ray test succeeds exactly when the half-line meets the object (outside the rounding-error band), including rays starting inside, parallel to faces or pointing away, and the distance is that of the crossing: entry for boxes (negative when the origin is inside), entry or, from inside, exit for spheres, 0 from inside a frustum, the hit parameter for triangles, and 0 on a miss.",
  [CO], [("IntersectsRay", CO)]),
p("C30", "Plane classification and six-plane containment are sound",
  "Classification of any volume or triangle against a plane is Front or Back exactly when all of it lies on that side and Intersecting otherwise; against six planes, Disjoint is reported exactly when the volume lies outside one plane and Contains exactly when it is inside all six (outside the rounding-error band).",
  [CO], [("IntersectsPlane/ContainedBy/FastIntersect*Plane", CO)]),
p("C31", "Constructed bounding volumes enclose what they were built from",
  "Volumes created from points, merged from two volumes, or converted from another volume contain every input point or volume within rounding, and are no larger than their construction allows: axis-aligned boxes and merged boxes tight, oriented boxes tight along their own axes, which are the principal axes of the points when these are distinct and in general position, merged spheres minimal, a sphere around points at most 0.75 of their diameter in radius, and the diametral sphere of the two farthest points when these are extreme along an axis and it already holds the others.",
  [CO], [("CreateFromPoints/CreateMerged/CreateFrom*", CO)]),
p("C32", "Transforming a volume transforms the set it denotes",
  "Transforming a volume by a matrix or by scale, rotation and translation yields a volume that encloses the images of all of its points: for axis-aligned boxes the tight box and for spheres the radius times the longest axis under any affine matrix, for oriented boxes and frustums exactly the image under rotation, translation and uniform scale (for unrotated oriented boxes also per-axis scale); the two call forms agree.",
  [CO], [("Transform*/TransformDecomposed", CO)]),
p("C33", "Frustum corners, planes and projection matrices describe one volume",
  "A frustum built from a left- or right-handed perspective matrix has corners that the matrix maps to the canonical cube's corners, its six planes pass through those corners with outward unit normals, and box corners enumerate the documented eight points.",
  [CO], [("BoundingFrustum::CreateFromMatrix/GetPlanes/GetCorners", CO), ("BoundingBox/OrientedBox::GetCorners", CO)]),
p("C34", "Triangle tests agree with exact geometry",
  "Triangle-triangle, triangle-ray, triangle-plane, triangle-in-six-planes and triangle-volume tests agree with exact geometry for every non-degenerate configuration outside the rounding-error band, regardless of the order of the vertices or of the two triangles.",
  [CO], [("triangle_tests::*", CO), ("IntersectsTriangle", CO)]),
p("C35", "Operators and storage conversions equal the named functions",
  "The wrapper types' operators, assignment operators, equality, setters and array/struct conversions (vectors, matrices and all storage structs, by value and by reference) give exactly what the corresponding named function, row by row or word order gives, for every operand; XMMin/XMMax return the smaller/larger argument, Debug prints the four lanes, and every storage struct has the documented size and alignment.",
  [V, M, L], [("impl std::ops::* for XMVector/XMMatrix", M), ("xm_struct! From/Into/AsRef", L), ("XMMin/XMMax", L)]),
p("C36", "Any sequence of calls means the same in every build configuration",
  "A sequence of vector, matrix, quaternion, operator, load and store calls on a set of registers and a memory, each result fed back into later calls, follows the specification's step relation at every step in every build configuration, with no hidden state: operands are unchanged, only the destination changes, and a second run of the same sequence ends in the same state. A build uses only instruction-set extensions it was configured for.",
  [V, M, Q, L, C], [("cfg-selected bodies of every function", "build.rs"), ("by-value calling convention", L)], over=("inputs", "histories", "configurations"),
  text="For every finite sequence of calls, register assignment and build configuration."),
p("C37", "Bounding volumes are values: any history of building, moving and querying",
  "However a bounding volume came about (given, merged, enclosing points or another volume, transformed, built from a projection, or one field assigned since), each later call on it answers as exact geometry on its current fields demands within the rounding band of that call; corners and planes of a volume can be fed to the point, plane, ray and triangle queries and to the constructors; no call changes its operands, remembers an earlier call, or depends on the order of calls, and a second run of the same history ends in the same volumes.",
  [CO], [("CreateMerged/CreateFrom*/Transform*/GetCorners/GetPlanes feeding Contains*/Intersects*/ContainedBy", CO)], over=("inputs", "histories", "configurations"),
  text="For every finite history of building, transforming, assigning and querying volumes."),
]
def main():
    claimed = json.load(open(ROOT + "/bin/props.json"))
    notes = json.load(open(ROOT + "/docs/level_notes.json")) if os.path.exists(ROOT + "/docs/level_notes.json") else {}
    with open(ROOT + "/properties.jsonl", "w") as f:
        for q in PROPS:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for q in PROPS:
        i = q["id"]
        if i in claimed:
            c = claimed[i]
            mods = ", ".join(sorted({x["module"] + ".tla" for x in c["parts"]} | {m["module"] + ".tla" for m in c.get("models", [])}))
            checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                               technique="TLA+ specification (%s): TLC-generated scenarios replayed into the code in every build configuration, TLC validates the recorded calls against the specification" % mods,
                               level=c["level"], level_note=notes.get(i, "Every explored call is decided by the specification's conformance relation, evaluated by TLC on exact arithmetic; assurance is for the scenarios explored (seeded, boundary-directed; exhaustive where DESIGN.md says so). Trusts TLC, the arithmetic overrides (cross-checked against their TLA+ definitions by MCNum.tla) and the Rust toolchain.")))
        else:
            na.append(dict(property=i, reason="planned, its specification module is not built yet"))
    man = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
               notes="No hooks: the library is sequential and its public API exposes all state, so the harness crates record calls through the API. See DESIGN.md.")
    json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")
main()
