#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so the lines stay consistent).
import json,os
M=["src/matrix2x2.rs","src/matrix3x3.rs","src/matrix4x4.rs","src/matrix5x5.rs","src/matrix6x6.rs"]
V=["src/vector2.rs","src/vector3.rs","src/vector4.rs","src/vector5.rs","src/vector6.rs"]
Q="src/quaternion.rs"; D="src/dual_quaternion.rs"; T="src/transformations.rs"; U="src/utils.rs"; S="src/slices_methods.rs"
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Vector and matrix arithmetic is entrywise / row-by-column for every size",
 "For vectors of size 2-6 and square matrices of size 2x2-6x6 over any numeric type, addition, subtraction, negation, scaling and division by a scalar (scalar on either side where offered) and their in-place forms act on every component; matrix*matrix and matrix*vector are the row-by-column products, and vector*matrix is the row vector times the matrix. The zero and identity values (constants, constructors and zero tests alike) are the neutral elements, and every component of a result depends only on the operand components of that formula. With integers the results are exact; with floats they are exact up to ordinary rounding, for every magnitude that does not overflow.",
 ["inputs","programs"],"every operand pair, every size, every scalar type (i32, i64, f32, f64, rationals, finite fields)",
 "The tests check one operand pair per operation and size, almost always small positive integers in f32; a slip in one of 36 entries of one product, a type- or sign-dependent path or an in-place form that differs is not sampled.",
 M+V,[("hand-unrolled Add/Sub/Mul/Neg/Div/AddAssign/SubAssign impls","src/matrix6x6.rs"),("hand-unrolled vector impls","src/vector6.rs"),("scalar-on-the-left impls for f32/f64","src/matrix3x3.rs")],obs=["operators","indexing of the result"])
p("C02","Determinant equals the Leibniz expansion at every size",
 "The determinant of every square matrix of size 2-6 is the signed sum over all permutations of products of its entries: exact for integer entries, within floating rounding for floats. In particular it is multiplicative, invariant under transposition, linear in each row, changes sign when two rows are exchanged, and is zero when rows are dependent.",
 ["inputs"],"all matrices of every size, integer and float",
 "Each size is tested on one or two literal matrices; the 6x6 expansion alone has 720 terms written out by hand, of which a test can leave many multiplied by zero or cancelled.",
 M,[("hand-expanded determinant of each size","src/matrix6x6.rs det()"),("5x5 and 4x4 cofactors","src/matrix5x5.rs det(), src/matrix4x4.rs det()")])
p("C03","Matrix inverse is a two-sided inverse, and absent exactly for singular input",
 "For every floating-point square matrix of size 2-6 whose determinant is clearly non-zero, inversion returns a matrix whose product with the original, on either side, is the identity up to rounding scaled by the conditioning. For a matrix whose determinant is exactly zero (or below machine epsilon) it reports that there is no inverse, and it never panics on finite input.",
 ["inputs"],"all finite matrices of each size, including permutation, triangular, negative-determinant and badly scaled ones",
 "One invertible matrix per size is tested (and usually one side only); each entry of the 5x5/6x6 inverse is a separate hand-written cofactor.",
 M,[("cofactor inverse with determinant test","src/matrix*.rs inverse()"),("nearly_zero threshold","src/utils.rs")])
p("C04","QR factorisation: orthogonal times upper triangular gives the matrix back",
 "For every non-singular matrix of size 2-6 the QR factorisation returns an orthogonal matrix Q and an upper-triangular matrix R with Q*R equal to the input up to rounding scaled by the conditioning. For a singular matrix (zero determinant) no factorisation is returned.",
 ["inputs"],"all non-singular matrices of every size",
 "One matrix per size is factorised in the tests; projections and column bookkeeping at each index, sign patterns, zero entries and scalings are not varied.",
 M+[S],[("Gram-Schmidt over the columns","src/matrix*.rs qr()"),("slice helpers dot/normalize/projection","src/slices_methods.rs")])
p("C05","LU decomposition with pivoting reproduces the row-permuted matrix",
 "For every non-singular float matrix of size 2-6 with no zero row, the pivoted LU decomposition returns a packed unit-lower/upper triangular pair and a row-exchange record such that multiplying the triangles and undoing the exchanges gives the original matrix up to rounding. The determinant it returns equals the determinant of the matrix, and the exchange record names valid rows.",
 ["inputs"],"all non-singular matrices without a zero row, of each size that offers the decomposition",
 "One matrix is decomposed in the tests; the pivot order, the exchange bookkeeping and the sign take a different path for each of the n! pivot orders.",
 M,[("Crout LU with implicit pivoting","src/matrix*.rs lu()")])
p("C06","Construction, indexing, slicing and in-place edits agree with a grid of entries",
 "Every way to build a vector or matrix (from components, arrays, columns, identity, zeros, literal macros) and to read it (pair and flat indexing, row and column extraction, diagonal, sub-matrix, upper and lower triangles, flat list, shape, trace, Frobenius norm, transposition) agrees with one row-by-column grid of entries. Any sequence of in-place edits (writing an entry, exchanging two rows, mapping every entry, copying a block into a quadrant) changes exactly the entries it names and nothing else. Reads are non-destructive, and out-of-range indices panic rather than alias another entry.",
 ["inputs","histories"],"all sizes, all index pairs, all edit sequences up to a depth",
 "Accessors are tested on one literal matrix per size, mostly symmetric or with repeated entries; edits are never composed, and most index pairs are never written.",
 M+V,[("Deref to nested arrays, Index<(usize,usize)>","src/matrix*.rs"),("get_rows/get_cols/get_upper_triagular/get_lower_triangular/for_each","src/matrix*.rs"),("copy_elements_from","src/matrix6x6.rs")],
 state=[("entries","the n x n grid of stored numbers","src/matrix*.rs")])
p("C07","Vector norms, normalisation, dot and cross products obey their definitions",
 "For every float vector of size 2-6 (of magnitudes whose squares neither overflow nor underflow) the Euclidean, sum and maximum norms are those of the absolute values of the components, the dot product is the sum of products, and the 3D cross product is the right-handed one (orthogonal to both factors, anticommutative). Normalising a non-zero vector gives a vector of norm one in the same direction, and normalising the zero vector reports an error and leaves no partial result.",
 ["inputs"],"all float (and, for norms and products, integer) vectors of every size",
 "Tests use one positive vector per size; sign, position of the largest component, zero components and scale are not varied.",
 V+[S],[("norm_inf/norm_l/norm2/normalize","src/vector*.rs"),("cross","src/vector3.rs"),("slice helpers","src/slices_methods.rs")])
p("C08","Float comparison and slice helpers decide exactly their documented relation",
 "Approximate equality of two floats holds exactly when they are identical, or differ by less than the tolerance in absolute terms when one is zero (or the sum of their magnitudes is below the smallest positive normal number), or by less than the tolerance relative to the sum of their magnitudes otherwise; it is symmetric, and false for NaN. Comparing sequences of equal length or dual quaternions is the conjunction over all components, absolute comparison is a plain difference test, and scanning a slice for near-zero elements is the disjunction. The extremum search returns the largest and smallest element with the first position where each occurs; slice norms use magnitudes; dot, normalisation and projection of slices follow their formulas for every length.",
 ["inputs"],"all floats incl. zeros, subnormals, infinities, NaN; all slice lengths",
 "Three literal pairs are tested; every other test in the crate is judged through these helpers, so an over-lenient comparison would hide any other bug.",
 [U,S],[("nearly_equal / nearly_zero / compare_vecs / compare_floats / compare_dual_quaternions","src/utils.rs"),("find_max_min / norms / dot / project / check_elements","src/slices_methods.rs")])
p("C09","Real eigenvalues of a 2x2 matrix solve the characteristic equation",
 "For a 2x2 float matrix with real eigenvalues the routine returns both, their sum being the trace and their product the determinant up to rounding; when the eigenvalues are complex it returns none.",
 ["inputs"],"all 2x2 float matrices (both eigenvalue kinds, repeated, zero, triangular, negative trace)",
 "One matrix is tested.",
 ["src/matrix2x2.rs"],[("real_eigenvals","src/matrix2x2.rs")])
p("C10","Quaternions form the Hamilton algebra over any scalar type",
 "Quaternion addition, subtraction, negation, scaling and product follow the Hamilton rules exactly for integer components and up to rounding for floats: the product is associative, distributes over addition, has the unit as neutral element, and multiplies squared norms; the conjugate reverses products, and quaternion times conjugate is the squared norm. Constructors, component accessors, dot product, squared norm, zero/unit tests, division by scalar and quaternion, and the derivative for a given angular rate (half the rate as pure quaternion times the quaternion) agree with those rules.",
 ["inputs","programs"],"all quaternions over integer and float scalars",
 "Tests multiply two literal quaternions; any sign among 16 products with an untested combination slips through.",
 [Q],[("Mul/Add/Sub/Neg/Div, conj, dot, abs2, derivative","src/quaternion.rs")])
p("C11","Quaternion normalise/inverse/equality do not depend on how the value was made",
 "Whatever sequence of constructors and operations produced a quaternion, its later behaviour depends only on its four components: normalising yields norm one in the same direction (none for zero), the inverse multiplied on either side gives one (none for zero), and two quaternions with equal components compare equal. An operation that leaves the unit sphere never leaves behind a value that is still treated as normalised.",
 ["histories","inputs"],"all operation histories up to a depth over an alphabet of constructors and operations",
 "Each method is tested on a freshly built value; the cached normalisation marker makes the answer depend on the history, which no test composes.",
 [Q],[("normalized flag set by constructors and cleared by operations","src/quaternion.rs"),("normalize/normalize_q/inverse","src/quaternion.rs")],
 state=[("normalized","cached claim that the value has norm one","src/quaternion.rs")])
p("C12","Unit quaternions and rotation matrices describe the same rotation",
 "For every unit quaternion the derived 3x3 matrix is a proper rotation, rotating a vector by the quaternion equals multiplying by that matrix and equals conjugating the pure quaternion, and the map turns products into products. Converting any rotation matrix to a quaternion gives a unit quaternion whose matrix is the original, for all rotations including half turns about every axis.",
 ["inputs"],"all unit quaternions and all rotation matrices (each extraction branch and its boundaries)",
 "The author's own note says not all cases of the extraction are tested; its four branches and their boundaries are reached by specific rotations only.",
 [Q],[("to_rotation / from_rotation / Mul<V3>","src/quaternion.rs")])
p("C13","Axis-angle and Euler views of a quaternion round-trip",
 "A quaternion built from an axis and an angle is unit, rotates by that angle about the normalised axis (right-handed), and its reported angle and axis reproduce the same rotation; the variant that encodes the angle in the length of the vector is the same rotation, and the zero vector gives the identity; scaling a quaternion by a positive number leaves the reported angle and axis unchanged. A quaternion built from yaw, pitch and roll equals the product of the elementary rotations about z, y and x, and reading its Euler angles back gives angles of the same rotation, at gimbal lock too. No axis is reported for the identity rotation.",
 ["inputs"],"all angles (negative, beyond a turn), all axes (non-unit included), all Euler triples",
 "A handful of angles about coordinate axes are tested.",
 [Q,T],[("rotation / rotation_norm_encoded / from_euler_angles / get_angle / get_axis / axis_angle / to_euler_angles","src/quaternion.rs"),("rotation_to_euler","src/transformations.rs")])
p("C14","Quaternion exp, ln, pow, sqrt, sin and cos satisfy their defining laws",
 "On every quaternion the exponential, sine and cosine equal their power series, the logarithm of a non-zero quaternion is a right inverse of the exponential with principal argument, the square root of a non-zero quaternion squares back, and raising to a quaternion power is the exponential of the exponent times the logarithm. On real and on complex-like quaternions they agree with the real and complex functions.",
 ["inputs"],"all quaternions of moderate size (real, pure, unit, general, near-zero imaginary part), histories that produce normalised values",
 "Tests check single literals; the near-real special cases and the cached-norm shortcut are reached by specific inputs only.",
 [Q],[("exp / ln / pow / sqrt / sin / cos / argq / normalize_q","src/quaternion.rs")])
p("C15","Spherical interpolation follows the shortest great arc at constant speed",
 "For unit quaternions a and b and t in [0,1], slerp returns a unit quaternion on the shorter arc from the rotation of a to the rotation of b whose rotation from a is t times the whole angle; t=0 gives the rotation of a and t=1 that of b, also when a and b are nearly equal, nearly opposite, or on opposite hemispheres.",
 ["inputs"],"all unit pairs (identical, opposite, nearly so, orthogonal) and all t in [0,1]",
 "Tests take one or two pairs; the near-parallel and reversed branches need arguments within a thousandth of each other.",
 [Q],[("slerp","src/quaternion.rs")])
p("C16","Dual quaternions form the dual-number algebra over the quaternions",
 "Dual quaternion sum, difference, negation, scaling and product follow the dual-number rules exactly for integers and up to rounding for floats; the product is associative, distributive and has the unit as neutral element. The three conjugations negate exactly the parts they name (quaternion, dual, both), reverse or keep products accordingly, and the norm is the product with the quaternion conjugate. Dividing by an invertible dual quaternion and multiplying back on the right gives the original.",
 ["inputs","programs"],"all dual quaternions over integer and float scalars",
 "The tests multiply by the unit and check single literals.",
 [D],[("Add/Sub/Neg/Mul/Div, conj*, norm","src/dual_quaternion.rs")])
p("C17","Dual quaternions, rotation+translation pairs and homogeneous matrices agree",
 "Building a unit dual quaternion from a rotation and translation (or from a homogeneous matrix, a translation, a rotation, a rotation matrix, or a seven-number array) and reading back rotation, translation or homogeneous matrix returns the same motion, up to quaternion sign. Products of unit dual quaternions correspond to products of the homogeneous matrices, and the conjugate to the inverse motion. Transforming a point applies the rotation of the motion to it.",
 ["inputs","programs"],"all rigid motions (all rotation branches, any translation), all products",
 "Tests check a few motions about coordinate axes.",
 [D,T],[("new_from_* / to_* / transform_point","src/dual_quaternion.rs")])
p("C18","Dual quaternion normalise/inverse do not depend on how the value was made",
 "Whatever sequence of constructors and operations produced a dual quaternion with non-zero real part (the rotation constructors being given unit quaternions or rotation matrices), its inverse multiplied on either side gives the unit, normalising returns a unit dual quaternion (real part of norm one and orthogonal to the dual part) by dividing by its dual-number norm, and so leaves unit ones unchanged, and equal components compare equal. A value just normalised says it is normalised, and one whose real part has a non-zero norm clearly different from one says it is not. Normalising one with zero real part reports none.",
 ["histories","inputs"],"all operation histories up to a depth over constructors and operations",
 "The cached normalisation marker selects a different inverse formula; tests never invert a value after normalising a general one.",
 [D],[("normalized flag, inverse, normalize, is_normalized","src/dual_quaternion.rs")],
 state=[("normalized","cached claim that the value is a unit dual quaternion","src/dual_quaternion.rs")])
p("C19","Screw parameters, powers and screw interpolation describe one screw motion",
 "For every rigid motion with rotation angle strictly between zero and a full turn, the screw axis (unit), moment (orthogonal to the axis), angle and displacement rebuild the same motion; for pure translations the axis is the translation direction and the displacement its length. Powers follow the one-parameter screw motion (power 0 is the unit, 1 the motion itself, exponents add). Screw interpolation starts at the first pose, ends at the second, moves along the shorter screw with proportional rotation angle and displacement, and is defined for equal poses. The logarithm of a motion marked normalised is the pure dual quaternion holding half the rotation vector and half the linear part of the twist whose exponential is the motion.",
 ["inputs"],"all rigid motions/pairs and all exponents / interpolation parameters",
 "Tests check a single interpolation; hemisphere choice, zero relative rotation and pure translations need specific pose pairs.",
 [D],[("get_screw_parameters / new_from_screw_parameters / pow / screw_lerp / log","src/dual_quaternion.rs")])
p("C20","Elementary and Euler-sequence rotations are right-handed and compose as named",
 "The 2D and the x/y/z 3D rotation builders give right-handed proper rotations, additive in the angle, for any angle. Each named Euler sequence is the product, in the order named, of the elementary rotations by the first, second and third angle (z-y-x when none is given). Recovering z-y-x angles from any rotation matrix yields angles that rebuild it, including both gimbal-lock poses, with pitch in [-90,90] degrees.",
 ["inputs","configurations"],"all angle triples and all eleven sequences",
 "Two sequences and one angle triple are tested; swapped axes in an untested sequence are invisible.",
 [T],[("rot2/rotx/roty/rotz, euler_to_rotation, rotation_to_euler","src/transformations.rs")])
p("C21","Homogeneous transforms compose, split and invert as rigid motions",
 "A homogeneous matrix built from a rotation (matrix or quaternion) and a translation maps points by rotating then translating, splits back into the same parts, composes like the motions, and its inverse multiplied on either side is the identity. The inverse transform of a point is the inverse matrix applied to that point as position difference. 2D poses, 2D/3D pure translations and the inverse of a rotation are the corresponding special cases.",
 ["inputs","programs"],"all rotations, translations and points, 2D and 3D",
 "One or two motions are tested; index slips and order errors cancel for rotations about one axis.",
 [T],[("homogeneous_* / get_parts* / ksi / translation_2d/3d / rotation_inverse","src/transformations.rs")])
p("C22","Hat, vee, twist and adjoint maps are consistent linear isomorphisms",
 "The 3D skew matrix of v applied to w is the cross product of v and w, and every vector-to-matrix map is linear, with its inverse map, where there is one, recovering the vector. The augmented planar skew matrix and the six-dimensional one hold the skew matrix of the angular part (the last component, the last three components) and the linear part (the first components) in the last column, over a zero last row; the twist matrix does the same for twists, whose angular part comes first. The adjoint of a motion maps twists so that its action matches conjugation of the twist matrix by the motion, is multiplicative, and a screw axis built from point, direction and pitch has the direction and the moment plus pitch times direction. Splitting exponential coordinates into axis and angle multiplies back.",
 ["inputs"],"all vectors, twists and motions",
 "Single literals are tested; six-by-six block placement is checked on one motion.",
 [T],[("skew_* / vex_m22 / twist_to_se3 / se3_to_twist / adjoint / screw_to_axis / axis_angle / axis_angle6","src/transformations.rs"),("copy_elements_from","src/matrix6x6.rs")])
p("C23","Rotation exponential and logarithm are the matrix exponential and logarithm",
 "The exponential of a skew matrix equals its power series and is a proper rotation by the length of the vector about its direction, for any angle including zero; the axis-angle builder gives the same for unit axes. The logarithm of any rotation is a skew matrix of angle at most half a turn whose exponential is that rotation, including the identity and half turns about every axis.",
 ["inputs"],"all axis/angle pairs, including angle 0, near 0, near and equal to a half turn",
 "One literal is tested; the half-turn branch has three sub-branches chosen by the axis.",
 [T],[("rotation_from_axis_angle / matrix_exponential / matrix_log","src/transformations.rs")])
p("C24","Rigid-motion exponential and logarithm are mutually inverse",
 "The exponential of a twist matrix equals its power series (a screw motion; a pure translation when the rotation part is zero), and is a homogeneous rigid motion. The logarithm of any rigid motion is a twist matrix whose exponential is that motion, including pure translations and half turns, and the logarithm of the exponential returns the twist when its rotation angle is below half a turn.",
 ["inputs"],"all twists and motions, including zero rotation, small rotation and half turns",
 "One literal screw is tested; the pure-translation and half-turn branches need specific inputs.",
 [T],[("matrix_exponential6 / matrix_log6","src/transformations.rs")])
p("C25","Rotation predicates accept rotations and reject clear non-rotations",
 "The 3x3 and homogeneous rotation predicates return true for every rotation (homogeneous motion with last row 0,0,0,1 for the latter) that is accurate to rounding, and false for matrices that are clearly not: wrong determinant, reflections, scalings, and shears of determinant one. The distance to the rotation group is zero up to rounding exactly on rotations, is the Frobenius norm of M*M^T minus identity when the determinant is positive, and infinite otherwise.",
 ["inputs"],"all rotations and all non-rotations at a clear distance",
 "The predicates are tested on two rotations and no negative example.",
 [U,T],[("is_rotation / is_rotation_h","src/utils.rs"),("distance_to_manifold","src/transformations.rs")])
p("C26","All pose representations stay in agreement along any motion program",
 "Take any sequence of motions (rotations about axes, Euler rotations, translations, inversions, conversions between representations) and run it in parallel on quaternion+vector, rotation matrix+vector, dual quaternion and homogeneous matrix: at every step the four describe the same rigid motion, each stays a valid unit/orthogonal value, and undoing the sequence returns to the start.",
 ["histories","programs"],"all programs up to a depth over a motion alphabet, from any reachable pose",
 "Tests convert single values once; agreement after mixing products, inverses and conversions is never examined.",
 [Q,D,T],[("operators and conversions between the four representations","src/quaternion.rs, src/dual_quaternion.rs, src/transformations.rs")],
 state=[("pose","current rigid motion in four representations","caller")])
p("C27","Formatting writes exactly the components, in order, and only to its destination",
 "Displaying any vector, matrix, quaternion or dual quaternion writes all components once (floats to two decimals), row by row and in index order, into the formatter it was given, honours a failing writer by returning its error, and has no other observable effect such as output on standard output. The text depends only on the components.",
 ["inputs","fault_sequences"],"all component values and all writer failure points",
 "No test formats a value; output to the terminal is captured by the test runner and never examined.",
 M+V+[Q,D],[("fmt::Display impls","src/matrix*.rs, src/vector*.rs, src/quaternion.rs, src/dual_quaternion.rs")])
p("C28","The standard and no-std configurations both build and compute the same results",
 "The crate compiles both with its default features and with default features off and the no-std feature on, and every operation gives the same result in both up to the rounding of the maths backend.",
 ["configurations","inputs"],"both feature configurations, all operations over the input alphabet",
 "The tests only ever build the default configuration.",
 ["src/lib.rs","Cargo.toml"]+M,[("cfg_attr no_std and the num/libm feature","src/lib.rs, Cargo.toml")])
p("C29","Total and pure: no panic on any float, no hidden state, no input mutation",
 "For every float input, including NaN, infinities, subnormals and extreme magnitudes, every operation that does not document a panic (normalising or inverting zero through the panicking forms, a rotation about or an axis of a zero vector, LU of a matrix that has a row without any non-zero number, out-of-range indices or block numbers, slices of unequal length) returns a value. Calling any operation again with the same arguments, after any other calls, gives bit-identical results, and arguments passed by reference are unchanged.",
 ["inputs","histories"],"all operations x all float classes per component, all call orders up to a depth",
 "Tests use ordinary finite values once each.",
 M+V+[Q,D,T,U,S],[("plain value types without interior state, deny(unsafe_code)","src/lib.rs")])
os.chdir("/verif")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
print(len(P))
