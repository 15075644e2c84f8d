"""Single source for properties.jsonl and MANIFEST.json (python3 tools/spec.py rewrites both)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CURVE = "src/Curve/Curve.cpp"
SURF = "src/Surface/Surface.cpp"
KNOT = "src/Core/KnotVector.cpp"
BASIS = "src/Basis/BSplineBasis.cpp"
ELEV = "src/Algorithm/DegreeAlgo.cpp"
REM = "src/Algorithm/KnotRemoval.cpp"
SER = "src/Utils/Serialization.cpp"
GRID = "include/libnurbs/Core/Grid.hpp"
BBOX = "include/libnurbs/Core/BoundingBox.hpp"
TYPES = "include/libnurbs/Core/Typedefs.hpp"
MATH = "include/libnurbs/Algorithm/MathUtils.hpp"

COMMON = [
    "clang-18/libc++ build of the library with AddressSanitizer, UBSan and assertions on; -O1",
    "clamped knot vectors on [0,1] whose distinct knots are further apart than the library's own 1e-6 comparison tolerance",
    "finite coordinates, strictly positive weights",
    "the long double reference model (harness/ref.hpp) implements the Cox - de Boor definition correctly",
]

P = []


def prop(id, title, statement, over, qtext, why, files, mech, assumptions=(), technique="", note="", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  assumptions=list(assumptions), technique=technique, note=note, observe=observe, state=state))


prop("C01", "B-spline basis values equal the Cox-de Boor definition everywhere",
     "For every degree, clamped knot vector on [0,1] and parameter in [0,1], evaluating the basis returns exactly degree+1 "
     "values that equal the Cox-de Boor basis functions of the knot span containing the parameter (half-open spans, the right end "
     "belonging to the last span). They are non-negative, sum to one, and are the same through every evaluation entry point "
     "(by knot vector, by explicit span, as order-0 row of the derivative table).",
     ["inputs"], "all degrees, clamped knot vectors with any interior multiplicity up to degree+1, all parameters in [0,1]",
     "The unit tests evaluate one quadratic knot vector at three parameters; the quantifier is over all knot vectors, multiplicities and parameters, including exact knots.",
     [BASIS, KNOT], [("basis value recursion", BASIS), ("span lookup", KNOT)],
     technique="property-based testing: generated degrees/knots/parameters against the Cox-de Boor definition in long double",
     note="Random exploration, no proof. Tolerance 1e-12 absolute on values in [0,1].")

prop("C02", "Basis derivatives of every order equal the analytic derivatives",
     "For every degree, clamped knot vector, parameter in [0,1] and derivative order, the derivatives of the basis functions equal the "
     "analytic derivatives of the Cox-de Boor functions on the span containing the parameter. All orders above the degree are zero, "
     "row 0 is the basis values, each row of order >= 1 sums to zero, and the single-order and all-orders forms agree.",
     ["inputs"], "all degrees, clamped knot vectors, parameters and derivative orders (also above the degree)",
     "The unit test checks a single quadratic basis; wrong handling of multiplicities, spans or high orders is not sampled.",
     [BASIS], [("all-orders derivative table", BASIS)],
     technique="property-based testing: generated orders against the defining derivative recursion in long double",
     note="Tolerance 1e-11 times the absolute-value recursion (a rounding-error scale).")

prop("C03", "Knot vector queries agree with the multiset of knots",
     "For every knot vector, span lookup returns the half-open span containing the parameter (the last non-empty span at the right end), the "
     "distinct-knot list gives every distinct value once in increasing order with its multiplicity and the position of its first occurrence, and the "
     "multiplicity of a value is how often it occurs. Validity is reported exactly for vectors of at least four non-decreasing finite knots running from 0 to 1, "
     "clampedness, for ends repeated at least twice each, exactly when both are repeated equally often, uniformity exactly when all non-zero gaps are equal, and the detected degree is "
     "the multiplicity of the first knot minus one.",
     ["inputs"], "all knot vectors (valid or not for the validity query) and all parameters in [0,1]",
     "Unit tests look at a handful of small vectors; which span, index or multiplicity is returned matters for every vector.",
     [KNOT, "include/libnurbs/Core/KnotVector.hpp"],
     [("span lookup", KNOT), ("distinct-knot grouping", KNOT), ("predicates", KNOT)],
     assumptions=["uniformity is judged only when gaps agree to 1e-9 or differ by more than 1e-5 (the code compares with 1e-6)", "the multiplicity of a value next to several knots less than 2e-6 apart may count any of those within the 1e-6 tolerance"],
     technique="property-based testing against a naive multiset model",
     note="Reference answers are computed by linear scans over the knot list.")

prop("C04", "Knot vector construction and edits keep an exact sorted multiset",
     "Constructing a knot vector from values or from (value, multiplicity) pairs stores exactly those knots, and rejects with invalid_argument every list that is "
     "empty, decreasing somewhere, has a negative or NaN entry, or does not end at 1. The uniform factory yields a clamped vector with equally spaced interior knots of the requested "
     "size; over any history of knot insertions (any times) and reversals the vector stays a sorted multiset equal to the modelled one, insertion returns the index of "
     "the span of the previous vector that contains the value, and reversal maps every knot t to 1-t.",
     ["inputs", "histories"], "all value/pair lists, all degrees and counts, all sequences of insertions and reversals",
     "Tests construct a few vectors; histories of edits and invalid inputs are not explored.",
     [KNOT], [("validation", KNOT), ("insertion", KNOT), ("reversal", KNOT)],
     technique="stateful (model-based) property testing against a sorted multiset",
     note="Histories of up to 24 edits; contents compared exactly.")

prop("C05", "Curve evaluation equals the rational B-spline definition",
     "For every NURBS curve (clamped knots on [0,1], positive weights) and every parameter in [0,1], the evaluated point equals the weighted rational combination "
     "of control points given by the basis functions. In particular it interpolates the first and last control points, stays inside the box of the control points active on the span, "
     "and multiplying all weights by one positive constant does not change it.",
     ["inputs"], "all degrees, knot vectors (interior multiplicity up to degree+1), weights, control points, parameters",
     "The curve tests are not even built here (library feature), and sample three fixed curves.",
     [CURVE, BASIS, KNOT], [("point evaluation", CURVE), ("homogeneous conversion", TYPES)],
     technique="property-based testing against the rational definition in long double plus metamorphic relations",
     note="Tolerance 1e-11 times the magnitude of the active control points.")

prop("C06", "Curve derivatives of every order are the exact rational derivatives",
     "For every NURBS curve, parameter in [0,1] and order, the derivatives returned equal the analytic derivatives of the rational curve on the span containing the parameter; entry 0 is the "
     "point itself, exactly order+1 entries are returned, and the single-order and all-orders forms agree. For equal weights all derivatives above the degree vanish.",
     ["inputs"], "all curves, parameters and orders 0..28",
     "Tests check orders one and two at a few parameters of two curves.",
     [CURVE, BASIS, MATH], [("quotient-rule recursion", CURVE), ("binomial coefficients", MATH)],
     assumptions=["orders 0..28"],
     technique="property-based testing against series division in long double",
     note="Tolerance 1e-10 times the absolute-value recursion of the quotient rule.")

prop("C07", "Surface evaluation equals the rational tensor-product definition",
     "For every NURBS surface (clamped knots, positive weights) and parameters (u,v) in the unit square, the evaluated point equals the rational tensor-product combination of its control grid. "
     "Corners are interpolated, the point stays inside the box of the active control points, a common factor on all weights has no effect, exchanging the two parameter "
     "directions exchanges the arguments, and the boundary rows of the grid give the boundary curves.",
     ["inputs"], "all degree pairs, knot vectors, grids, weights and parameter pairs",
     "Tests evaluate a few fixed surfaces, mostly square ones, at a few parameters.",
     [SURF, BASIS, KNOT, GRID], [("point evaluation", SURF), ("grid indexing", GRID)],
     technique="property-based testing against the rational tensor-product definition plus U/V symmetry",
     note="Tolerance 1e-11 times the magnitude of the active control points.")

prop("C08", "Surface mixed partial derivatives are the exact rational derivatives",
     "For every NURBS surface, (u,v) and orders (a,b), each entry (i,j) of the derivative table equals the analytic mixed partial of order i in u and j in v of the rational surface; "
     "the table has (a+1) by (b+1) entries, entry (0,0) is the point, the single-entry form agrees with the table, and exchanging parameter directions exchanges the orders.",
     ["inputs"], "all surfaces, parameters and order pairs up to 22 in each direction",
     "Tests look at low orders of two surfaces.",
     [SURF, BASIS, MATH], [("mixed quotient rule", SURF)],
     assumptions=["orders 0..22 per direction"],
     technique="property-based testing against bivariate Leibniz division in long double",
     note="Tolerance 1e-10 times the absolute-value recursion.")

prop("C09", "Curve knot insertion never changes the curve",
     "For every curve and every list of knots strictly between 0 and 1 (any order, repeated, on existing knots, up to total multiplicity degree+1), inserting them "
     "gives a curve of the same degree that is the same map on [0,1]. Its knot vector is the old one plus exactly the inserted values, it has exactly that many more control points, "
     "and the single, repeated and list forms agree with one another; inserting nothing changes nothing.",
     ["inputs", "histories"], "all curves and all insertion lists with resulting interior multiplicity at most degree+1",
     "Tests insert at most three knots in one fixed curve and compare literal control points.",
     [CURVE, KNOT], [("single insertion", CURVE), ("list insertion", CURVE)],
     technique="property-based testing: shape equality decided by dense per-span sampling with the reference model",
     note="Shape tolerance 1e-9 relative (weights ratio up to 1e6 included).")

prop("C10", "Surface knot insertion in U or V never changes the surface",
     "For every surface and every list of knots strictly between 0 and 1 for one direction (any order, repeated, on existing knots, up to total multiplicity degree+1), insertion gives the same map on the unit square with unchanged degrees. "
     "The knot vector of that direction gains exactly the inserted values, the control grid grows by that many columns (rows) in that direction only, the other direction is untouched, and single, repeated and list forms as well as U on the surface and V on the transposed surface agree.",
     ["inputs", "histories"], "all surfaces, directions and insertion lists",
     "Tests insert one or two knots in one fixed surface.",
     [SURF, KNOT, GRID], [("insertion in U", SURF), ("insertion in V", SURF), ("grid growth", GRID)],
     technique="property-based testing: shape equality by per-span sampling, U/V transposition symmetry",
     note="Shape tolerance 1e-9 relative.")

prop("C11", "Curve knot removal stays within tolerance and inverts insertion",
     "Removing an existing interior knot up to a requested number of times reports the number t actually removed, with 0 <= t <= min(times, multiplicity), and returns a curve with exactly t fewer copies of that knot, t fewer control points, the same degree, that deviates "
     "from the original by at most t times the tolerance. A knot that was inserted (or is otherwise redundant) is removed as often as asked and the original curve comes back, while a knot whose removal would move the curve by much more than the tolerance is kept; "
     "if t is 0 the returned curve equals the input, and asking for more removals than the multiplicity, or for a value that is not a knot, never corrupts the curve; a value that differs from an interior knot only by rounding stands for that knot or is refused.",
     ["inputs", "histories"], "all curves, knots, times and tolerances",
     "The test removes one knot of one curve whose removal always succeeds.",
     [CURVE, REM], [("removal algorithm", REM), ("tolerance scaling", REM)],
     assumptions=["tolerances 1e-8 .. 1 relative to the curve size for insertion inverses"],
     technique="property-based testing: insert-then-remove round trip, perturbation bracketing, structural invariants",
     note="Deviation bound t*tolerance*(1+1e-3) plus rounding.")

prop("C12", "Surface knot removal stays within tolerance and inverts insertion",
     "Removing an interior knot of one direction of a surface reports a number t <= min(times, multiplicity) and returns a surface with exactly t fewer copies of that knot and t fewer control columns (rows) in that direction only, deviating from the original by at most t times the tolerance. "
     "Knots that were inserted are removed as often as they were inserted and the original surface comes back; when nothing can be removed (also for a value that is not a knot) t is 0 and the surface is returned unchanged; a value that differs from an interior knot only by rounding stands for that knot or is refused.",
     ["inputs", "histories"], "all surfaces, directions, knots, times and tolerances",
     "The test removes one inserted knot of one surface with success.",
     [SURF, REM], [("row/column-wise removal", SURF), ("removal algorithm", REM)],
     technique="property-based testing: insert-then-remove round trip, perturbation bracketing, U/V symmetry",
     note="Deviation bound t*tolerance*(1+1e-3) plus rounding.")

prop("C13", "Curve degree elevation never changes the curve",
     "For every curve (interior multiplicities up to degree+1) and every number of elevations n >= 1, elevation gives a curve of degree p+n that is the same map on [0,1]. Every distinct knot keeps its value and gains exactly n in multiplicity, "
     "the number of control points matches the new knot vector, and elevating n times at once equals n single elevations. Knots closer than 1e-6 may count as one, but the result is still a well-formed curve of degree p+n near the original.",
     ["inputs"], "all curves and elevation counts with resulting degree up to about 12",
     "The test elevates one curve with one interior knot once.",
     [CURVE, ELEV], [("elevation algorithm", ELEV)],
     assumptions=["longest/shortest span ratio up to 64; resulting degree at most 12"],
     technique="property-based testing: shape equality by per-span sampling, structural oracle, composition law",
     note="Shape tolerance 1e-7 relative to size times weight ratio (measured worst is far smaller).")

prop("C14", "Surface degree elevation in U or V never changes the surface",
     "For every surface and n >= 1, elevating one direction gives the same map on the unit square, with that degree increased by n, every distinct knot of that direction kept with n more multiplicity, and the control grid resized accordingly. "
     "The other direction's degree, knots and count are unchanged, and elevating U equals elevating V of the transposed surface.",
     ["inputs"], "all surfaces (with any interior knots), directions and elevation counts",
     "The tests elevate a Bezier-like surface once per direction.",
     [SURF, ELEV], [("row/column-wise elevation", SURF), ("elevation algorithm", ELEV)],
     technique="property-based testing: shape equality by per-span sampling, structural oracle, U/V symmetry",
     note="Shape tolerance 1e-7 relative.")

prop("C15", "Linear transforms act pointwise and commute with every operation",
     "For every 3x3 matrix, transforming a curve or surface gives the object whose every point and derivative is the matrix applied to the original's, with degrees, knots, weights and grid size unchanged. Transforms compose as matrix products, the identity changes nothing, "
     "and transforming commutes with knot insertion, degree elevation and Bezier extraction.",
     ["inputs", "histories"], "all curves, surfaces and 3x3 matrices (including singular and reflecting ones)",
     "Tests rotate one curve and one surface.",
     [CURVE, SURF], [("curve transform", CURVE), ("surface transform", SURF)],
     technique="metamorphic property-based testing",
     note="Tolerance 1e-9 relative to matrix norm times size.")

prop("C16", "Parameter-domain alignment only re-parametrises the surface",
     "Aligning the parameter domain of any surface with a pair of coordinate axes returns a surface that traces the same point set through one of the eight swaps/reversals of (u,v): same control points and weights re-ordered, degrees and knots swapped or mirrored consistently. "
     "If each edge of a non-degenerate patch runs along its own coordinate axis and the two requested axes are those two, then in the result u increases along the first requested axis and v along the second, also when one edge has shrunk to one of its end points, and aligning again changes nothing; if the first requested axis is neither that of u nor (with the second being that of u) that of v, the surface is returned unchanged.",
     ["inputs"], "all surfaces and all axis pairs",
     "Tests align a few fixed surfaces; the re-parametrisation must be consistent for every knot vector and grid shape.",
     [SURF, KNOT], [("swap and reversal", SURF), ("knot reversal", KNOT)],
     assumptions=["direction claims only for patches whose four corner edges are each dominated by one axis, parallel edges by the same axis and sign"],
     technique="property-based testing against the eight dihedral re-parametrisations",
     note="Control net compared exactly; mirrored knots to 1e-15; map equality by sampling.")

prop("C17", "Bezier extraction reproduces the curve piece by piece",
     "For every curve (interior multiplicities up to degree+1), extraction returns one Bezier curve per non-empty knot span, in order, each of the same degree with degree+1 control points on the knots 0 and 1. Piece k at local parameter t equals the curve at the "
     "corresponding point of span k for all t in [0,1], and consecutive pieces share their end point wherever the knot between them has multiplicity at most the degree.",
     ["inputs"], "all curves with interior multiplicity up to degree+1",
     "Not covered by tests that build here; the tests sample one curve.",
     [CURVE], [("Bezier extraction", CURVE)],
     technique="property-based testing: piecewise equality decided by sampling against the reference model",
     note="Tolerance 1e-9 relative.")

prop("C18", "Curve bounding box encloses the curve tightly",
     "For every curve (interior multiplicities up to degree+1, positive weights) and epsilon > 0, the bounding box contains every point of the curve up to max(epsilon, 1e-6), and is tight: each of its six faces is within max(epsilon, 1e-6) of the curve, so it is never larger than the control polygon's box. "
     "The computation terminates for every such input.",
     ["inputs"], "all curves, rational and not, all epsilons from 1e-6 to 10",
     "Not covered by the tests that build here; enclosing is a for-all-parameters statement.",
     [CURVE, BBOX], [("subdivision", CURVE), ("box union", BBOX)],
     assumptions=["coordinates up to 1e4 in magnitude (the flatness test is absolute, 1e-6)"],
     technique="property-based testing against an independent long double subdivision bracket of the exact extents",
     note="The exact extent is bracketed to 1e-7 by adaptive subdivision in the harness.")

prop("C19", "Bounding boxes form a join lattice",
     "A box built from any two corner points, in any order, spans exactly the componentwise minimum and maximum. Expanding a box by any point or box yields exactly the smallest box containing both the old box and the new object, so over any history of expansions the box is the componentwise hull; containment tests "
     "agree with the inequalities, and center, side lengths and volume follow from the two corners.",
     ["inputs", "histories"], "all points, boxes and sequences of expansions",
     "No unit test for boxes; expansion order matters for a history, not one call.",
     [BBOX], [("expansion", BBOX), ("containment", BBOX)],
     technique="stateful property-based testing against a naive min/max model",
     note="Corners compared exactly; centre and volume to rounding.")

prop("C20", "Saving and loading a curve restores it exactly",
     "For every curve whose coordinates, weights and knots are zero or normal finite doubles, saving it in text or binary form (to a stream or a file) and loading it back restores degree, knots and control points exactly, bit for bit. "
     "The result does not depend on what the receiving object held before, including after a load that failed; objects saved in binary form one after another to one stream load back one by one.",
     ["inputs", "histories"], "all curves, both formats, stream and file, all prior states of the target object",
     "Tests load small hand-written files into fresh objects and save values that text form represents exactly.",
     [CURVE, SER], [("writer", CURVE), ("reader", CURVE)],
     assumptions=["values are zero or normal doubles (libc++ cannot read denormals back from text)"],
     technique="round-trip property-based testing incl. stateful reuse of the target",
     note="Bit-exact comparison.")

prop("C21", "Saving and loading a surface restores it exactly",
     "For every surface whose coordinates, weights and knots are zero or normal finite doubles, saving it in text or binary form (to a stream or a file) and loading it back restores both degrees, both knot vectors, the grid dimensions and every control point exactly, bit for bit. "
     "The result does not depend on what the receiving object held before, including after a load that failed; objects saved in binary form one after another to one stream load back one by one.",
     ["inputs", "histories"], "all surfaces, both formats, stream and file, all prior states of the target object",
     "Tests load small files into fresh objects.",
     [SURF, SER], [("writer", SURF), ("reader", SURF)],
     assumptions=["values are zero or normal doubles"],
     technique="round-trip property-based testing incl. stateful reuse of the target",
     note="Bit-exact comparison.")

prop("C22", "Loading arbitrary bytes succeeds cleanly or is rejected",
     "For every byte sequence, loading a curve or surface either returns normally or throws a standard exception; it never crashes, hangs, or allocates memory out of proportion to the input. A stream with a wrong magic, mode or object type, a truncated binary file, a negative count, an unknown text section, "
     "content outside any section, a degree section without exactly one line, a non-numeric number, a control point with fewer than four numbers or a grid whose stated dimensions are not positive or do not match its points is always rejected; a surface loaded from a file with control points holds exactly as many as its grid dimensions say, "
     "and after any such load a well-formed file still loads correctly into the same object.",
     ["inputs", "fault_sequences"], "all byte streams, in particular all truncations and mutations of valid files",
     "Tests feed a dozen malformed inputs; the input space is all byte strings.",
     [CURVE, SURF, SER], [("text parser", CURVE), ("binary parser", SER), ("grid dimensions", SURF)],
     technique="structure-aware fuzzing (generated files with mutations; libFuzzer in the thorough tier) with a semantic oracle",
     note="Memory is metered inside operator new (limit 4 MB plus 256 bytes per input byte); AddressSanitizer, UBSan and a CPU watchdog turn silent damage into failures.")

prop("C23", "A failed save is always reported",
     "If the output stream or file cannot take the complete serialisation of a curve or surface (it fails at any byte, on flush, because the disk is full, or it cannot be opened), saving throws an exception. If saving returns normally, the complete object is in the stream or file and loads back.",
     ["fault_sequences", "crash_points"], "all objects, both formats, every byte position at which writing fails, every kind of file failure",
     "No test injects a write failure.",
     [CURVE, SURF, SER], [("writer error checks", CURVE), ("file wrapper", SURF)],
     technique="fault injection at generated positions (failing stream buffers, file size limits, full device, unopenable paths)",
     note="File faults via RLIMIT_FSIZE in a scratch directory and /dev/full.")

prop("C24", "Curve parameter search returns a usable parameter",
     "For every curve, point, start value in [0,1], epsilon and iteration limit, both parameter searches terminate and return a parameter in [0,1] without changing the curve. When the start value already reproduces the point, the quasi-Newton search returns a parameter that does. "
     "For a point on a curve that is close to a uniformly parametrised straight segment of length 0.6 to 1.6, the quasi-Newton search recovers its parameter to the requested accuracy from any start; for a point on any curve whose control polygon edges all lie within 38 degrees of one direction, the interval search returns its parameter to within twice epsilon plus 2^-iterations.",
     ["inputs"], "all curves and points for termination and range; gently parametrised curves for quasi-Newton recovery, monotone curves for the interval search",
     "Tests search a few parameters on two curves.",
     [CURVE], [("quasi-Newton search", CURVE), ("interval search", CURVE)],
     assumptions=["quasi-Newton recovery is claimed only for control points within 3% (of the neighbour distance) of Greville positions on a straight segment of length 0.6..1.6 and weights within 3% of one",
                  "interval search: edges of length 0.05..2, weights 0.1..10, epsilon >= 1e-9"],
     technique="property-based testing: range/termination for all inputs, round trip on a gentle and on a monotone sub-domain",
     note="No recovery claim for strongly curved or badly scaled input, where the local methods do not promise convergence.")

prop("C25", "Surface parameter search returns a usable parameter",
     "For every surface, point, start in the unit square, epsilon and iteration limit, the surface searches terminate and return parameters in the unit square without changing the surface, and the searches along an iso-line return the given constant unchanged (as u for direction 0, as v for direction 1). When the start already reproduces the point, the quasi-Newton searches return parameters that do. "
     "For points on patches close to a uniformly parametrised rectangle with sides 0.7 to 1.3 the quasi-Newton searches recover the parameters to the requested accuracy from any start; for translational surfaces whose u edges and v edges each lie within 38 degrees of one direction, the interval search on the iso-line through a surface point returns its parameter to within twice epsilon plus 2^-iterations.",
     ["inputs"], "all surfaces and points for termination and range; gently parametrised patches for quasi-Newton recovery, monotone ones for the interval search",
     "Tests search a few parameters on two surfaces.",
     [SURF], [("quasi-Newton search", SURF), ("iso-line searches", SURF)],
     assumptions=["quasi-Newton recovery is claimed only for control points within 2% (of the neighbour distance) of Greville positions on a rectangle with sides 0.7..1.3 and weights within 2% of one",
                  "interval search: separable weights, edges of length 0.05..2, epsilon >= 1e-9"],
     technique="property-based testing: range/termination for all inputs, round trip on a gentle and on a monotone sub-domain",
     note="No recovery claim outside those domains.")

prop("C26", "Grid container behaves like a two-dimensional array",
     "Over any history of writes, row/column replacements and row/column insertions, a grid of any element type behaves like a two-dimensional array: every other element keeps its value and relative position, an inserted row or column is filled with the given value and shifts the rest, "
     "and row/column reads return the elements in order, u running fastest in storage.",
     ["histories"], "all grid sizes, element types (numbers, vectors, strings) and operation sequences",
     "Tests insert into one small integer grid.",
     [GRID], [("insertion", GRID), ("row/column access", GRID)],
     technique="stateful model-based property testing against nested vectors, for arithmetic, Eigen and string elements",
     note="Contents compared exactly after every step.")

prop("C27", "Segment and rectangle builders give the straight patches they describe",
     "A segment built from two end points with any degree and control point count is a valid clamped curve with that degree and count, unit weights, the given end points, and lies on the straight segment, its control points equally spaced. A rectangle built from the four corners of a (possibly skewed) rectangle with any degrees and counts is a valid "
     "clamped surface with those degrees and counts, unit weights and uniform knots, whose four corners are the four given points in their positions and whose control net is evenly spaced between them.",
     ["inputs", "configurations"], "all end points, parallelogram corners, degrees and control point counts",
     "Tests build a few axis-aligned rectangles.",
     ["src/Geometry/GeomRect.cpp", "src/Geometry/GeomSegment.cpp", KNOT], [("rectangle builder", "src/Geometry/GeomRect.cpp"), ("segment builder", "src/Geometry/GeomSegment.cpp")],
     assumptions=["the fourth corner completes a parallelogram (the builder ignores it otherwise)"],
     technique="property-based testing against linear interpolation in long double",
     note="Tolerance 1e-12 relative.")

prop("C28", "Any history of shape-preserving edits preserves the shape",
     "Starting from any curve or surface, any sequence of knot insertions, removals of inserted knots, degree elevations, save/load round trips and (for surfaces) domain swaps, interleaved with linear transforms, yields a well-formed object that is the same map as the original up to the applied transforms and swaps. "
     "Objects from which others were derived are never modified by later edits.",
     ["histories"], "all sequences of edits up to length 10 on all starting objects",
     "Tests apply one operation to a fresh object; interactions of operations are not sampled.",
     [CURVE, SURF, ELEV, REM, KNOT], [("edit operations", CURVE), ("edit operations", SURF)],
     technique="stateful model-based property testing, shape compared with the initial object through the reference model",
     note="Shape tolerance 1e-6 relative after up to 10 edits.")

prop("C29", "Queries and derivations are pure and safe to run concurrently",
     "Every read-only operation (evaluation, derivatives, searches, insertion, removal, elevation, transform, extraction, bounding box, saving) leaves its receiver and arguments unchanged and returns the same answer for the same inputs, whatever was called before. Running such operations from several threads on shared objects gives exactly the "
     "results of running them alone, without data races.",
     ["schedules", "histories"], "all interleavings of read-only operations on shared objects by several threads, all prior call histories",
     "Tests are single-threaded and call each function a few times.",
     [CURVE, SURF, BASIS, KNOT], [("const member functions", CURVE), ("const member functions", SURF)],
     technique="generated concurrent workloads compared with serial results, under ThreadSanitizer; repeated-call determinism",
     note="Schedules are sampled by the OS, not enumerated; ThreadSanitizer reports races on executed code independent of their outcome.")

prop("C30", "Weights act projectively and rationality is reported exactly",
     "A curve or surface is reported rational exactly when its weights are not all equal. Multiplying all weights by one positive factor changes no point or derivative, commutes with knot insertion, degree elevation, extraction and transforms (which return the same control points with scaled weights), and with all weights equal every result equals that of the polynomial object with unit weights.",
     ["inputs"], "all curves, surfaces and positive common factors",
     "Tests use one rational curve with fixed weights; nothing rescales them.",
     [CURVE, SURF, TYPES], [("homogeneous conversion", TYPES), ("rationality test", CURVE)],
     technique="metamorphic property-based testing",
     note="Tolerance 1e-9 relative.")

prop("C31", "Text files load the same under any equivalent layout",
     "For every curve or surface text file, re-laying it out without changing its values (sections in another order, blank lines, surrounding spaces or tabs, CRLF line ends, a scalar or the list starting on the section line, list items broken over several lines or with a trailing comma, numbers in another notation) loads to exactly the same object.",
     ["inputs", "configurations"], "all objects and all equivalent text layouts",
     "Tests load one layout per object.",
     [CURVE, SURF, SER], [("text parser", CURVE), ("trimming", SER)],
     technique="metamorphic property-based testing over generated layouts",
     note="Bit-exact comparison with the written values.")

prop("C32", "Numeric helpers are exact on their whole domain",
     "Factorials of 0..9 and binomial coefficients C(n,k) for 0 <= n <= 29 and every k >= 0 (zero when k > n) are exact; approximate equality of numbers and vectors holds exactly when every component differs by less than the given epsilon (1e-6 by default) and is symmetric. Converting a control point to homogeneous form multiplies the coordinates by the weight and keeps "
     "the weight, and converting back restores the point.",
     ["inputs"], "all n, k in range; all numbers and vectors; all points with non-zero weight",
     "One test computes three values.",
     [MATH, TYPES], [("combinatorics", MATH), ("approximate comparison", MATH), ("homogeneous conversion", TYPES)],
     technique="exhaustive small domains plus property-based testing against long double / 128-bit arithmetic",
     note="Combinatorics enumerated completely within each run.")


def write():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    have = [p for p in P if os.path.exists(os.path.join(VERIF, "harness", p["id"].lower() + ".cpp"))]
    man = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[],
               notes="All checks: python3 run.py check <id> --tier quick|thorough; replay a failure with python3 run.py replay <file>. "
                     "Design, tolerances, findings and the planted-bug table are in DESIGN.md. No hooks are needed in /repo; its commits are fixes only.")
    for p in have:
        man["checks"].append(dict(property=p["id"], quick_cmd=f"python3 run.py check {p['id']} --tier quick",
                                  thorough_cmd=f"python3 run.py check {p['id']} --tier thorough",
                                  evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                                  level_note=p["note"] + " Generated-input search; it never establishes absence."))
    for p in P:
        if p not in have:
            man["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
